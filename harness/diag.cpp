// L01 lines, L02 log content, L03 concurrent logging, L04 rotating files.
#include "log.h"
#include "table.h"
#include "multifile.h"
#include "buffer_streambuf.h"
#include "vh.h"
#include <fstream>
#include <sstream>
#include <thread>
#include <memory>
#include <ctime>
using namespace vh;

namespace {
	// time is what the harness says
	struct FakeClock { using duration = std::chrono::system_clock::duration; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<FakeClock>; static constexpr bool is_steady = false; static std::atomic<long long>& ns() { static std::atomic<long long> n{ 0 }; return n; } static time_point now() { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(ns().load()))); } };
	struct When { int y, mo, d, h, mi, s, ms; };
	inline When when(long long ns) { time_t t = static_cast<time_t>(ns / 1000000000ll); tm g; gmtime_r(&t, &g); return When{ g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec, static_cast<int>(ns % 1000000000ll / 1000000) }; }
	inline long long gen_time(Rng& rng) { static const long long day[] = { 0, 789, 790, 11016, 11017, 18321, 19782, 47540, 47541, 47542, 73050, 84006 }; long long d = rng.chance(1, 2) ? day[rng.below(12)] : static_cast<long long>(rng.below(100000)); long long t = rng.chance(1, 3) ? (rng.chance(1, 2) ? 0 : 86400000000000ll - 1) : static_cast<long long>(rng.below(86400000000000ull)); return d * 86400000000000ll + t; }
	inline std::string thread_hex() { std::ostringstream o; o << std::hex << std::this_thread::get_id(); return o.str(); }
	// collects what a table is given
	struct Sink : std::streambuf { std::string all; std::size_t syncs = 0; int_type overflow(int_type c) override { if (!traits_type::eq_int_type(c, traits_type::eof())) all += traits_type::to_char_type(c); return traits_type::not_eof(c); } std::streamsize xsputn(const char* s, std::streamsize n) override { all.append(s, static_cast<std::size_t>(n)); return n; } int sync() override { syncs++; return 0; } };
	inline std::string dump_line(const std::string& data, std::size_t off) { std::string l = fmt("%04x:", static_cast<unsigned>(off & 0xffff)), a; for (std::size_t i = 0; i < 16; i++) { if (i % 8 == 0) l += ' '; if (off + i < data.size()) { u8 c = static_cast<u8>(data[off + i]); l += fmt("%02x ", c); a += c >= 0x20 && c < 0x7f ? static_cast<char>(c) : '.'; } else { l += "   "; a += ' '; } } return l + ' ' + a; }
	inline std::string gen_bytes(Rng& rng, std::size_t n) { std::string s(n, 0); unsigned k = static_cast<unsigned>(rng.below(3)); for (auto& c : s) c = k == 0 ? static_cast<char>(rng.next()) : k == 1 ? static_cast<char>('!' + rng.below(94)) : "\0\x7f\x80\xff\n"[rng.below(5)]; return s; }
	inline std::string gen_text(Rng& rng, std::size_t n) { std::string s(n, 0); for (auto& c : s) c = static_cast<char>(' ' + rng.below(95)); return s; }
	inline std::size_t first_diff(const std::string& a, const std::string& b) { std::size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
	inline std::string around(const std::string& s, std::size_t i) { std::size_t b = i > 30 ? i - 30 : 0; return printable(s.substr(b, 70)); }
}

#ifdef L01
namespace {
	// A line in memory of exactly its size, so that the sanitizer sees what is touched outside
	template <std::size_t Size> struct Box { using Line = abc::line_ostream<Size>; void* mem; Line* l; explicit Box(abc::table_ostream* t) : mem(malloc(sizeof(Line))) { memset(mem, 0xa5, sizeof(Line)); l = new (mem) Line(t); } explicit Box(Line&& o) : mem(malloc(sizeof(Line))) { memset(mem, 0xa5, sizeof(Line)); l = new (mem) Line(std::move(o)); } Box(const Box&) = delete; ~Box() { l->~Line(); free(mem); } };
	struct Table : abc::table_ostream { explicit Table(std::streambuf* b) : abc::table_ostream(b) {} };
	template <std::size_t Size> void l01_case(Rng& rng) {
		Sink sink; Table table(&sink); bool null_table = rng.chance(1, 8); std::string want, cur; u64 h = Size; unsigned nops = static_cast<unsigned>(rng.below(40)); std::vector<std::unique_ptr<Box<Size>>> old; std::unique_ptr<Box<Size>> b(new Box<Size>(null_table ? nullptr : &table));
		auto put = [&](const std::string& s) { cur += s; if (cur.size() > Size) { cur.resize(Size); cnt("cut"); } };
		auto flushed = [&] { if (!null_table) want += cur + "\n"; cur.clear(); };
		for (unsigned i = 0; i < nops; i++) {
			unsigned op = static_cast<unsigned>(rng.below(14)); h = hcomb(h, op); auto& l = *b->l;
			switch (op) {
				case 0: case 1: { std::size_t n = rng.chance(1, 3) ? rng.below(Size + 3) : rng.chance(1, 4) && Size >= cur.size() ? Size - cur.size() + rng.below(3) - 1 : rng.below(20); if (n > 100000) n = 0; std::string t = gen_text(rng, n); l.put_any("%s", t.c_str()); put(t); break; }
				case 2: { long long v = static_cast<long long>(rng.next()); int w = static_cast<int>(rng.below(40)); l.put_any("[%*lld|%-*x|%05d]", w, v, w, static_cast<unsigned>(v), static_cast<int>(v % 1000)); put(fmt("[%*lld|%-*x|%05d]", w, v, w, static_cast<unsigned>(v), static_cast<int>(v % 1000))); break; }
				case 3: { double d = static_cast<double>(static_cast<std::int64_t>(rng.next())) / 1e9; l.put_any("%.3f %g%%%c", d, d, 'q'); put(fmt("%.3f %g%%%c", d, d, 'q')); break; }
				case 4: { int w = static_cast<int>(rng.below(6000)); l.put_any("%*d", w, 7); std::string s(static_cast<std::size_t>(w ? w - 1 : 0), ' '); put(s + "7"); break; }
				case 5: l.put_any(""); break;
				case 6: { long long t = gen_time(rng); abc::timestamp<FakeClock> ts{ FakeClock::time_point(std::chrono::nanoseconds(t)) }; When w = when(t); l.put_timestamp(ts, "%4.4u-%2.2u-%2.2u %2.2u:%2.2u:%2.2u.%3.3u"); put(fmt("%04d-%02d-%02d %02d:%02d:%02d.%03d", w.y, w.mo, w.d, w.h, w.mi, w.s, w.ms)); break; }
				case 7: l.put_thread_id(std::this_thread::get_id(), "<%s>"); put("<" + thread_hex() + ">"); break;
				case 8: case 9: { std::string d = gen_bytes(rng, rng.chance(1, 4) ? rng.below(80) : rng.chance(1, 2) ? 16 * rng.below(5) : rng.chance(1, 30) ? 65536 + rng.below(100) : rng.below(20)); std::size_t off = rng.chance(1, 6) ? rng.below(100) : 0; Exact e(d); unsigned lines = 0; for (;;) {
					std::size_t o = off; bool more = l.put_binary(e.p, e.n, o); bool room = Size >= cur.size() && Size - cur.size() > 72, can = room && off < d.size() && off % 16 == 0; if (!can) { VH_CHECK(!more && o == off, "dump-progress", "put_binary of %zu bytes at %zu reports progress without having put anything", d.size(), off); break; }
					put(dump_line(d, off)); VH_CHECK(o >= off + 16 || o >= d.size(), "dump-offset", "put_binary moved the offset from %zu to %zu", off, o); bool rest = off + 16 < d.size(); VH_CHECK(more == rest, "dump-more", "put_binary returned %d with %zu of %zu bytes put", more, std::min(off + 16, d.size()), d.size()); off += 16; cnt("dump_lines"); if (!more) break; if (rng.chance(2, 3)) { VH_CHECK(strcmp(l.get(), cur.c_str()) == 0, "line-content", "the line is %s instead of %s", printable(l.get()).c_str(), printable(cur).c_str()); l.flush(); flushed(); } if (++lines > 5000) break; } break; }
				case 10: case 11: l.flush(); flushed(); cnt("flushes"); break;
				case 12: { std::unique_ptr<Box<Size>> n(new Box<Size>(std::move(l))); if (rng.chance(1, 2)) old.push_back(std::move(b)); b = std::move(n); cnt("moves"); break; }
				default: { // a line without a table accepts everything and puts nothing
					abc::line_ostream<Size> d; std::string t = gen_text(rng, rng.below(30)); d.put_any("%s", t.c_str()); VH_CHECK(std::string(d.get()) == t.substr(0, Size), "line-content", "a line of its own is %s instead of %s", printable(d.get()).c_str(), printable(t).c_str()); }
			}
			if (rng.chance(1, 2)) { std::string g = b->l->get(); VH_CHECK(g == cur, "line-content", "a line of %zu chars is %s instead of %s", Size, printable(g).c_str(), printable(cur).c_str()); }
			VH_CHECK(sink.all == want, "flushed-content", "after %zu equal chars, the output is ...%s instead of ...%s", first_diff(sink.all, want), around(sink.all, first_diff(sink.all, want)).c_str(), around(want, first_diff(sink.all, want)).c_str()); cnt("puts");
		}
		// destroying a line puts it
		b.reset(); flushed(); VH_CHECK(sink.all == want, "destroyed-line", "after destroying the line the output ends with %s instead of %s", around(sink.all, first_diff(sink.all, want)).c_str(), around(want, first_diff(sink.all, want)).c_str()); std::size_t before = sink.all.size(); old.clear(); VH_CHECK(sink.all.substr(before).find_first_not_of('\n') == std::string::npos, "moved-line-put", "a line that had been moved from put %s", printable(sink.all.substr(before)).c_str());
		if (!null_table) VH_CHECK(sink.syncs > 0, "not-flushed", "no line was flushed to the target"); eval(); if (nops > 3) nontrivial(hcomb(h, hstr(want)));
	}
	void l01(u64, Rng& rng) { switch (rng.below(9)) { case 0: l01_case<1>(rng); break; case 1: l01_case<7>(rng); break; case 2: l01_case<16>(rng); break; case 3: l01_case<72>(rng); break; case 4: l01_case<73>(rng); break; case 5: l01_case<100>(rng); break; case 6: l01_case<256>(rng); break; case 7: l01_case<1000>(rng); break; default: l01_case<2048>(rng); } }
}
static RegIt r_l01("L01", l01);
#endif // L01

#ifdef L02
namespace {
	enum Kind { Debug, Diag, Test };
	inline std::string props(Kind k, unsigned cat, unsigned sev, unsigned long long tag, long long t) {
		When w = when(t);
		if (k == Debug) { std::string th = thread_hex(); return fmt("%04d-%02d-%02d %02d:%02d:%02d.%03d | %16s | %04x | %1x | %16llx | ", w.y, w.mo, w.d, w.h, w.mi, w.s, w.ms, th.c_str(), cat, sev, tag); }
		if (k == Diag) return fmt("%04d-%02d-%02dT%02d:%02d:%02d.%03dZ,%s,%04x,%1x,%llx,", w.y, w.mo, w.d, w.h, w.mi, w.s, w.ms, thread_hex().c_str(), cat, sev, tag);
		unsigned s = std::min(sev, 8u); return fmt("%04d-%02d-%02d %02d:%02d:%02d.%03d ", w.y, w.mo, w.d, w.h, w.mi, w.s, w.ms) + std::string(s ? 2 * (s - 1) : 0, ' ');
	}
	template <Kind K, std::size_t Size, typename Line> void l02_case(Rng& rng) {
		Sink sink; abc::log_filter filter(static_cast<abc::severity_t>(rng.below(10))); bool null_filter = rng.chance(1, 6); unsigned min = filter.min_severity(); using Log = abc::log_ostream<Line, abc::log_filter>; std::unique_ptr<Log> lg(new Log(&sink, null_filter ? nullptr : &filter)); std::string want; u64 h = Size * 3 + K; unsigned n = static_cast<unsigned>(1 + rng.below(40));
		auto line = [&](std::string s) { if (s.size() > Size) { s.resize(Size); cnt("cut_entries"); } want += s + "\n"; };
		for (unsigned i = 0; i < n; i++) {
			long long t = gen_time(rng); FakeClock::ns() = t; unsigned cat = static_cast<unsigned>(rng.below(0x10000)), sev = static_cast<unsigned>(rng.below(10)); unsigned long long tag = rng.chance(1, 3) ? rng.next() : rng.below(0x20000); bool on = null_filter || sev <= min; h = hcomb(h, sev * 2 + on); unsigned op = static_cast<unsigned>(rng.below(10)); auto c = static_cast<abc::category_t>(cat); auto s = static_cast<abc::severity_t>(sev); auto g = static_cast<abc::tag_t>(tag); std::string p = props(K, cat, sev, tag, t);
			if (op < 5) { std::string m = gen_text(rng, rng.chance(1, 8) ? (Size > 40 ? Size - 40 : 0) + rng.below(100) : rng.below(60)); int v = static_cast<int>(rng.next()); lg->put_any(c, s, g, "%s/%d/%-6.2f", m.c_str(), v, v / 7.0); if (on) { char b[64]; snprintf(b, sizeof b, "/%d/%-6.2f", v, v / 7.0); line(p + m + b); } }
			else if (op < 7) { std::string d = gen_bytes(rng, rng.chance(1, 3) ? 16 * rng.below(6) : rng.below(70)); Exact e(d); lg->put_binary(c, s, g, e.p, e.n); if (on) { std::size_t off = 0; do { if (p.size() < Size && Size - p.size() > 72 && off < d.size()) { line(p + dump_line(d, off)); off += 16; cnt("binary_lines"); } else { line(p); break; } } while (off < d.size()); } }
			else if (op == 7) { lg->put_blank_line(c, s); if (on) want += "\n"; cnt("blank_lines"); }
			else if (op == 8) { std::string m = gen_text(rng, rng.below(30)); for (auto& x : m) if (x == '%') x = '#'; lg->put_any(c, s, g, m.c_str()); if (on) line(p + m); }
			else { if (rng.chance(1, 4)) { std::unique_ptr<Log> o(new Log(std::move(*lg))); lg = std::move(o); cnt("moves"); } else { unsigned m2 = static_cast<unsigned>(rng.below(10)); unsigned was = filter.min_severity(static_cast<abc::severity_t>(m2)); VH_CHECK(was == min && filter.min_severity() == m2, "filter", "the filter returned %u for %u, then %u for %u", was, min, static_cast<unsigned>(filter.min_severity()), m2); min = m2; } continue; }
			cnt(on ? "admitted" : "filtered");
			VH_CHECK(sink.all == want, on ? "entry-content" : "filtered-entry", "entry %u (severity %u, admitted: %d): the output is ...%s instead of ...%s", i, sev, on, around(sink.all, first_diff(sink.all, want)).c_str(), around(want, first_diff(sink.all, want)).c_str());
		}
		eval(); nontrivial(hcomb(h, hstr(want)));
	}
	template <std::size_t Size> void l02_kind(Rng& rng) { switch (rng.below(3)) { case 0: l02_case<Debug, Size, abc::debug_line_ostream<Size, FakeClock>>(rng); break; case 1: l02_case<Diag, Size, abc::diag_line_ostream<Size, FakeClock>>(rng); break; default: l02_case<Test, Size, abc::test_line_ostream<Size, FakeClock>>(rng); } }
	void l02(u64, Rng& rng) { switch (rng.below(5)) { case 0: l02_kind<20>(rng); break; case 1: l02_kind<140>(rng); break; case 2: l02_kind<150>(rng); break; case 3: l02_kind<512>(rng); break; default: l02_kind<2048>(rng); } }
}
static RegIt r_l02("L02", l02);
#endif // L02

#ifdef L03
namespace {
	// a target that gives other threads a chance in the middle of each line
	struct Slow : std::streambuf { std::string all; unsigned k = 0; void put(const char* s, std::size_t n) { for (std::size_t i = 0; i < n; ) { std::size_t m = std::min<std::size_t>(n - i, 1 + (k++ * 7) % 23); all.append(s + i, m); i += m; if (k % 3 == 0) std::this_thread::yield(); } } int_type overflow(int_type c) override { if (!traits_type::eq_int_type(c, traits_type::eof())) { char x = traits_type::to_char_type(c); put(&x, 1); } return traits_type::not_eof(c); } std::streamsize xsputn(const char* s, std::streamsize n) override { put(s, static_cast<std::size_t>(n)); return n; } };
	constexpr std::size_t l03_size = 200;
	using L03Line = abc::diag_line_ostream<l03_size, FakeClock>; using L03Log = abc::log_ostream<L03Line, abc::log_filter>;
	struct Part { std::vector<std::string> want; std::string id; unsigned blanks = 0, filtered = 0; };
	// what one thread logs; the time is cut off, as it is common
	void l03_thread(L03Log& lg, unsigned t, unsigned n, u64 seed, Part& part, std::atomic<unsigned>& ready, unsigned all, abc::severity_t min) {
		Rng rng(seed); part.id = thread_hex(); ready++; while (ready.load() < all) std::this_thread::yield();
		for (unsigned i = 0; i < n; i++) {
			unsigned sev = static_cast<unsigned>(rng.below(9)), cat = t; bool on = sev <= min; std::string p = fmt("%s,%.4x,%.1x,%llx,", part.id.c_str(), cat, sev, static_cast<unsigned long long>(i)); std::size_t plen = 25 + p.size(); if (!on) part.filtered++;
			auto want = [&](const std::string& s) { if (on) part.want.push_back((p + s).substr(0, l03_size - 25)); };
			switch (rng.below(6)) {
				case 0: { std::string d = gen_bytes(rng, rng.below(70)); lg.put_binary(static_cast<abc::category_t>(cat), static_cast<abc::severity_t>(sev), i, d.data(), d.size()); std::size_t off = 0; do { bool can = plen < l03_size && l03_size - plen > 72 && off < d.size(); want(can ? dump_line(d, off) : ""); off += 16; } while (off < d.size()); break; }
				case 1: lg.put_blank_line(static_cast<abc::category_t>(cat), static_cast<abc::severity_t>(sev)); part.blanks += on; break;
				default: { std::string m(rng.chance(1, 6) ? rng.below(2 * l03_size) : rng.below(100), static_cast<char>('a' + t)); lg.put_any(static_cast<abc::category_t>(cat), static_cast<abc::severity_t>(sev), i, "%u:%u:%s:%u", t, i, m.c_str(), i); want(fmt("%u:%u:%s:%u", t, i, m.c_str(), i)); }
			}
			if (rng.chance(1, 8)) FakeClock::ns() += static_cast<long long>(rng.below(2000000000ull)); if (rng.chance(1, 5)) std::this_thread::yield(); else if (rng.chance(1, 20)) usleep(static_cast<useconds_t>(rng.below(200)));
		}
	}
	void l03(u64 idx, Rng& rng) {
		unsigned mode = static_cast<unsigned>(rng.below(7)), n = static_cast<unsigned>(2 + rng.below(7)), lines = static_cast<unsigned>(10 + rng.below(60)); std::string dir = scratch("l03." + std::to_string(idx)), file = dir + "/f"; if (mkdir(dir.c_str(), 0755) != 0) harness_error("mkdir"); FakeClock::ns() = 1700000000000000000ll; abc::log_filter filter(static_cast<abc::severity_t>(rng.chance(1, 3) ? 8 : 3 + rng.below(5)));
		std::vector<std::unique_ptr<std::streambuf>> targets; std::vector<std::unique_ptr<L03Log>> logs; Slow* slow = nullptr; int fds[2] = { -1, -1 }; std::string piped; std::thread reader; char* small = nullptr; bool shared = mode != 2 && mode != 3;
		for (unsigned i = 0; i < (shared ? 1 : n); i++) {
			if (mode == 1) { targets.emplace_back(slow = new Slow); }
			else if (mode == 5) targets.emplace_back(new abc::duration_multifile_streambuf<256, FakeClock>(std::chrono::milliseconds(rng.below(4000)), dir.c_str(), rng.chance(1, 2) ? std::ios_base::out : std::ios_base::app));
			else if (mode == 6) targets.emplace_back(new abc::size_multifile_streambuf<256, FakeClock>(rng.below(4000), dir.c_str(), rng.chance(1, 2) ? std::ios_base::out : std::ios_base::app));
			else { auto f = new std::filebuf; targets.emplace_back(f); if (mode == 4) { std::size_t k = rng.below(300); small = static_cast<char*>(malloc(k + 1)); f->pubsetbuf(small, static_cast<std::streamsize>(k)); } std::string name = file; if (mode == 3) { if (fds[0] < 0 && pipe2(fds, O_CLOEXEC) != 0) harness_error("pipe"); name = "/proc/self/fd/" + std::to_string(fds[1]); } if (!f->open(name, mode == 3 ? std::ios_base::out : std::ios_base::out | std::ios_base::app)) harness_error("open " + name); }
			logs.emplace_back(new L03Log(targets.back().get(), &filter));
		}
		if (mode == 3) { close(fds[1]); reader = std::thread([&piped, fd = fds[0]] { char b[4096]; ssize_t k; unsigned i = 0; while ((k = read(fd, b, 1 + (i++ * 911) % sizeof b)) > 0) piped.append(b, static_cast<std::size_t>(k)); }); }
		std::vector<Part> parts(n); std::atomic<unsigned> ready{ 0 }; std::vector<std::thread> th; u64 seed = rng.next(); for (unsigned t = 0; t < n; t++) th.emplace_back([&, t] { l03_thread(*logs[shared ? 0 : t], t, lines, seed + t, parts[t], ready, n, filter.min_severity()); }); for (auto& t : th) t.join();
		std::string all = slow ? slow->all : ""; logs.clear(); targets.clear(); if (mode == 3) { reader.join(); close(fds[0]); all = piped; } free(small);
		std::vector<std::string> names; if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name); closedir(d); } std::sort(names.begin(), names.end()); for (auto& f : names) all += slurp(dir + "/" + f); if (mode >= 5) cnt("files", names.size()); for (auto& f : names) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str());
		// every line is one that its thread put, the next one in its order
		VH_CHECK(all.empty() || all.back() == '\n', "cut-line", "mode %u: the output ends with %s", mode, printable(all.substr(all.size() > 60 ? all.size() - 60 : 0)).c_str()); std::vector<std::size_t> next(n); unsigned blanks = 0, wb = 0, last = n; u64 order = mode, switches = 0; std::map<std::string, unsigned> ids; for (unsigned t = 0; t < n; t++) { ids[parts[t].id] = t; wb += parts[t].blanks; cnt("filtered", parts[t].filtered); } VH_CHECK(ids.size() == n, "harness", "threads share an id");
		for (std::size_t p = 0; p < all.size(); ) {
			std::size_t e = all.find('\n', p); std::string l = all.substr(p, e - p); p = e + 1; if (l.empty()) { blanks++; continue; }
			std::size_t c1 = l.find(','), c2 = c1 == std::string::npos ? c1 : l.find(',', c1 + 1); VH_CHECK(c1 == 24 && l[10] == 'T' && l[23] == 'Z' && c2 != std::string::npos && ids.count(l.substr(25, c2 - 25)), "torn-line", "mode %u, %u threads: there is a line %s", mode, n, printable(l).c_str());
			unsigned t = ids[l.substr(25, c2 - 25)]; std::string rest = l.substr(25); auto& w = parts[t].want; std::size_t& i = next[t]; VH_CHECK(i < w.size(), "extra-line", "mode %u: thread %u put %zu lines, then there is %s", mode, t, w.size(), printable(l).c_str()); VH_CHECK(rest == w[i], "wrong-line", "mode %u, %u threads: line %zu of thread %u is %s instead of %s", mode, n, i, t, printable(rest).c_str(), printable(w[i]).c_str()); i++;
			if (t != last) { switches++; last = t; } order = hcomb(order, t); cnt("lines");
		}
		for (unsigned t = 0; t < n; t++) VH_CHECK(next[t] == parts[t].want.size(), "lost-line", "mode %u, %u threads: %zu of %zu lines of thread %u are there", mode, n, next[t], parts[t].want.size(), t);
		VH_CHECK(blanks == wb, "blank-lines", "mode %u: %u blank lines instead of %u", mode, blanks, wb); cnt("switches", switches); if (switches > n) cnt("interleaved"); static const char* const names2[] = { "m_file", "m_memory", "m_own_appending", "m_pipe", "m_small_buffer", "m_duration", "m_size" }; cnt(names2[mode]); eval(); nontrivial(order); distinct("interleavings", order);
	}
}
static RegIt r_l03("L03", l03);
#endif // L03

#ifdef L04
namespace {
	using L04Log = abc::log_ostream<abc::diag_line_ostream<300, FakeClock>, abc::log_filter>;
	enum L04Kind { Plain, Duration, ByteCount };
	struct L04Model { std::map<std::string, std::string> files; std::string dir, cur, pending; long long opened = 0; std::size_t since_open = 0; bool at_end = false; std::string name() const { When w = when(FakeClock::ns()); return dir + fmt("%04d%02d%02d_%02d%02d%02d", w.y, w.mo, w.d, w.h, w.mi, w.s); } };
	template <std::size_t Max, typename Log> struct L04Make { template <typename B> static B* make(L04Kind, long long, std::size_t, const char*, std::ios_base::openmode, Log*); };
	template <typename B> struct L04New;
	template <std::size_t M, typename L> struct L04New<abc::multifile_streambuf<M, FakeClock, L>> { static constexpr L04Kind kind = Plain; using B = abc::multifile_streambuf<M, FakeClock, L>; static B* make(long long, std::size_t, const char* p, std::ios_base::openmode m, L* l) { return new B(p, m, l); } };
	template <std::size_t M, typename L> struct L04New<abc::duration_multifile_streambuf<M, FakeClock, L>> { static constexpr L04Kind kind = Duration; using B = abc::duration_multifile_streambuf<M, FakeClock, L>; static B* make(long long d, std::size_t, const char* p, std::ios_base::openmode m, L* l) { return new B(FakeClock::duration(d), p, m, l); } };
	template <std::size_t M, typename L> struct L04New<abc::size_multifile_streambuf<M, FakeClock, L>> { static constexpr L04Kind kind = ByteCount; using B = abc::size_multifile_streambuf<M, FakeClock, L>; static B* make(long long, std::size_t s, const char* p, std::ios_base::openmode m, L* l) { return new B(s, p, m, l); } };
	inline std::string l04_dir(Rng& rng, std::size_t max) { // the longest one that fits, or a short one
		std::string d; std::size_t n = rng.chance(1, 3) ? std::min<std::size_t>(max - 16, 240) : 1 + rng.below(std::min<std::size_t>(max - 16, 60)); for (std::size_t i = 0; i < n; i++) d += static_cast<char>('a' + rng.below(26)); return d; }
	template <typename B, std::size_t Max, typename Log> void l04_case(Rng& rng) {
		using N = L04New<B>; std::string top = scratch("l04." + std::to_string(ctx().case_idx)); if (mkdir(top.c_str(), 0755) != 0 || chdir(top.c_str()) != 0) harness_error("scratch folder");
		struct Clean { std::string top; ~Clean() { if (chdir("/") != 0) _exit(99); std::function<void(const std::string&)> rm = [&](const std::string& p) { struct stat st; if (lstat(p.c_str(), &st) != 0) return; if (S_ISDIR(st.st_mode)) { std::vector<std::string> n; if (DIR* d = opendir(p.c_str())) { while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); closedir(d); } for (auto& x : n) rm(p + "/" + x); rmdir(p.c_str()); } else unlink(p.c_str()); }; rm(top); } } clean{ top };
		Sink sink; std::unique_ptr<L04Log> lg(new L04Log(&sink, nullptr)); Log* log = nullptr; if constexpr (std::is_same<Log, L04Log>::value) log = lg.get();
		L04Model m; std::string given; switch (rng.below(5)) { case 0: given = ""; break; case 1: given = l04_dir(rng, Max - 1) + "/"; m.dir = given; break; case 2: given = "."; m.dir = "./"; break; default: given = l04_dir(rng, Max); m.dir = given + "/"; } if (given != "" && given != ".") { if (mkdir(given.c_str(), 0755) != 0) harness_error("mkdir " + given); if (given.size() + 16 == Max) cnt("longest_paths"); }
		FakeClock::ns() = gen_time(rng); static const std::ios_base::openmode modes[] = { std::ios_base::out, std::ios_base::app, std::ios_base::out | std::ios_base::trunc, std::ios_base::out | std::ios_base::app, std::ios_base::out | std::ios_base::in | std::ios_base::trunc, std::ios_base::out | std::ios_base::binary }; auto mode = modes[rng.below(6)]; bool app = (mode & std::ios_base::app) != 0; long long duration = rng.chance(1, 8) ? 0 : static_cast<long long>(rng.below(rng.chance(1, 2) ? 5000000000ull : 90000000000000ull)); std::size_t limit = rng.chance(1, 8) ? rng.below(3) : rng.chance(1, 2) ? rng.below(300) : rng.below(30000); u64 h = N::kind * 64 + Max;
		// refusals
		if (rng.chance(1, 6)) { std::string p(Max - 15 + rng.below(rng.chance(1, 2) ? 3 : 3000), 'x'); bool threw = false; try { Exact e(p + std::string(1, '\0')); std::unique_ptr<B> b(N::make(duration, limit, rng.chance(1, 4) ? nullptr : e.p, mode, log)); } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "path-accepted", "a path of %zu chars, or none, was accepted where %zu fit", p.size(), Max); cnt("refused_paths"); }
		std::string own; // what is written during the case in total
		auto pre = [&](long long at) { long long was = FakeClock::ns(); FakeClock::ns() = at; std::string n = m.name(); FakeClock::ns() = was; if (m.files.count(n)) return; std::string c = gen_text(rng, rng.below(50)); spit(n, c); m.files[n] = c; cnt("existing_files"); };
		if (rng.chance(1, 4)) pre(FakeClock::ns()); auto opened = [&] { std::string n = m.name(); bool same = n == m.cur; if (!same && !app) m.files[n].clear(); else m.files[n]; if (!same) cnt("files"); else cnt("same_second"); m.cur = n; m.since_open = 0; m.opened = FakeClock::ns(); };
		std::unique_ptr<B> b; { Exact e(given + std::string(1, '\0')); b.reset(N::make(duration, limit, e.p, mode, log)); } opened(); VH_CHECK(b->is_open(), "not-open", "%s was not opened: path %s, mode %x, errno %d", m.cur.c_str(), b->path(), static_cast<unsigned>(mode), errno);
		auto commit = [&] { m.files[m.cur] += m.pending; m.since_open += m.pending.size(); m.pending.clear(); };
		auto verify = [&](bool flushed, const char* after) {
			VH_CHECK(m.cur == b->path(), "path", "after %s the path is %s instead of %s", after, printable(b->path()).c_str(), m.cur.c_str()); std::vector<std::string> names; std::string d = m.dir.empty() ? "./" : m.dir; if (DIR* dp = opendir(d.c_str())) { while (dirent* e = readdir(dp)) { struct stat st; std::string n = m.dir + e->d_name; if (stat(n.c_str(), &st) == 0 && S_ISREG(st.st_mode)) names.push_back(n); } closedir(dp); } for (auto& n : names) VH_CHECK(m.files.count(n), "unexpected-file", "after %s there is a file %s; expected the current one %s", after, n.c_str(), m.cur.c_str()); VH_CHECK(names.size() == m.files.size(), "missing-file", "after %s there are %zu files instead of %zu", after, names.size(), m.files.size());
			for (auto& f : m.files) { std::string c = slurp(f.first); if (f.first == m.cur && !flushed) VH_CHECK((f.second + m.pending).compare(0, c.size(), c) == 0 && c.size() >= f.second.size(), "content", "after %s, file %s is not the first part of what has been written", after, f.first.c_str()); else VH_CHECK(c == f.second, "content", "after %s, file %s has %zu chars instead of %zu; it differs at %zu: %s instead of %s", after, f.first.c_str(), c.size(), f.second.size(), first_diff(c, f.second), around(c, first_diff(c, f.second)).c_str(), around(f.second, first_diff(c, f.second)).c_str()); } cnt("verified_files", m.files.size());
		};
		std::unique_ptr<std::ostream> os(new std::ostream(b.get())); unsigned n = static_cast<unsigned>(rng.below(50)); bool dead = false;
		for (unsigned i = 0; i < n && !dead; i++) {
			unsigned op = static_cast<unsigned>(rng.below(20)); h = hcomb(h, op); const char* what = "a write"; bool flushed = false;
			if (op < 6) { std::string t = gen_text(rng, rng.chance(1, 12) ? rng.below(20000) : rng.below(80)); if (rng.chance(1, 3)) for (char c : t) os->put(c); else os->write(t.data(), static_cast<std::streamsize>(t.size())); m.pending += t; cnt("writes"); VH_CHECK(os->good(), "write-failed", "writing %zu chars failed", t.size()); }
			else if (op < 11) { os->flush(); VH_CHECK(os->good(), "flush-failed", "a flush failed"); bool wrote = !m.pending.empty(); commit(); flushed = true; what = "a flush"; cnt("flushes");
				bool due = N::kind == Duration ? FakeClock::ns() - m.opened >= duration : N::kind == ByteCount ? m.files[m.cur].size() >= limit : false; if (N::kind == ByteCount && due && !m.since_open && !wrote && m.files[m.cur].size()) { due = std::string(b->path()) != m.cur; cnt("either"); } // an appended file to which nothing has been written yet
				if (due) { opened(); cnt("rotations"); what = "a rotation"; } else if (N::kind != Plain) cnt("not_due"); }
			else if (op < 15) { long long d = rng.chance(1, 4) ? 0 : rng.chance(1, 2) ? static_cast<long long>(rng.below(1500000000ull)) : N::kind == Duration && rng.chance(1, 2) ? std::max<long long>(0, m.opened + duration - FakeClock::ns() - static_cast<long long>(rng.below(2))) : static_cast<long long>(rng.below(100000000000000ull)); FakeClock::ns() += d; if (rng.chance(1, 15) && m.name() != m.cur) pre(FakeClock::ns()); what = "waiting"; }
			else if (op < 17) { b->reopen(); commit(); flushed = true; opened(); what = "a reopen"; cnt("reopens"); VH_CHECK(b->is_open(), "not-open", "%s was not opened: mode %x, errno %d", m.cur.c_str(), static_cast<unsigned>(mode), errno); }
			else if (op < 18) { std::unique_ptr<B> o(new B(std::move(*b))); bool keep = rng.chance(1, 2); if (keep) VH_CHECK(!b->is_open(), "moved-open", "the buffer that was moved from is still open"); os.reset(); b = std::move(o); os.reset(new std::ostream(b.get())); what = "a move"; cnt("moves"); }
			else if (op < 19 && rng.chance(1, 3)) { // the next file cannot hold anything, or cannot be opened
				FakeClock::ns() += 1000000000ll; std::string nm = m.name(); if (m.files.count(nm)) continue; bool full = rng.chance(1, 2); if (full ? symlink("/dev/full", nm.c_str()) != 0 : mkdir(nm.c_str(), 0755) != 0) harness_error("cannot prepare " + nm); b->reopen(); commit(); std::string t = gen_text(rng, 1 + rng.below(rng.chance(1, 4) ? 20000 : 100)); os->write(t.data(), static_cast<std::streamsize>(t.size())); os->flush(); VH_CHECK(!os->good(), "failure-hidden", "%s %s, but writing and flushing %zu chars succeeded", nm.c_str(), full ? "is full" : "is a folder", t.size()); cnt("failed_files"); dead = true; for (auto& f : m.files) VH_CHECK(slurp(f.first) == f.second, "content", "after a failed file, file %s has changed", f.first.c_str()); break; }
			else { lg->put_any(abc::category::any, 3, 0x1, "x"); continue; }
			if (rng.chance(1, 3) || flushed) verify(flushed, what);
		}
		if (!dead) { os.reset(); b.reset(); commit(); if (!m.files.empty()) { for (auto& f : m.files) { std::string c = slurp(f.first); VH_CHECK(c == f.second, "content-at-end", "at the end, file %s has %zu chars instead of %zu", f.first.c_str(), c.size(), f.second.size()); } } }
		eval(); nontrivial(hcomb(h, m.files.size()));
	}
	template <std::size_t Max, typename Log> void l04_kind(Rng& rng) { switch (rng.below(3)) { case 0: l04_case<abc::multifile_streambuf<Max, FakeClock, Log>, Max, Log>(rng); break; case 1: l04_case<abc::duration_multifile_streambuf<Max, FakeClock, Log>, Max, Log>(rng); break; default: l04_case<abc::size_multifile_streambuf<Max, FakeClock, Log>, Max, Log>(rng); } }
	void l04(u64, Rng& rng) { switch (rng.below(4)) { case 0: l04_kind<40, abc::null_log>(rng); break; case 1: l04_kind<100, L04Log>(rng); break; case 2: l04_kind<256, abc::null_log>(rng); break; default: l04_kind<2048, L04Log>(rng); } }
}
static RegIt r_l04("L04", l04);
#endif // L04
