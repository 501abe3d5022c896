// T01 time, A01 characters, B01 memory streams, M01 heap use, K01 the test framework.
#include "log.h"
#include "ascii.h"
#include "timestamp.h"
#include "buffer_streambuf.h"
#include "vh.h"
#include <chrono>
#include <limits>
#include <memory>
#include <sstream>
#include <thread>
using namespace vh;

#ifdef T01
namespace {
	template <typename D, int K> struct Clk { using duration = D; using rep = typename D::rep; using period = typename D::period; using time_point = std::chrono::time_point<Clk>; static constexpr bool is_steady = false; static long long& n() { static long long x = 0; return x; } static time_point now() { return time_point(duration(static_cast<rep>(n()))); } };
	using Nano = Clk<std::chrono::nanoseconds, 0>; using Micro = Clk<std::chrono::microseconds, 0>; using Secs = Clk<std::chrono::seconds, 0>; using Secs32 = Clk<std::chrono::duration<std::int32_t>, 1>;
	struct Civil { long long y; int m, d; };
	// the calendar by its rules: a year at a time, a month at a time
	inline bool leap(long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
	const std::vector<long long>& year_starts() { static std::vector<long long> v; if (v.empty()) { long long d = 0; for (long long y = 1970; y < 32767; y++) { v.push_back(d); d += leap(y) ? 366 : 365; } } return v; }
	inline Civil civil(long long day) { auto& v = year_starts(); std::size_t i = static_cast<std::size_t>(std::upper_bound(v.begin(), v.end(), day) - v.begin()) - 1; long long y = 1970 + static_cast<long long>(i), r = day - v[i]; static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int m = 0; for (;; m++) { int l = ml[m] + (m == 1 && leap(y)); if (r < l) break; r -= l; } return Civil{ y, m + 1, static_cast<int>(r) + 1 }; }
	template <typename TS> void t01_date(const TS& t, long long day, const char* how) { Civil c = civil(day); VH_CHECK(t.year() == c.y && t.month() == c.m && t.day() == c.d, "date", "%s: day %lld is shown as %d-%02d-%02d instead of %lld-%02d-%02d", how, day, t.year(), t.month(), t.day(), c.y, c.m, c.d); }
	template <typename TS> void t01_time(const TS& t, long long ns, const char* how) { long long s = ns / 1000000000, f = ns % 1000000000; VH_CHECK(t.hours() == s / 3600 && t.minutes() == s / 60 % 60 && t.seconds() == s % 60 && t.milliseconds() == f / 1000000 && t.microseconds() == f / 1000 && t.nanoseconds() == f, "time-of-day", "%s: %lld ns after midnight is shown as %02d:%02d:%02d .%d .%d .%d", how, ns, t.hours(), t.minutes(), t.seconds(), t.milliseconds(), t.microseconds(), t.nanoseconds()); }
	template <typename TS> void t01_full(const TS& t, long long ns, const char* how) { t01_date(t, ns / 86400000000000ll, how); t01_time(t, ns % 86400000000000ll, how); cnt("times"); }
	constexpr u64 SLICES = 1024;
	template <typename C> long long t01_ticks(long long ns) { return std::chrono::duration_cast<typename C::duration>(std::chrono::nanoseconds(ns)).count(); }
	template <typename C> void t01_clock(long long ns, Rng& rng) { // the clock's own resolution
		using TS = abc::timestamp<C>; long long k = std::is_same<typename C::rep, std::int32_t>::value ? std::min(ns / 1000000000ll, 0x7fffffffll) : t01_ticks<C>(ns); typename C::time_point tp{ typename C::duration(static_cast<typename C::rep>(k)) }; long long back = std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count();
		TS a(tp); t01_full(a, back, "a time point"); VH_CHECK(a.time_since_epoch() == tp.time_since_epoch(), "time-point", "the timestamp of a time point is another time point"); C::n() = k; TS b; t01_full(b, back, "now"); VH_CHECK(b - a == C::duration::zero(), "difference", "the difference between equal times is %lld", static_cast<long long>((b - a).count()));
		TS z(nullptr); t01_full(z, 0, "the epoch"); z.reset(tp); t01_full(z, back, "reset to a time point"); TS r(nullptr); r.reset(static_cast<abc::time_count_t>(ns)); t01_full(r, ns, "reset to nanoseconds"); TS c(r); t01_full(c, ns, "a copy"); TS d(std::move(c)); t01_full(d, ns, "a moved one"); z = d; t01_full(z, ns, "an assigned one");
		r.reset_date(static_cast<abc::date_count_t>(rng.below(100000))); r.reset_time(static_cast<abc::time_count_t>(ns % 86400000000000ll)); t01_time(r, ns % 86400000000000ll, "reset of the time"); r.reset_date(static_cast<abc::date_count_t>(ns / 86400000000000ll)); t01_full(r, ns, "reset of the date");
		VH_CHECK(r == d && !(r != d), "equality", "timestamps of equal times differ");
	}
	template <typename A> void t01_compare(const A& a, const A& b, long long x, long long y) { VH_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "comparison", "%lld and %lld compare as ==%d !=%d <%d <=%d >%d >=%d", x, y, a == b, a != b, a < b, a <= b, a > b, a >= b); cnt("comparisons"); }
	void t01(u64 idx, Rng& rng) {
		// every day to the end of 9999 and beyond, every second of the day, split over the first cases
		if (idx < SLICES) {
			const long long days = 2932897; abc::timestamp<Nano> t(nullptr); for (long long d = days * static_cast<long long>(idx) / static_cast<long long>(SLICES); d < days * static_cast<long long>(idx + 1) / static_cast<long long>(SLICES); d++) { t.reset_date(static_cast<abc::date_count_t>(d)); t01_date(t, d, "a date"); cnt("days"); time_t s = static_cast<time_t>(d) * 86400; tm g; gmtime_r(&s, &g); Civil c = civil(d); VH_CHECK(g.tm_year + 1900 == c.y && g.tm_mon + 1 == c.m && g.tm_mday == c.d, "harness", "the two references differ on day %lld", d); }
			long long day = rng.chance(1, 4) ? 0 : rng.below(106751); for (long long s = 86400 * static_cast<long long>(idx) / static_cast<long long>(SLICES); s < 86400 * static_cast<long long>(idx + 1) / static_cast<long long>(SLICES); s++) for (long long f : { 0ll, 1ll, 999999999ll, static_cast<long long>(rng.below(1000000000)) }) { t.reset(static_cast<abc::time_count_t>(day * 86400000000000ll + s * 1000000000ll + f)); t01_full(t, day * 86400000000000ll + s * 1000000000ll + f, "nanoseconds"); cnt("seconds_of_day"); }
			for (int i = 0; i < 20; i++) { long long d = static_cast<long long>(rng.below(11247900)); t.reset_date(static_cast<abc::date_count_t>(d)); t01_date(t, d, "a far date"); }
		}
		const long long max = std::numeric_limits<std::int64_t>::max(); std::vector<long long> v; for (int i = 0; i < 40; i++) { long long day = static_cast<long long>(rng.below(106752)), ns; if (rng.chance(1, 3)) { auto& y = year_starts(); day = y[rng.below(293)] + (rng.chance(1, 2) ? static_cast<long long>(rng.below(3)) - 1 : 57 + static_cast<long long>(rng.below(5))); if (day < 0) day = 0; if (day > 106751) day = 106751; } ns = day == 106751 ? static_cast<long long>(rng.below(max - 106751ll * 86400000000000ll)) : rng.chance(1, 3) ? (rng.chance(1, 2) ? static_cast<long long>(rng.below(2)) : 86400000000000ll - 1 - static_cast<long long>(rng.below(2))) : static_cast<long long>(rng.below(86400000000000ull)); v.push_back(day * 86400000000000ll + ns); if (rng.chance(1, 4)) v.push_back(v[rng.below(v.size())]); else if (rng.chance(1, 4)) { long long w = v[rng.below(v.size())]; v.push_back(w == max ? w : w + 1); } } v.push_back(rng.chance(1, 2) ? 0 : max);
		std::vector<abc::timestamp<Nano>> ts; u64 h = 0; for (long long x : v) { h = hcomb(h, static_cast<u64>(x)); t01_clock<Nano>(x, rng); t01_clock<Micro>(x, rng); t01_clock<Secs>(x, rng); t01_clock<Secs32>(x, rng); abc::timestamp<std::chrono::system_clock> sys{ std::chrono::system_clock::time_point(std::chrono::nanoseconds(x)) }; t01_full(sys, x, "the system clock"); ts.emplace_back(Nano::time_point(std::chrono::nanoseconds(x))); }
		for (std::size_t i = 0; i < v.size(); i++) for (std::size_t j = 0; j < v.size(); j++) t01_compare(ts[i], ts[j], v[i], v[j]);
		long long before = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); abc::timestamp<> now; long long after = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count(), at = std::chrono::duration_cast<std::chrono::nanoseconds>(now.time_since_epoch()).count(); if (before <= after) VH_CHECK(before <= at && at <= after, "now", "now is not now"); t01_full(now, at, "now");
		eval(); nontrivial(h);
	}
}
static RegIt r_t01("T01", t01);
#endif // T01

#ifdef A01
#include <bitset>
#include <cctype>
namespace {
	using Set = std::bitset<256>; inline Set chars(const char* s) { Set r; for (; *s; s++) r.set(static_cast<u8>(*s)); return r; } inline Set span(int a, int b) { Set r; for (int i = a; i <= b; i++) r.set(static_cast<std::size_t>(i)); return r; }
	void a01_set(const char* name, bool (*f)(char), const Set& s) { for (int i = 0; i < 256; i++) { bool g = f(static_cast<char>(i)); VH_CHECK(g == s[static_cast<std::size_t>(i)], "character-class", "%s(0x%02x) is %d", name, i, g); cnt("char_tests"); } }
	inline char lower(char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c | 0x20) : c; }
	inline bool same(const char* a, const char* b, bool cs, std::size_t n) { std::string x(a, strnlen(a, n)), y(b, strnlen(b, n)); if (!cs) { for (auto& c : x) c = lower(c); for (auto& c : y) c = lower(c); } return x == y; }
	void a01(u64 idx, Rng& rng) {
		using namespace abc::ascii;
		if (idx < 64) {
			Set dig = span('0', '9'), up = span('A', 'Z'), lo = span('a', 'z'), sp = chars(" \t"), sep = chars("()<>@,;:\\\"/[]?={} \t"), hexs = chars("0123456789abcdefABCDEF"); Set prn = span(0x21, 0x7e);
			a01_set("is_ascii", is_ascii, span(0, 127)); a01_set("is_digit", is_digit, dig); a01_set("is_hex", is_hex, hexs); a01_set("is_upperalpha", is_upperalpha, up); a01_set("is_loweralpha", is_loweralpha, lo); a01_set("is_alpha", is_alpha, up | lo); a01_set("is_space", abc::ascii::is_space, sp); Set ctl = span(0, 0x1f); ctl.set(0x7f); a01_set("is_control", is_control, ctl); a01_set("is_stdprint", is_stdprint, span(0x20, 0x7e)); a01_set("is_abcprint", is_abcprint, prn); a01_set("is_abcprint_or_space", is_abcprint_or_space, prn | sp);
			a01_set("http::is_separator", abc::ascii::http::is_separator, sep); a01_set("http::is_token", abc::ascii::http::is_token, prn & ~sep); a01_set("json::is_space", abc::ascii::json::is_space, chars(" \t\r\n")); Set str; str.set(); str.reset('"'); str.reset('\\'); a01_set("json::is_string_content", abc::ascii::json::is_string_content, str);
			for (int i = 0; i < 256; i++) { char c = static_cast<char>(i); VH_CHECK(to_lower(c) == lower(c), "to_lower", "to_lower(0x%02x) is 0x%02x", i, static_cast<u8>(to_lower(c))); char u = lo[static_cast<std::size_t>(i)] ? static_cast<char>(c & ~0x20) : c; VH_CHECK(to_upper(c) == u, "to_upper", "to_upper(0x%02x) is 0x%02x", i, static_cast<u8>(to_upper(c))); unsigned hv = dig[static_cast<std::size_t>(i)] ? static_cast<unsigned>(i - '0') : hexs[static_cast<std::size_t>(i)] ? static_cast<unsigned>(lower(c) - 'a' + 10) : 0; VH_CHECK(hex(c) == hv, "hex", "hex(0x%02x) is %u", i, hex(c));
				for (int j = 0; j < 256; j++) { char d = static_cast<char>(j); char a[2] = { c, 0 }, b[2] = { d, 0 }; VH_CHECK(are_equal_i(a, b) == (lower(c) == lower(d)) && are_equal(a, b) == (i == j), "pair", "0x%02x and 0x%02x are equal: %d, with case %d", i, j, are_equal_i(a, b), are_equal(a, b)); cnt("char_pairs"); } }
			for (int k = 0; k < 2000; k++) { char c = static_cast<char>(rng.next()), l = static_cast<char>(rng.below(128)), hgh = static_cast<char>(rng.below(128)); VH_CHECK(is_between(c, l, hgh) == (c >= l && c <= hgh), "is_between", "is_between(%d, %d, %d)", c, l, hgh); }
		}
		u64 h = 1;
		for (int k = 0; k < 60; k++) {
			auto gen = [&] { std::string s(rng.below(rng.chance(1, 6) ? 300 : 12), 0); for (auto& c : s) c = rng.chance(1, 2) ? "aAbBzZ@[`{"[rng.below(10)] : static_cast<char>(1 + rng.below(255)); return s; }; std::string a = gen(), b = rng.chance(1, 3) ? gen() : a; unsigned edits = static_cast<unsigned>(rng.below(4)); for (unsigned e = 0; e < edits && !b.empty(); e++) { std::size_t i = rng.below(b.size()); switch (rng.below(4)) { case 0: b[i] = static_cast<char>(b[i] ^ 0x20); if (!b[i]) b[i] = 'x'; break; case 1: b.resize(i); break; case 2: b += 'q'; break; default: b[i] = lower(b[i]); } }
			// terminated, in exactly sized memory
			{ Exact x(a + std::string(1, '\0')), y(b + std::string(1, '\0')); VH_CHECK(are_equal(x.p, y.p) == (a == b), "are_equal", "%s and %s are equal: %d", printable(a).c_str(), printable(b).c_str(), are_equal(x.p, y.p)); bool ei = same(x.p, y.p, false, ~0ull >> 1); VH_CHECK(are_equal_i(x.p, y.p) == ei, "are_equal_i", "%s and %s are equal ignoring case: %d", printable(a).c_str(), printable(b).c_str(), !ei); std::size_t n = rng.below(std::max(a.size(), b.size()) + 3); VH_CHECK(are_equal_n(x.p, y.p, n) == same(x.p, y.p, true, n) && are_equal_i_n(x.p, y.p, n) == same(x.p, y.p, false, n), "are_equal_n", "%s and %s, %zu chars: %d, ignoring case %d", printable(a).c_str(), printable(b).c_str(), n, are_equal_n(x.p, y.p, n), are_equal_i_n(x.p, y.p, n)); cnt(ei ? "equal" : "different"); VH_CHECK(!are_equal(x.p, nullptr) && !are_equal_i(nullptr, y.p) && are_equal(static_cast<const char*>(nullptr), nullptr), "null", "null strings"); }
			// not terminated: only the given number of chars may be read
			{ std::size_t n = std::min(a.size(), b.size()); Exact x(a.substr(0, n)), y(b.substr(0, n)); VH_CHECK(are_equal_n(x.p, y.p, n) == same(x.p, y.p, true, n) && are_equal_i_n(x.p, y.p, n) == same(x.p, y.p, false, n), "are_equal_n", "%zu unterminated chars", n); cnt("unterminated"); }
			h = hcomb(h, hstr(a + "|" + b));
		}
		eval(); nontrivial(h);
	}
}
static RegIt r_a01("A01", a01);
#endif // A01

#ifdef B01
#include "stream.h"
namespace {
	template <typename C> struct Ex { C* p; std::size_t n; explicit Ex(std::size_t k) : p(static_cast<C*>(malloc(k ? k * sizeof(C) : 1))), n(k) {} ~Ex() { free(p); } Ex(const Ex&) = delete; };
	struct In : abc::istream { explicit In(std::streambuf* b) : abc::istream(b) {} In(In&& o) : abc::istream(std::move(o)) {} using abc::istream::set_gcount; using abc::istream::reset; std::istream& raw() { return *this; } bool is_ok() const { return is_good(); } void mark(unsigned k) { k == 0 ? set_bad() : k == 1 ? set_fail() : k == 2 ? set_bad_if(false) : set_fail_if(true); } };
	struct Out : abc::ostream { explicit Out(std::streambuf* b) : abc::ostream(b) {} Out(Out&& o) : abc::ostream(std::move(o)) {} std::ostream& raw() { return *this; } void mark(unsigned k) { k == 0 ? set_bad() : k == 1 ? set_fail() : k == 2 ? set_bad_if(true) : set_fail_if(false); } };
	template <typename C> void b01_case(Rng& rng) {
		using SB = abc::basic_buffer_streambuf<C>; using Tr = typename SB::traits_type; auto eof = Tr::eof(); bool large = rng.chance(1, 60); if (large) cnt("large_buffers"); auto len = [&] { return large ? (rng.chance(1, 2) ? 65530 + rng.below(16) : rng.below(200000)) : rng.below(rng.chance(1, 4) ? 400 : 20); }; std::size_t gn = len(), pn = len(), gb = rng.chance(1, 2) ? 0 : rng.below(gn + 1), ge = rng.chance(1, 2) ? gn : gb + rng.below(gn - gb + 1), pb = rng.chance(1, 2) ? 0 : rng.below(pn + 1), pe = rng.chance(1, 2) ? pn : pb + rng.below(pn - pb + 1); bool nog = rng.chance(1, 8), nop = rng.chance(1, 8); if (nog) gb = ge = gn = 0; if (nop) pb = pe = pn = 0;
		Ex<C> g(gn), p(pn); std::vector<C> gm(gn), pm(pn); for (std::size_t i = 0; i < gn; i++) g.p[i] = gm[i] = static_cast<C>(rng.next()); for (std::size_t i = 0; i < pn; i++) p.p[i] = pm[i] = static_cast<C>(rng.next());
		// in exactly sized memory of its own, so that a use of the object moved from shows
		auto make = [&] { C* G = nog ? nullptr : g.p; C* P = nop ? nullptr : p.p; return rng.chance(1, 2) || nog || nop ? std::unique_ptr<SB>(new SB(G, gb, ge, P, pb, pe)) : std::unique_ptr<SB>(new SB(G + gb, G + ge, P + pb, P + pe)); }; std::unique_ptr<SB> s = make(); std::size_t gp = gb, pp = pb; u64 h = gn * 512 + pn; unsigned n = static_cast<unsigned>(rng.below(large ? 12 : 60));
		auto buffers = [&](const char* w) { VH_CHECK(gn == 0 || memcmp(g.p, gm.data(), gn * sizeof(C)) == 0, "input-changed", "after %s the input buffer has changed", w); VH_CHECK(pn == 0 || memcmp(p.p, pm.data(), pn * sizeof(C)) == 0, "output-content", "after %s the output buffer is not what has been written", w); };
		for (unsigned i = 0; i < n; i++) {
			unsigned op = static_cast<unsigned>(rng.below(14)); h = hcomb(h, op); const char* w = "an operation"; auto at = [&](std::size_t k) { return Tr::to_int_type(gm[k]); };
			switch (op) {
				case 0: { w = "sgetc"; auto c = s->sgetc(); VH_CHECK(gp < ge ? Tr::eq_int_type(c, at(gp)) : Tr::eq_int_type(c, eof), "read", "sgetc at %zu of %zu..%zu gives %lld", gp, gb, ge, static_cast<long long>(c)); break; }
				case 1: case 2: { w = "sbumpc"; auto c = s->sbumpc(); VH_CHECK(gp < ge ? Tr::eq_int_type(c, at(gp)) : Tr::eq_int_type(c, eof), "read", "sbumpc at %zu of %zu..%zu gives %lld", gp, gb, ge, static_cast<long long>(c)); if (gp < ge) { gp++; cnt("read"); } else cnt("ends"); break; }
				case 3: { w = "snextc"; auto c = s->snextc(); if (gp < ge) gp++; VH_CHECK(gp < ge ? Tr::eq_int_type(c, at(gp)) : Tr::eq_int_type(c, eof), "read", "snextc to %zu of %zu..%zu gives %lld", gp, gb, ge, static_cast<long long>(c)); break; }
				case 4: { w = "sgetn"; std::size_t k = rng.below(ge - gp + 4), have = std::min(k, ge - gp); Ex<C> o(have); std::streamsize r; if (k == have) r = s->sgetn(o.p, static_cast<std::streamsize>(k)); else { Ex<C> o2(k); r = s->sgetn(o2.p, static_cast<std::streamsize>(k)); memcpy(o.p, o2.p, have * sizeof(C)); } VH_CHECK(r == static_cast<std::streamsize>(have), "read-count", "sgetn(%zu) with %zu left gives %lld", k, ge - gp, static_cast<long long>(r)); VH_CHECK(have == 0 || memcmp(o.p, gm.data() + gp, have * sizeof(C)) == 0, "read", "sgetn gives other characters"); gp += have; cnt("read", have); break; }
				case 5: { w = "sungetc"; auto c = s->sungetc(); VH_CHECK(gp > gb ? Tr::eq_int_type(c, at(gp - 1)) : Tr::eq_int_type(c, eof), "unget", "sungetc at %zu of %zu..%zu gives %lld", gp, gb, ge, static_cast<long long>(c)); if (gp > gb) gp--; cnt("ungets"); break; }
				case 6: { w = "sputbackc"; C b = rng.chance(3, 4) && gp > gb ? gm[gp - 1] : static_cast<C>(rng.next()); bool ok = gp > gb && b == gm[gp - 1]; auto c = s->sputbackc(b); VH_CHECK(Tr::eq_int_type(c, ok ? Tr::to_int_type(b) : eof), "putback", "sputbackc gives %lld, accepted: %d", static_cast<long long>(c), ok); if (ok) gp--; break; }
				case 7: { auto k = s->in_avail(); VH_CHECK(k == static_cast<std::streamsize>(ge - gp) || (ge == gp && k <= 0), "available", "in_avail gives %lld with %zu left", static_cast<long long>(k), ge - gp); break; }
				case 8: case 9: { w = "sputc"; C c = static_cast<C>(rng.next()); auto r = s->sputc(c); bool ok = pp < pe; VH_CHECK(Tr::eq_int_type(r, ok ? Tr::to_int_type(c) : eof), "write", "sputc at %zu of %zu..%zu gives %lld", pp, pb, pe, static_cast<long long>(r)); if (ok) { pm[pp++] = c; cnt("written"); } else cnt("refused"); break; }
				case 10: case 11: { w = "sputn"; std::size_t k = rng.below(pe - pp + 4); Ex<C> o(k); for (std::size_t j = 0; j < k; j++) o.p[j] = static_cast<C>(rng.next()); auto r = s->sputn(o.p, static_cast<std::streamsize>(k)); std::size_t have = std::min(k, pe - pp); VH_CHECK(r == static_cast<std::streamsize>(have), "write-count", "sputn(%zu) with room for %zu gives %lld", k, pe - pp, static_cast<long long>(r)); for (std::size_t j = 0; j < have; j++) pm[pp++] = o.p[j]; cnt("written", have); if (have < k) cnt("refused"); break; }
				case 12: { w = "a move"; std::unique_ptr<SB> o(new SB(std::move(*s))); s = std::move(o); cnt("moves"); break; }
				default: { w = "pubsync"; VH_CHECK(s->pubsync() == 0, "sync", "pubsync fails"); }
			}
			buffers(w); cnt("ops");
		}
		eval(); nontrivial(hcomb(h, hbytes(gm.data(), gn * sizeof(C))));
	}
	void b01_streams(Rng& rng) { // the library's streams over memory
		std::size_t n = rng.below(60); std::string d; for (std::size_t i = 0; i < n; i++) d += static_cast<char>(rng.next()); Exact e(d); std::unique_ptr<abc::buffer_streambuf> sb(new abc::buffer_streambuf(e.p, 0, n, nullptr, 0, 0)); std::unique_ptr<In> in(new In(sb.get())); std::size_t pos = 0, gc = 0; unsigned st = 0; u64 h = n;
		for (int i = 0; i < 20; i++) {
			unsigned op = static_cast<unsigned>(rng.below(6)); h = hcomb(h, op);
			if (op < 2) { bool ok = st == 0; std::istream& r = in->raw(); std::size_t k = rng.below(10); Exact o(std::max<std::size_t>(k, 1)); r.read(o.p, static_cast<std::streamsize>(k)); if (ok) { std::size_t have = std::min(k, n - pos); VH_CHECK(memcmp(o.p, d.data() + pos, have) == 0, "stream-read", "reading from a stream gives other characters"); pos += have; if (have < k) st |= std::ios_base::eofbit | std::ios_base::failbit; } else st |= std::ios_base::failbit; cnt("stream_reads"); }
			else if (op == 2) { gc = rng.below(1000); in->set_gcount(gc); }
			else if (op == 3) { std::unique_ptr<In> o(new In(std::move(*in))); in = std::move(o); cnt("stream_moves"); if (rng.chance(1, 3)) { std::unique_ptr<abc::buffer_streambuf> nb(new abc::buffer_streambuf(std::move(*sb))); in.reset(new In(nb.get())); in->set_gcount(gc); in->raw().setstate(static_cast<std::ios_base::iostate>(st)); sb = std::move(nb); } }
			else if (op == 4 && rng.chance(1, 2)) { in->reset(); st = 0; gc = 0; }
			else if (rng.chance(1, 3)) { unsigned k = static_cast<unsigned>(rng.below(4)); in->mark(k); if (k == 0) st = std::ios_base::badbit | std::ios_base::failbit; else if (k != 2) st |= std::ios_base::failbit; }
			VH_CHECK(in->gcount() == gc, "gcount", "gcount() is %zu instead of %zu", in->gcount(), gc); VH_CHECK(in->rdbuf() == sb.get(), "rdbuf", "the stream has another buffer"); VH_CHECK(in->eof() == !!(st & std::ios_base::eofbit) && in->bad() == !!(st & std::ios_base::badbit) && in->fail() == !!(st & (std::ios_base::badbit | std::ios_base::failbit)) && in->good() == (st == 0) && !*in == in->fail() && static_cast<bool>(*in) == !in->fail() && in->is_ok() == (st == 0), "stream-state", "the state is eof %d bad %d fail %d good %d instead of %x", in->eof(), in->bad(), in->fail(), in->good(), st);
		}
		std::size_t cap = rng.below(60); Exact w(cap); std::string got; abc::buffer_streambuf ob(nullptr, 0, 0, w.p, 0, cap); std::unique_ptr<Out> out(new Out(&ob)); st = 0; for (int i = 0; i < 12; i++) { unsigned op = static_cast<unsigned>(rng.below(5)); if (op < 3) { std::string t = std::string(rng.below(12), static_cast<char>('a' + i)); out->raw().write(t.data(), static_cast<std::streamsize>(t.size())); if (st == 0) { std::size_t k = std::min(t.size(), cap - got.size()); got += t.substr(0, k); if (k < t.size()) st |= std::ios_base::badbit; } cnt("stream_writes"); } else if (op == 3) { std::unique_ptr<Out> o(new Out(std::move(*out))); out = std::move(o); } else { out->flush(); if (rng.chance(1, 4)) { unsigned k = static_cast<unsigned>(rng.below(4)); out->mark(k); if (k == 0 || k == 2) st = std::ios_base::badbit | std::ios_base::failbit; else if (k == 1) st |= std::ios_base::failbit; } } VH_CHECK(out->bad() == !!(st & std::ios_base::badbit) && out->fail() == (st != 0) && !out->eof(), "stream-state", "the state is bad %d fail %d instead of %x", out->bad(), out->fail(), st); VH_CHECK(memcmp(w.p, got.data(), got.size()) == 0, "output-content", "a stream wrote other characters"); VH_CHECK(out->rdbuf() == &ob, "rdbuf", "the stream has another buffer"); }
		for (std::size_t i = got.size(); i < cap; i++) VH_CHECK(w.p[i] == 0x5a, "output-content", "a stream wrote beyond what it was given"); eval(); nontrivial(h);
	}
	void b01(u64, Rng& rng) { switch (rng.below(4)) { case 0: b01_case<char>(rng); break; case 1: b01_case<wchar_t>(rng); break; case 2: b01_case<char16_t>(rng); break; default: b01_streams(rng); } }
}
static RegIt r_b01("B01", b01);
#endif // B01

#ifdef M01
#include "vmem.h"
#include "json.h"
#include "http.h"
#include "netutil.h"
extern "C" { void* __libc_malloc(std::size_t); void* __libc_calloc(std::size_t, std::size_t); void* __libc_realloc(void*, std::size_t); void* __libc_memalign(std::size_t, std::size_t); }
namespace heap {
	thread_local const char* armed = nullptr; thread_local unsigned hits = 0; thread_local std::size_t bytes = 0; std::atomic<unsigned long long> seen{ 0 };
	inline void note(std::size_t n) { seen.fetch_add(1, std::memory_order_relaxed); if (armed) { hits++; bytes += n; if (getenv("VH_HEAP_TRAP")) abort(); } }
}
extern "C" { void* malloc(std::size_t n) { heap::note(n); return __libc_malloc(n); } void* calloc(std::size_t a, std::size_t b) { heap::note(a * b); return __libc_calloc(a, b); } void* realloc(void* p, std::size_t n) { heap::note(n); return __libc_realloc(p, n); } void* memalign(std::size_t a, std::size_t n) { heap::note(n); return __libc_memalign(a, n); } void* aligned_alloc(std::size_t a, std::size_t n) { heap::note(n); return __libc_memalign(a, n); } int posix_memalign(void** p, std::size_t a, std::size_t n) { heap::note(n); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; } }
namespace {
	// no allocation from here to the end of the scope
	struct Arm { explicit Arm(const char* w) { heap::hits = 0; heap::bytes = 0; heap::armed = w; } ~Arm() noexcept(false) { const char* w = heap::armed; heap::armed = nullptr; if (heap::hits && !std::uncaught_exceptions()) { std::string k = std::string("heap:") + w; fail(k.c_str(), "%s: %u heap allocations of %zu bytes in total", w, heap::hits, heap::bytes); } cnt("watched_scopes"); } };
	struct Off { const char* w; Off() : w(heap::armed) { heap::armed = nullptr; } ~Off() { heap::armed = w; } };
	struct Pod { u64 id; char b[120]; };
	// the operations on ranges, the lookups, and the walks both ways
	template <typename Page, typename P, typename List, typename Map, typename Linked, typename Pool, typename Log> void m01_ranges(Rng& r, Pool& pool, Log* log, List& l, Map& m, Linked& k, u64& sum) {
		static P src[100]; static typename Map::value_type vals[100]; static u64 keys[100]; for (unsigned i = 0; i < 100; i++) { src[i].id = i; keys[i] = r.below(300); vals[i].key = r.below(300); vals[i].value = src[i]; }
		for (unsigned i = 0; i < 4; i++) {
			auto at = l.begin(); for (u64 n = l.empty() ? 0 : r.below(l.size()); n > 0; n--) at++; l.insert(at, src, src + r.below(100)); l.insert2(l.end(), src[i]);
			auto a = l.begin(); for (u64 n = r.below(l.size()); n > 0; n--) ++a; auto b = a; for (u64 n = r.below(40); n > 0 && b != l.end(); n--) b++; l.erase(a, b); if (!l.empty()) l.erase2(l.rend());
			if (!l.empty()) { sum += l.front().id + l.back().id + static_cast<P*>(l.frontptr())->id + static_cast<P*>(l.backptr())->id; l.pop_back(); } for (auto it = l.rend(); it != l.rbegin(); it--) sum += it->id; const List& cl = l; for (auto it = cl.cbegin(); it != cl.cend(); it++) sum += it->id;
			m.insert(vals, vals + r.below(100)); m.insert2(vals[i]); m.erase(keys, keys + r.below(60)); const Map& cm = m; for (unsigned j = 0; j < 30; j++) { sum += m.contains(keys[j]); if (m[keys[j]] != nullptr) sum++; if (cm.find(keys[j]) != cm.cend()) sum += cm.find(keys[j])->key; if (m.find2(keys[j]).ok) sum++; }
			for (auto it = m.rend(); it != m.rbegin(); it--) sum += it->key; while (m.size() > 60) m.erase(m.begin()->key);
			while (!k.empty() && r.chance(3, 4)) { abc::vmem_page_pos_t p = r.chance(1, 2) ? k.front() : k.back(); auto f = k.begin(); sum += p; if (k.front() == p) k.erase(f); else k.pop_back(); if (r.chance(1, 2)) { Page g(&pool, log); k.insert(r.chance(1, 2) ? k.begin() : k.end(), g.pos()); } } for (auto it = k.begin(); it != k.end(); it++) sum += *it; for (auto it = k.rend(); it != k.rbegin(); it--) sum += *it;
		}

	}
	// a map of several levels, lists of one item per page, spliced page lists, exhausted pools
	template <typename Pool, typename Log> void m01_wide(Rng& r, Pool& pool, Log* log, u64& sum) {
		struct Big { u64 id; char b[1200]; bool operator <(const Big& o) const { return id < o.id; } bool operator <=(const Big& o) const { return id <= o.id; } bool operator ==(const Big& o) const { return id == o.id; } }; static Big big; using Map = abc::vmem_map<Big, u64, Pool, Log>; using List = abc::vmem_list<Big, Pool, Log>; using Linked = abc::vmem_linked<Pool, Log>; using Page = abc::vmem_page<Pool, Log>;
		abc::vmem_map_state ms; abc::vmem_list_state ls; abc::vmem_linked_state k1, k2; Map m(&ms, &pool, log); List l(&ls, &pool, log); Linked a(&k1, &pool, log), b(&k2, &pool, log); static typename Map::value_type v;
		for (unsigned i = 0; i < 80; i++) { big.id = v.key.id = r.below(120); v.value = i; if (r.chance(3, 4)) m.insert(v); else m.erase(big); l.insert(r.chance(1, 2) ? l.begin() : l.end(), big); if (m.contains(big)) sum++; } for (auto it = m.begin(); it != m.end(); it++) sum += it->value; while (!m.empty()) { big.id = m.begin()->key.id; m.erase(big); } m.clear(); l.clear();
		for (unsigned i = 0; i < 10; i++) { Page p(&pool, log); (r.chance(1, 2) ? a : b).push_back(p.pos()); } a.splice(b); for (auto it = a.begin(); it != a.end(); it++) sum += *it; b.splice(std::move(a)); b.clear();
		{ Page p0(&pool, log), p1(&pool, log), p2(&pool, log), p3(&pool, log), p4(&pool, log), p5(&pool, log), p6(&pool, log); Page none(&pool, log); Page more(&pool, log); sum += none.ptr() == nullptr; Page copy(p0); copy = p1; copy = std::move(p2); abc::vmem_ptr<u64, Pool, Log> ptr(&pool, p0.pos(), 64, log); abc::vmem_ptr<u64, Pool, Log> ptr2(ptr); ptr2 = ptr; if (ptr2 != nullptr) sum += *ptr2; Page* all[] = { &p0, &p1, &p3, &p4, &p5, &p6 }; (void)all; }

	}
	template <typename Log> void m01_vmem(Rng& rng, Log* log) {
		using Pool = abc::vmem_pool<8, Log>; using List = abc::vmem_list<Pod, Pool, Log>; using Stack = abc::vmem_stack<Pod, Pool, Log>; using Map = abc::vmem_map<u64, Pod, Pool, Log>; using Str = abc::vmem_string<Pool, Log>; using Linked = abc::vmem_linked<Pool, Log>; using Page = abc::vmem_page<Pool, Log>;
		std::string path = scratch("m01.vmem"); unlink(path.c_str()); u64 seed = rng.next(); u64 sum = 0;
		for (int round = 0; round < 2; round++) {
			Rng r(seed); Arm a("a page pool and its containers"); Pool pool(path.c_str(), log); abc::vmem_list_state ls; abc::vmem_stack_state ss; abc::vmem_map_state ms; abc::vmem_string_state ts; abc::vmem_linked_state ks; List l(&ls, &pool, log); Stack s(&ss, &pool, log); Map m(&ms, &pool, log); Linked k(&ks, &pool, log); Pod p{};
			for (unsigned i = 0; i < 120; i++) { p.id = r.next() % 500; switch (r.below(4)) { case 0: l.push_front(p); break; case 1: l.push_back(p); break; case 2: l.insert(l.begin(), p); break; default: if (!l.empty()) l.pop_front(); } }
			for (auto it = l.begin(), e = l.end(); it != e; it++) sum += it->id; while (l.size() > 20) l.erase(l.begin());
			for (unsigned i = 0; i < 120; i++) { p.id = i; if (s.empty() || r.chance(2, 3)) s.push_back(p); else { sum += s.back().id; s.pop_back(); } }
			for (unsigned i = 0; i < 300; i++) { p.id = r.below(200); typename Map::value_type v{ p.id, p }; if (r.chance(2, 3)) m.insert(v); else m.erase(p.id); if (m.find(p.id) != m.end()) sum++; } for (auto it = m.begin(), e = m.end(); it != e; it++) sum += it->key;
			for (unsigned i = 0; i < 12; i++) { Page g(&pool, log); sum += g.pos(); Page c(g); Page d(std::move(c)); if (r.chance(1, 2)) k.push_back(g.pos()); else g.free(); }
			{ Str str(&ts, &pool, log); { abc::vmem_string_streambuf<Pool, Log> sb(&str, log); std::ostream os(&sb); for (unsigned i = 0; i < 300; i++) os.write("some characters", 15); os.flush(); } { abc::vmem_string_streambuf<Pool, Log> sb(&str, log); std::istream is(&sb); char b[100]; while (is.read(b, sizeof b)) sum += static_cast<u8>(b[3]); } str.clear(); }
			m01_ranges<Page, Pod>(r, pool, log, l, m, k, sum); if (r.chance(1, 2)) { Linked k2(k); List l2(l); Stack s2(s); Map m2(m); sum += l2.size() + s2.size() + m2.size() + k2.empty(); }
			l.clear(); s.clear(); m.clear(); k.clear(); m01_wide<Pool>(r, pool, log, sum); Pool moved(std::move(pool));
		}
		cnt("vmem"); cnt("ranges", 2); cnt("wide", 2); nontrivial(hcomb(seed, sum));
	}
	template <typename Log> void m01_json(Rng& rng, Log* log) {
		static char buf[200000]; std::size_t n = 0; u64 seed = rng.next(); std::string big(rng.below(500), 'x');
		{ Arm a("a JSON writer"); Rng r(seed); abc::buffer_streambuf sb(nullptr, 0, 0, buf, 0, sizeof buf); abc::json_ostream<64, Log> o(&sb, log); o.put_begin_array(); for (unsigned i = 0; i < 100; i++) { if (r.chance(1, 4)) o.put_space(); switch (r.below(6)) { case 0: o.put_null(); break; case 1: o.put_boolean(true); break; case 2: o.put_number(static_cast<double>(static_cast<std::int64_t>(r.next())) * (r.chance(1, 2) ? 1e-300 : r.chance(1, 2) ? 1e280 : 1e-9)); break; case 3: o.put_string(big.c_str()); break; case 4: o.put_begin_object(); o.put_property("p\n\"q"); o.put_number(r.below(100)); o.put_end_object(); break; default: o.put_begin_array(); o.put_end_array(); } } o.put_end_array(); abc::json_ostream<64, Log> o2(std::move(o)); o2.flush(); n = static_cast<std::size_t>(sb.sputn("", 0)); n = 0; while (n < sizeof buf && buf[n]) n++; }
		u64 toks = 0; { Arm a("a JSON reader"); Rng r(seed); abc::buffer_streambuf sb(buf, 0, n, nullptr, 0, 0); abc::json_istream<64, Log> i(&sb, log); alignas(16) char mem[2048]; auto* t = reinterpret_cast<abc::json::token_t*>(mem); abc::json_istream<64, Log> in(std::move(i)); while (in.good()) { if (toks && r.chance(1, 10)) in.skip_value(); else in.get_token(t, sizeof mem); toks++; } }
		{	// texts with every kind of token, some of them malformed
			static const char* const piece[] = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"\\u0041\\n\\\\\\\"\"", "\"\\u12\"", "true", "false", "null", "-1.5e-10", "123456789012345678901234567890", "0.0000000000000000000000001", "1e", "+", "tru", " ", "\n\t ", "\"open", "\"a\":{\"b\":[1,2,{\"c\":null}]}" }; std::size_t len = 0; unsigned texts = 0;
			for (unsigned i = 0; i < 200; i++) { const char* p = piece[rng.below(sizeof piece / sizeof piece[0])]; std::size_t pl = strlen(p); memcpy(buf + len, p, pl); len += pl; }
			for (std::size_t from = 0; from < len; ) { Arm a("a JSON reader of arbitrary text"); abc::buffer_streambuf sb(buf, from, len, nullptr, 0, 0); abc::json_istream<8, Log> in(&sb, log); alignas(16) char mem[300]; auto* t = reinterpret_cast<abc::json::token_t*>(mem); while (in.good()) { if (rng.chance(1, 5)) in.skip_value(); else in.get_token(t, rng.chance(1, 5) ? 40 : sizeof mem); } from += 1 + rng.below(10); texts++; }
			memset(buf, 0, len); cnt("json_texts", texts);
			{ Arm a("a JSON writer misused"); abc::buffer_streambuf sb(nullptr, 0, 0, buf, 0, 600); abc::json_ostream<4, Log> o(&sb, log); abc::json::token_t t; for (unsigned i = 0; i < 60; i++) { switch (rng.below(9)) { case 0: o.put_begin_array(); break; case 1: o.put_end_array(); break; case 2: o.put_begin_object(); break; case 3: o.put_end_object(); break; case 4: o.put_property("\x01\x1f\"\\/\x7f"); break; case 5: o.put_string("\x01\x1f\"\\/\x7f"); break; case 6: o.put_number(rng.chance(1, 2) ? 0.1 : 1e22); break; case 7: o.put_cr(); o.put_lf(); o.put_tab(); o.put_space(); break; default: t.item = abc::json::item::null; o.put_token(&t); } if (!o.good()) break; } }
			memset(buf, 0, 700);
		}
		memset(buf, 0, n); VH_CHECK(toks > 20, "harness", "%llu tokens", static_cast<unsigned long long>(toks)); cnt("json"); nontrivial(hcomb(seed, toks));
	}
	template <typename Log> void m01_http(Rng& rng, Log* log) {
		static char buf[100000]; u64 seed = rng.next(); std::size_t n; unsigned got = 0;
		for (int kind = 0; kind < 2; kind++) {
			Rng r(seed); { Arm a(kind ? "an HTTP response writer" : "an HTTP request writer"); abc::buffer_streambuf sb(nullptr, 0, 0, buf, 0, sizeof buf); char name[40], value[200]; auto rest = [&](auto& o) { for (unsigned i = 0; i < r.below(8); i++) { snprintf(name, sizeof name, "Header-%u", i); snprintf(value, sizeof value, "some %llu value %u", static_cast<unsigned long long>(r.next()), i); o.put_header_name(name); o.put_header_value(value); } o.end_headers(); for (unsigned i = 0; i < r.below(20); i++) o.put_body("0123456789"); o.flush(); }; if (kind) { abc::http_response_ostream<Log> o(&sb, log); o.put_protocol("HTTP/1.1"); o.put_status_code("200"); o.put_reason_phrase("All right"); rest(o); } else { abc::http_request_ostream<Log> o(&sb, log); o.put_method("GET"); o.put_resource("/some/thing?a=b&c=d"); o.put_protocol("HTTP/1.1"); rest(o); } } n = 0; while (n < sizeof buf && buf[n]) n++;
			{ Arm a(kind ? "an HTTP response reader" : "an HTTP request reader"); abc::buffer_streambuf sb(buf, 0, n, nullptr, 0, 0); char b[300]; auto rest = [&](auto& i) { for (;;) { i.get_header_name(b, sizeof b); if (!i.good() || i.gcount() == 0) break; got++; i.get_header_value(b, sizeof b); } i.get_body(b, sizeof b); }; if (kind) { abc::http_response_istream<Log> i(&sb, log); i.get_protocol(b, sizeof b); i.get_status_code(b, sizeof b); i.get_reason_phrase(b, sizeof b); rest(i); } else { abc::http_request_istream<Log> i(&sb, log); i.get_method(b, sizeof b); i.get_resource(b, sizeof b); abc::http_request_istream<Log>::split_resource(b, sizeof b); if (abc::http_request_istream<Log>::get_resource_parameter(b, sizeof b, "c")) got++; i.get_protocol(b, sizeof b); rest(i); } }
			memset(buf, 0, n);
		}
		for (unsigned i = 0; i < 30; i++) {	// arbitrary heads, with folded and empty values, in small and large buffers
			static const char* const piece[] = { "GET", "HTTP/1.1", "HTTP/", "200", " ", "\r\n", "\r\n ", "Name", ":", ": ", "value", "a b\tc", "/x?a=b&c=d", "\x01", "\xff", "a=b&c=d", "\r", "?" }; std::size_t len = 0; for (unsigned j = 0; j < 40; j++) { const char* p = piece[rng.below(sizeof piece / sizeof piece[0])]; if (j == 0 && rng.chance(1, 2)) p = "GET /x HTTP/1.1\r\nA: b\r\n"; else if (j == 0 && rng.chance(1, 2)) p = "HTTP/1.1 200 OK\r\nA: b\r\n"; std::size_t pl = strlen(p); memcpy(buf + len, p, pl); len += pl; }
			{ Arm a("an HTTP reader of arbitrary text"); abc::buffer_streambuf sb(buf, 0, len, nullptr, 0, 0); char b[300]; std::size_t z = rng.chance(1, 3) ? 4 : sizeof b; if (rng.chance(1, 2)) { abc::http_client_stream<Log> c(&sb, log); abc::http_client_stream<Log> in(std::move(c)); abc::http_response_istream<Log>& r = in; r.get_protocol(b, z); r.get_status_code(b, z); r.get_reason_phrase(b, z); for (int h = 0; h < 9; h++) { r.get_header_name(b, z); if (r.gcount() == 0) break; r.get_header_value(b, z); } r.reset(); }
				else { abc::http_server_stream<Log> c(&sb, log); abc::http_server_stream<Log> in(std::move(c)); abc::http_request_istream<Log>& r = in; r.get_method(b, z); r.get_resource(b, z); r.get_protocol(b, z); for (int h = 0; h < 9; h++) { r.get_header_name(b, z); if (r.gcount() == 0) break; r.get_header_value(b, z); } r.reset(); } }
			memset(buf, 0, len);
			{ Arm a("an HTTP writer misused"); abc::buffer_streambuf sb(nullptr, 0, 0, buf, 0, rng.chance(1, 2) ? 30 : 2000); const char* p = piece[rng.below(sizeof piece / sizeof piece[0])]; const char* q = piece[rng.below(sizeof piece / sizeof piece[0])]; if (rng.chance(1, 2)) { abc::http_response_ostream<Log> o(&sb, log); o.put_protocol(rng.chance(1, 2) ? "HTTP/1.1" : p); o.put_status_code(rng.chance(1, 2) ? "200" : q); o.put_reason_phrase(rng.chance(1, 3) ? nullptr : p); o.put_header_name(p); o.put_header_value("one\r\n two   three"); o.end_headers(); o.put_body(q); o.reset(); } else { abc::http_request_ostream<Log> o(&sb, log); o.put_method(p); o.put_resource(q); o.put_protocol(rng.chance(1, 2) ? "HTTP/1.1" : p); o.put_header_name("A"); o.put_header_value(q); o.end_headers(); o.put_body(q, strlen(q)); o.reset(); } }
			memset(buf, 0, 2000); cnt("http_texts");
		}
		cnt("http"); nontrivial(hcomb(seed, got));
		{	// parameters of every length, found, not found, and names that are parts of one another
			char text[2000]; unsigned found = 0; for (unsigned k = 0; k < 20; k++) { std::size_t len = static_cast<std::size_t>(snprintf(text, sizeof text, "/path")); char names[8][64]; unsigned count = static_cast<unsigned>(rng.below(8)); for (unsigned i = 0; i < count; i++) { std::size_t nl = 1 + rng.below(50); for (std::size_t q = 0; q < nl; q++) names[i][q] = static_cast<char>('a' + rng.below(3)); names[i][nl] = 0; len += static_cast<std::size_t>(snprintf(text + len, sizeof text - len, "%c%s=%.*s", i ? '&' : '?', names[i], static_cast<int>(rng.below(100)), "vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv")); } memset(text + len, 0, sizeof text - len);
				Arm a("looking up a request parameter"); abc::http_request_istream<Log>::split_resource(text, sizeof text); for (unsigned i = 0; i < count; i++) if (abc::http_request_istream<Log>::get_resource_parameter(text, sizeof text, names[i])) found++; if (abc::http_request_istream<Log>::get_resource_parameter(text, sizeof text, "the_parameter_that_is_not_there")) found += 1000; }
			VH_CHECK(found < 1000, "harness", "%u parameters", found); cnt("parameters", found); }
	}
	template <typename Line> void m01_log(Rng& rng) {
		static char buf[400000]; memset(buf, 0, sizeof buf); u64 seed = rng.next(); std::string big(rng.below(3000), 'y'), bin(rng.below(200), 'z'); { Arm a("a log"); Rng r(seed); abc::buffer_streambuf sb(nullptr, 0, 0, buf, 0, sizeof buf); abc::log_filter f(abc::severity::abc::debug); abc::log_ostream<Line, abc::log_filter> l(&sb, &f); for (unsigned i = 0; i < 60; i++) { switch (r.below(4)) { case 0: l.put_any(abc::category::any, 3, i, "%s %d %g", big.c_str(), static_cast<int>(r.next()), 1.0 / (1 + i)); break; case 1: l.put_binary(abc::category::any, 2, i, bin.data(), bin.size()); break; case 2: l.put_blank_line(abc::category::any, 1); break; default: l.put_any(abc::category::any, static_cast<abc::severity_t>(r.below(12)), i, "%llx", static_cast<unsigned long long>(r.next())); } } abc::log_ostream<Line, abc::log_filter> m(std::move(l)); m.put_any(abc::category::any, 1, 1, "last"); { abc::timestamp<> t; abc::line_ostream<300> line(&m); line.put_timestamp(t, "%4.4u %u %u"); line.put_thread_id(std::this_thread::get_id(), "%s"); line.put_any("%d", 5); abc::line_ostream<300> line2(std::move(line)); line2.flush(); } }
		cnt("logs"); nontrivial(hcomb(seed, strlen(buf)));
	}
	template <typename Log> void m01_socket(Rng& rng, Log* log) { // transfer over an established connection
		int fam = pick_family(rng); std::string port; int ls = raw_listen(fam, port); u64 seed = rng.next(), got = 0; { abc::tcp_client_socket<Log> c(fam == AF_INET6 ? abc::socket::family::ipv6 : abc::socket::family::ipv4, log); c.connect(loop(fam), port.c_str()); int fd = raw_accept(ls); char big[3000]; memset(big, 'a', sizeof big);
			{ Arm a("a socket and its stream"); Rng r(seed); abc::socket_streambuf<abc::tcp_client_socket<Log>, Log> sb(&c, log); std::ostream os(&sb); std::istream is(&sb); for (unsigned i = 0; i < 20; i++) { os.write(big, static_cast<std::streamsize>(1 + r.below(sizeof big - 1))); os.flush(); raw_recv(fd, big, sizeof big); raw_send(fd, big, 10); char b[10]; is.read(b, 10); got += static_cast<u64>(is.gcount()); c.send(big, 5); raw_send(fd, big, 5); c.receive(b, 5); abc::tcp_client_socket<Log> m(std::move(c)); c.~tcp_client_socket<Log>(); new (&c) abc::tcp_client_socket<Log>(std::move(m)); } }
			raw_close(fd); } raw_close(ls); cnt("sockets"); nontrivial(hcomb(seed, got)); }
	void m01(u64, Rng& rng) {
		if (ctx().counters["selftest"] == 0) { cnt("selftest"); bool caught = false; heap::armed = "selftest"; heap::hits = 0; void* volatile p = ::operator new(10); void* volatile q = strdup("x"); caught = heap::hits == 2; heap::armed = nullptr; ::operator delete(p); ::free(q); if (!caught) harness_error("the heap is not watched"); std::ostringstream warm; warm << 1.5 << std::hex << std::this_thread::get_id(); }
		bool with = rng.chance(1, 2); LogOf<FullLog> fl; FullLog* log = fl.get(); switch (rng.below(6)) { case 0: with ? m01_vmem<FullLog>(rng, log) : m01_vmem<NoLog>(rng, nullptr); break; case 1: with ? m01_json<FullLog>(rng, log) : m01_json<NoLog>(rng, nullptr); break; case 2: with ? m01_http<FullLog>(rng, log) : m01_http<NoLog>(rng, nullptr); break; case 3: m01_log<abc::debug_line_ostream<>>(rng); break; case 4: rng.chance(1, 2) ? m01_log<abc::diag_line_ostream<100>>(rng) : m01_log<abc::test_line_ostream<>>(rng); break; default: m01_socket<NoLog>(rng, nullptr); } eval();
	}
}
static RegIt r_m01("M01", m01);
#endif // M01

#ifdef K01
#include "test.h"
namespace {
	struct Collect : std::streambuf { std::string all; int_type overflow(int_type c) override { if (!traits_type::eq_int_type(c, traits_type::eof())) all += traits_type::to_char_type(c); return traits_type::not_eof(c); } std::streamsize xsputn(const char* s, std::streamsize n) override { all.append(s, static_cast<std::size_t>(n)); return n; } };
	using KLog = abc::log_ostream<abc::test_line_ostream<>, abc::log_filter>; using Ctx1 = abc::test_context<KLog>;
	struct Boom { int x; };
	enum Outcome { Pass, Fail, ThrowStd, ThrowInt, ThrowOther, Compare };
	inline std::vector<std::string> lines_of(const std::string& s) { std::vector<std::string> v; std::size_t p = 0; while (p < s.size()) { std::size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; }
	inline std::size_t containing(const std::string& s, const std::string& w) { std::size_t n = 0; for (auto& l : lines_of(s)) n += l.find(w) != std::string::npos; return n; }
	void k01_run(Rng& rng) {
		Collect out; abc::log_filter filter(rng.chance(1, 2) ? abc::severity::debug : static_cast<abc::severity_t>(rng.below(9))); KLog log(&out, &filter); KLog* lg = rng.chance(1, 5) ? nullptr : &log; std::vector<std::pair<unsigned, unsigned>> ran, want; std::vector<std::vector<Outcome>> plan; std::vector<std::vector<long>> rands; bool all = true; u64 h = 1; unsigned fails = 0, bad_categories = 0;
		unsigned style = static_cast<unsigned>(rng.below(3)); std::vector<abc::named_test_category<KLog>> cats; abc::seed_t seed = rng.chance(1, 3) ? abc::seed::random : static_cast<abc::seed_t>(1 + rng.below(1000000)); const char* process = "/some/process"; abc::seed_t seen_seed = 0; bool consistent = true; std::vector<long> draws; abc::test_suite<KLog>* suite = nullptr;
		for (unsigned c = 0, nc = static_cast<unsigned>(rng.below(5)); c < nc; c++) { plan.emplace_back(); abc::test_category<KLog> cat; bool ok = true; for (unsigned t = 0, nt = static_cast<unsigned>(rng.below(6)); t < nt; t++) { Outcome o = style == 0 ? Pass : style == 1 && rng.chance(9, 10) ? Pass : static_cast<Outcome>(rng.below(6)); unsigned v = static_cast<unsigned>(rng.below(2)); if (o == Compare && v) o = Pass; plan[c].push_back(o); want.emplace_back(c, t); h = hcomb(h, o + 8 * c); if (o != Pass) { ok = false; fails++; }
			std::string name = "test-" + std::to_string(c) + "-" + std::to_string(t), cname = "category-" + std::to_string(c); cat.emplace_back(name, [&, c, t, o, name, cname](Ctx1& x) -> bool { ran.emplace_back(c, t); draws.push_back(std::rand()); if (ran.size() == 1) seen_seed = x.seed; consistent = consistent && x.seed == seen_seed && name == x.method_name && cname == x.category_name && x.log == lg && x.process_path == process; switch (o) { case Pass: return true; case Fail: return false; case ThrowStd: throw std::runtime_error("thrown"); case ThrowInt: throw 42; case ThrowOther: throw Boom{ 1 }; default: return x.are_equal(1, 2, 0x1, "%d"); } }); cnt("tests"); }
			all = all && ok; if (!ok) bad_categories++; cats.emplace_back("category-" + std::to_string(c), std::move(cat)); }
		std::size_t nc = cats.size(); auto copy = cats; std::unique_ptr<abc::test_suite<KLog>> s; if (rng.chance(1, 2) || nc != 2) s.reset(new abc::test_suite<KLog>(std::move(cats), lg, seed, process)); else s.reset(new abc::test_suite<KLog>({ cats[0], cats[1] }, lg, seed, process)); suite = s.get(); (void)suite;
		bool r = s->run(); VH_CHECK(ran == want, "tests-run", "%zu tests of %zu were run, or in another order", ran.size(), want.size()); VH_CHECK(r == all, "verdict", "run() gives %d with %u failing tests", r, fails); VH_CHECK(consistent, "context", "a test was given another context"); if (!ran.empty() && seed != abc::seed::random) VH_CHECK(seen_seed == seed, "seed", "the seed is %u instead of %u", seen_seed, seed);
		if (lg && filter.min_severity() >= abc::severity::warning) for (unsigned c = 0; c < nc; c++) for (unsigned t = 0; t < plan[c].size(); t++) { std::size_t n = containing(out.all, "test-" + std::to_string(c) + "-" + std::to_string(t)); VH_CHECK(n >= 1, "test-not-reported", "test %u of category %u is not in the log", t, c); }
		if (!ran.empty()) { // the same seed gives the same numbers
			auto first = draws; draws.clear(); ran.clear(); abc::test_suite<KLog> again(std::move(copy), lg, seen_seed, process); bool r2 = again.run(); VH_CHECK(r2 == all && ran == want, "second-run", "a second run gives %d", r2); VH_CHECK(draws == first, "reproducible", "the same seed gives other random numbers"); cnt("repeated"); }
		cnt(all ? "passing_suites" : "failing_suites"); eval(); nontrivial(h);
	}
	void k01_equal(Rng& rng) {
		Collect out; abc::log_filter filter(abc::severity::debug); KLog log(&out, &filter); bool with = rng.chance(7, 8); Ctx1 x("c", "m", with ? &log : nullptr, 1, "p"); u64 h = 2;
		for (int i = 0; i < 12; i++) {
			out.all.clear(); bool got, want; std::vector<std::string> parts; unsigned k = static_cast<unsigned>(rng.below(6)); h = hcomb(h, k);
			if (k == 0) { int a = static_cast<int>(rng.next()), b = rng.chance(1, 2) ? a : static_cast<int>(rng.next()); want = a == b; got = x.are_equal(a, b, 0x1, "%d"); parts = { "actual=" + std::to_string(a), "expected=" + std::to_string(b) }; }
			else if (k == 1) { double a = static_cast<double>(rng.below(1000)) / 8, b = rng.chance(1, 2) ? a : a + 0.125; want = a == b; got = x.are_equal(a, b, 0x1, "%.3f"); parts = { fmt("actual=%.3f", a), fmt("expected=%.3f", b) }; }
			else if (k == 2) { bool a = rng.chance(1, 2), b = rng.chance(1, 2); want = a == b; got = x.are_equal(a, b, 0x1, "%d"); parts = { fmt("actual=%d", a), fmt("expected=%d", b) }; }
			else if (k == 3) { std::string a(rng.below(40), 0), b; for (auto& c : a) c = static_cast<char>('!' + rng.below(94)); b = a; if (rng.chance(1, 2)) { if (rng.chance(1, 2) || b.empty()) b += 'z'; else b[rng.below(b.size())] ^= 1; } want = a == b; got = x.are_equal(a.c_str(), b.c_str(), 0x1); parts = { "actual=" + a, "expected=" + b }; }
			else { std::size_t n = rng.chance(1, 3) ? 16 * (1 + rng.below(4)) : 1 + rng.below(60); std::string a(n, 0); for (auto& c : a) c = static_cast<char>(rng.next()); std::string b = a; if (rng.chance(1, 2)) b[rng.below(n)] ^= static_cast<char>(1 + rng.below(255)); Exact ea(a), eb(b); want = a == b; got = x.are_equal(static_cast<const void*>(ea.p), static_cast<const void*>(eb.p), n, 0x1);
				// every byte of both is shown
				for (const std::string* d : { &a, &b }) for (std::size_t o = 0; o < n; o += 16) { std::string l = d == &a ? "actual=" : "expected="; l += fmt("%04x:", static_cast<unsigned>(o)); for (std::size_t j = 0; j < 16; j++) { if (j % 8 == 0) l += ' '; if (o + j < n) l += fmt("%02x ", static_cast<u8>((*d)[o + j])); } parts.push_back(l.substr(0, l.size() - 1)); } cnt("binary"); }
			VH_CHECK(got == want, "are-equal", "are_equal (kind %u) gives %d", k, got); if (with) { for (auto& p : parts) VH_CHECK(out.all.find(p) != std::string::npos, "values-not-shown", "%s comparison (kind %u): %s is not in the log %s", want ? "a passed" : "a failed", k, printable(p).c_str(), printable(out.all, 600).c_str()); VH_CHECK(out.all.find(want ? "Pass" : "Fail") != std::string::npos && out.all.find(want ? "Fail" : "Pass") == std::string::npos, "outcome-not-shown", "the log shows %s", printable(out.all).c_str()); } else VH_CHECK(out.all.empty(), "log", "something was logged without a log"); cnt(want ? "equal" : "different");
		}
		eval(); nontrivial(h);
	}
	void k01(u64, Rng& rng) { rng.chance(1, 2) ? k01_run(rng) : k01_equal(rng); }
}
static RegIt r_k01("K01", k01);
#endif // K01
