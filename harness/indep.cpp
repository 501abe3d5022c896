// X01: objects created separately do not affect each other.
#include "log.h"
#include "vmem.h"
#include "json.h"
#include "http.h"
#include "multifile.h"
#include "buffer_streambuf.h"
#include "netutil.h"
#include "vh.h"
#include <netinet/tcp.h>
#include <algorithm>
#include <atomic>
#include <filesystem>
#include <memory>
#include <sstream>
#include <thread>
using namespace vh;

#ifdef X01
namespace {
	struct FixedClock { using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<FixedClock>; static constexpr bool is_steady = true; static time_point now() { return time_point(std::chrono::seconds(1700000000)); } };
	// a deterministic user of its own objects: what it sees goes into h
	struct Job { Rng r; u64 h = 1; unsigned left; explicit Job(u64 seed, unsigned n) : r(seed), left(n) {} virtual ~Job() {} virtual void op() = 0; virtual void end() {} void see(u64 x) { h = hcomb(h, x); } void see(const std::string& s) { h = hcomb(h, hstr(s)); } bool step() { if (left == 0) return false; op(); if (--left == 0) end(); return left > 0; } };
	template <typename L> struct JsonWrite : Job {
		std::stringbuf sb; std::unique_ptr<abc::json_ostream<16, L>> o; std::string kinds;
		JsonWrite(u64 s, L* l) : Job(s, 80), o(new abc::json_ostream<16, L>(&sb, l)) { o->put_begin_array(); }
		void op() override {
			unsigned k = static_cast<unsigned>(r.below(8)); char b[40]; snprintf(b, sizeof b, "s\n%llx\"\\", static_cast<unsigned long long>(r.next() >> r.below(64)));
			switch (k) { case 0: o->put_null(); break; case 1: o->put_boolean(r.chance(1, 2)); break; case 2: o->put_number(static_cast<double>(static_cast<std::int64_t>(r.next())) * (r.chance(1, 2) ? 1e-200 : 1e-9)); break; case 3: o->put_string(b); break;
				case 4: o->put_begin_object(); o->put_property(b); o->put_begin_array(); o->put_number(1.5); o->put_end_array(); o->put_property("q"); o->put_string(b); o->put_end_object(); break; case 5: o->put_space(); break; case 6: { std::unique_ptr<abc::json_ostream<16, L>> n(new abc::json_ostream<16, L>(std::move(*o))); o = std::move(n); break; } default: o->put_begin_array(); o->put_string(b); o->put_number(static_cast<double>(r.below(1000)) / 8); o->put_end_array(); }
			see(o->good());
		}
		void end() override { o->put_end_array(); o->flush(); see(sb.str()); }
	};
	template <typename L> struct JsonRead : Job {
		static std::string text(Rng& r) { std::string t = "["; for (int i = 0; i < 40; i++) { if (i) t += r.chance(1, 3) ? " ,\n" : ","; switch (r.below(6)) { case 0: t += "null"; break; case 1: t += "-12.5e3"; break; case 2: t += fmt("%llu.%llu", static_cast<unsigned long long>(r.below(100000)), static_cast<unsigned long long>(r.below(1000))); break; case 3: t += fmt("\"a\\u00%02llx\\n%llu\"", static_cast<unsigned long long>(32 + r.below(90)), static_cast<unsigned long long>(r.next())); break; case 4: t += "{\"x\":true,\"y\":[1,2,\"z\"]}"; break; default: t += "[[],{}]"; } } return t + "]"; }
		std::string all; abc::buffer_streambuf sb; abc::json_istream<16, L> i; alignas(16) char mem[400];
		JsonRead(u64 s, L* l) : Job(s, 90), all(text(r)), sb(&all[0], 0, all.size(), nullptr, 0, 0), i(&sb, l) { memset(mem, 0, sizeof mem); }
		void op() override { if (!i.good()) { see(7); return; } auto* t = reinterpret_cast<abc::json::token_t*>(mem); if (r.chance(1, 8)) { i.skip_value(); see(5); } else { memset(mem, 0, sizeof mem); i.get_token(t, sizeof mem); see(static_cast<u64>(t->item)); if (t->item == abc::json::item::number) { u64 x; memcpy(&x, &t->value.number, 8); see(x); } if (t->item == abc::json::item::string || t->item == abc::json::item::property) see(std::string(t->value.string)); if (t->item == abc::json::item::boolean) see(t->value.boolean); } see(i.good()); }
	};
	template <typename L> struct Http : Job { // messages through the four streams, in turns
		std::stringbuf sb; std::unique_ptr<abc::http_client_stream<L>> c; std::unique_ptr<abc::http_server_stream<L>> s; unsigned at = 0; char b[300];
		Http(u64 seed, L* l) : Job(seed, 120), c(new abc::http_client_stream<L>(&sb, l)), s(new abc::http_server_stream<L>(&sb, l)) {}
		void op() override {
			abc::http_request_ostream<L>& qo = *c; abc::http_response_istream<L>& pi = *c; abc::http_request_istream<L>& qi = *s; abc::http_response_ostream<L>& po = *s; std::string v = fmt("v%llx of %u", static_cast<unsigned long long>(r.next()), at), n = fmt("N-%llu", static_cast<unsigned long long>(r.below(1000000)));
			switch (at++ % 24) {
				case 0: qo.reset(); qo.put_method("POST"); break; case 1: qo.put_resource(("/a/" + n + "?x=" + n + "&yy=" + fmt("%llu", static_cast<unsigned long long>(r.next()))).c_str()); break; case 2: qo.put_protocol("HTTP/1.1"); break; case 3: case 5: qo.put_header_name(n.c_str()); break; case 4: case 6: qo.put_header_value(v.c_str()); break; case 7: qo.end_headers(); qo.flush(); break;
				case 8: qi.reset(); qi.get_method(b, sizeof b); see(b); break; case 9: { qi.get_resource(b, sizeof b); see(b); qi.split_resource(b, sizeof b); const char* p = qi.get_resource_parameter(b, sizeof b, "yy"); see(p ? std::string(p) : "-"); break; } case 10: qi.get_protocol(b, sizeof b); see(b); break; case 11: case 13: case 15: qi.get_header_name(b, sizeof b); see(b); see(qi.gcount()); break; case 12: case 14: qi.get_header_value(b, sizeof b); see(b); break;
				case 16: po.reset(); po.put_protocol("HTTP/1.0"); po.put_status_code(fmt("%llu", static_cast<unsigned long long>(100 + r.below(500))).c_str()); break; case 17: po.put_reason_phrase(v.c_str()); break; case 18: po.put_header_name(n.c_str()); po.put_header_value(v.c_str()); po.end_headers(); po.flush(); break;
				case 19: pi.reset(); pi.get_protocol(b, sizeof b); see(b); break; case 20: pi.get_status_code(b, sizeof b); see(b); break; case 21: pi.get_reason_phrase(b, sizeof b); see(b); break; case 22: pi.get_header_name(b, sizeof b); see(b); pi.get_header_value(b, sizeof b); see(b); pi.get_header_name(b, sizeof b); see(pi.gcount()); break;
				default: { std::unique_ptr<abc::http_client_stream<L>> c2(new abc::http_client_stream<L>(std::move(*c))); c = std::move(c2); std::unique_ptr<abc::http_server_stream<L>> s2(new abc::http_server_stream<L>(std::move(*s))); s = std::move(s2); }
			}
			see(static_cast<abc::http_response_istream<L>&>(*c).good() * 2 + static_cast<abc::http_request_istream<L>&>(*s).good());
		}
	};
	template <typename L> struct Vmem : Job {
		using Pool = abc::vmem_pool<9, L>; struct It { u64 a; char pad[300]; }; std::string path; std::unique_ptr<Pool> pool; abc::vmem_list_state ls; abc::vmem_stack_state ss; abc::vmem_map_state ms; abc::vmem_string_state ts; L* log; abc::vmem_list<It, Pool, L> l; abc::vmem_stack<It, Pool, L> s; abc::vmem_map<u64, It, Pool, L> m; abc::vmem_string<Pool, L> t;
		Vmem(u64 seed, L* lg, const std::string& p) : Job(seed, 250), path((unlink(p.c_str()), p)), pool(new Pool(p.c_str(), lg)), log(lg), l(&ls, pool.get(), lg), s(&ss, pool.get(), lg), m(&ms, pool.get(), lg), t(&ts, pool.get(), lg) {}
		void op() override {
			It x{}; x.a = r.next(); u64 k = r.below(200);
			switch (r.below(10)) {
				case 0: case 1: { auto i = l.begin(); for (u64 n = l.empty() ? 0 : r.below(l.size() + 1); n > 0; n--) i++; see(l.insert(i, x)->a); break; } case 2: if (!l.empty()) { auto i = l.begin(); for (u64 n = r.below(l.size()); n > 0; n--) i++; i = l.erase(i); see(i == l.end() ? 1 : i->a); } break;
				case 3: s.push_back(x); break; case 4: if (!s.empty()) { see(s.back().a); s.pop_back(); } break;
				case 5: case 6: { typename abc::vmem_map<u64, It, Pool, L>::value_type v; v.key = k; v.value = x; auto i = m.insert(v); see(i.second); see(i.first == m.end() ? 0 : i.first->value.a); break; } case 7: see(m.erase(k)); break; case 8: { auto i = m.find(k); see(i == m.end() ? 2 : i->value.a); break; }
				default: { { abc::vmem_string_streambuf<Pool, L> sb(&t, log); std::ostream os(&sb); os << "n" << x.a << ";"; os.flush(); } see(t.size()); }
			}
			see(l.size() * 65536 + s.size() * 256 + m.size());
		}
		void end() override { for (auto i = l.begin(); i != l.end(); i++) see(i->a); for (auto i = m.begin(); i != m.end(); i++) { see(i->key); see(i->value.a); } { abc::vmem_string_streambuf<Pool, L> sb(&t, log); std::istream is(&sb); std::string w; while (is >> w) see(w); } while (!s.empty()) { see(s.back().a); s.pop_back(); } l.clear(); m.clear(); t.clear(); see(file_size(path)); pool.reset(); unlink(path.c_str()); }
	};
	struct Lines : Job {
		std::stringbuf sb, sb2; abc::log_filter f; abc::log_ostream<abc::test_line_ostream<120, FixedClock>, abc::log_filter> lg; abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter> dbg; abc::table_ostream tab; std::unique_ptr<abc::line_ostream<200>> ln; std::stringbuf sb3;
		explicit Lines(u64 s) : Job(s, 100), f(abc::severity::important), lg(&sb, &f), dbg(&sb2, &f), tab(&sb3) {}
		void op() override {
			switch (r.below(8)) { case 0: lg.put_any(abc::category::any, static_cast<abc::severity_t>(r.below(6)), r.next(), "%s %llu", "text", static_cast<unsigned long long>(r.next())); break; case 1: { char b[50]; for (auto& c : b) c = static_cast<char>(r.next()); lg.put_binary(abc::category::any, 1, 5, b, 1 + r.below(49)); break; } case 2: dbg.put_any(abc::category::any, 1, r.next(), "%d", static_cast<int>(r.next())); break;
				case 3: lg.put_blank_line(abc::category::any, 1); break; case 4: ln.reset(); ln.reset(new abc::line_ostream<200>(&tab)); break; case 5: if (ln) ln->put_any("%llx,", static_cast<unsigned long long>(r.next())); break; case 6: if (ln) ln->put_timestamp(abc::timestamp<FixedClock>(), "%4.4u-%u-%u"); break; default: { abc::timestamp<FixedClock> t; t.reset(static_cast<abc::time_count_t>(r.next() >> 1)); see(t.year() * 100 + t.month()); see(t.day() * 100 + t.hours()); see(t.minutes() * 100 + t.seconds()); see(t.nanoseconds()); } }
		}
		void end() override { ln.reset(); see(sb.str()); see(sb3.str()); }
	};
	template <typename L> struct Files : Job {
		std::string dir; abc::size_multifile_streambuf<512, FixedClock, L> sb; std::ostream os;
		Files(u64 s, L* l, const std::string& d) : Job(s, 40), dir((std::filesystem::remove_all(d), std::filesystem::create_directories(d), d)), sb(1000000, d.c_str(), std::ios_base::out, l), os(&sb) {}
		void op() override { os << "line " << r.next() << "\n"; os.flush(); see(os.good()); }
		void end() override { std::size_t n = 0; for (auto& e : std::filesystem::directory_iterator(dir)) { see(slurp(e.path().string())); n++; } see(n); }
	};
	// plain calls, so that ThreadSanitizer sees where descriptors begin and end
	inline int x_listen(int fam, std::string& port) { int fd = ::socket(fam, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in6 a6{}; sockaddr_in a4{}; a6.sin6_family = AF_INET6; a6.sin6_addr = in6addr_loopback; a4.sin_family = AF_INET; a4.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bool six = fam == AF_INET6; socklen_t n = six ? sizeof a6 : sizeof a4; sockaddr* a = six ? reinterpret_cast<sockaddr*>(&a6) : reinterpret_cast<sockaddr*>(&a4); if (fd < 0 || ::bind(fd, a, n) != 0 || ::listen(fd, 5) != 0 || ::getsockname(fd, a, &n) != 0) harness_error("listen"); port = std::to_string(ntohs(six ? a6.sin6_port : a4.sin_port)); return fd; }
	inline int x_accept(int fd) { int r; do { r = ::accept(fd, nullptr, nullptr); } while (r < 0 && errno == EINTR); if (r < 0) harness_error("accept"); return r; }
	template <typename L> struct Sock : Job {
		int fam; std::string port; int ls; std::unique_ptr<abc::tcp_client_socket<L>> c; int fd; std::unique_ptr<abc::socket_streambuf<abc::tcp_client_socket<L>, L>> sb;
		Sock(u64 s, L* l) : Job(s, 60), fam(pick_family(r)), ls(x_listen(fam, port)), c(new abc::tcp_client_socket<L>(fam == AF_INET6 ? abc::socket::family::ipv6 : abc::socket::family::ipv4, l)) { c->connect(loop(fam), port.c_str()); fd = x_accept(ls); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); sb.reset(new abc::socket_streambuf<abc::tcp_client_socket<L>, L>(c.get(), l)); }
		void op() override { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); char b[64], g[64]; std::size_t n = 1 + r.below(60); for (std::size_t i = 0; i < n; i++) b[i] = static_cast<char>(r.next()); if (r.chance(1, 2)) { std::ostream os(sb.get()); os.write(b, static_cast<std::streamsize>(n)); os.flush(); std::size_t k = 0; while (k < n) { ssize_t x = ::recv(fd, g + k, n - k, 0); if (x <= 0) break; k += static_cast<std::size_t>(x); } see(std::string(g, k)); } else { see(static_cast<u64>(::send(fd, b, n, MSG_NOSIGNAL))); std::istream is(sb.get()); is.read(g, static_cast<std::streamsize>(n)); see(std::string(g, static_cast<std::size_t>(is.gcount()))); } }
		void end() override { sb.reset(); c.reset(); ::close(fd); ::close(ls); }
	};
	using XLog = FullLog;
	struct Kit { LogOf<XLog> own; }; // each user its own log too
	struct Made { std::unique_ptr<Kit> kit; std::unique_ptr<Job> job; };
	template <typename L> Job* make(unsigned kind, u64 seed, L* l, const std::string& p) { switch (kind) { case 0: return new JsonWrite<L>(seed, l); case 1: return new JsonRead<L>(seed, l); case 2: return new Http<L>(seed, l); case 3: return new Vmem<L>(seed, l, p); case 4: return new Lines(seed); case 5: return new Files<L>(seed, l, p + ".d"); default: return new Sock<L>(seed, l); } }
	static const char* const kindname[] = { "a JSON writer", "a JSON reader", "HTTP streams", "a page pool and its containers", "a log and lines", "a rotating file", "a socket stream" };
	void x01(u64, Rng& rng) {
		unsigned n = 2 + static_cast<unsigned>(rng.below(6)); struct Plan { unsigned kind; u64 seed; bool log; }; std::vector<Plan> plan; int same = rng.chance(1, 2) ? static_cast<int>(rng.below(7)) : -1; for (unsigned i = 0; i < n; i++) plan.push_back(Plan{ same >= 0 && rng.chance(4, 5) ? static_cast<unsigned>(same) : static_cast<unsigned>(rng.below(7)), rng.next(), rng.chance(1, 4) });
		auto build = [&](unsigned i) { Made m; m.kit.reset(new Kit); std::string p = scratch(fmt("x%u", i)); m.job.reset(plan[i].log ? make<XLog>(plan[i].kind, plan[i].seed, m.kit->own.get(), p) : make<NoLog>(plan[i].kind, plan[i].seed, nullptr, p)); return m; };
		std::vector<u64> alone; u64 h = 1; for (unsigned i = 0; i < n; i++) { Made m = build(i); while (m.job->step()) {} alone.push_back(m.job->h); h = hcomb(h, m.job->h); }
		{	// in turns on one thread
			std::vector<Made> v; for (unsigned i = 0; i < n; i++) v.push_back(build(i)); std::vector<unsigned> live; for (unsigned i = 0; i < n; i++) live.push_back(i); unsigned last = 0; while (!live.empty()) { std::size_t k = rng.below(live.size()); unsigned i = live[k], burst = rng.chance(3, 4) ? 1 : static_cast<unsigned>(1 + rng.below(8)); if (i != last) cnt("switches"); last = i; cnt("steps"); while (burst-- > 0) if (!v[i].job->step()) { live.erase(live.begin() + static_cast<long>(k)); break; } }
			for (unsigned i = 0; i < n; i++) VH_CHECK(v[i].job->h == alone[i], fmt("in-turns:%s", kindname[plan[i].kind]).c_str(), "%s sees something else when used in turns with %u other objects than when it is alone", kindname[plan[i].kind], n - 1);
		}
		{	// by a thread each
			std::atomic<unsigned> ready{ 0 }; std::vector<u64> got(n); std::vector<std::thread> t; for (unsigned i = 0; i < n; i++) t.emplace_back([&, i] { ready++; while (ready.load() < n) std::this_thread::yield(); Made m = build(i); unsigned k = 0; while (m.job->step()) if (++k % 16 == 0) std::this_thread::yield(); got[i] = m.job->h; }); for (auto& x : t) x.join(); cnt("threads", n);
			for (unsigned i = 0; i < n; i++) VH_CHECK(got[i] == alone[i], fmt("in-threads:%s", kindname[plan[i].kind]).c_str(), "%s sees something else when other threads use %u other objects than when it is alone", kindname[plan[i].kind], n - 1);
		}
		for (unsigned i = 0; i < n; i++) { static const char* const c[] = { "json_writers", "json_readers", "http", "vmem", "lines", "files", "sockets" }; cnt(c[plan[i].kind]); } eval(); nontrivial(h);
	}
}
static RegIt r_x01("X01", x01);
#endif // X01
