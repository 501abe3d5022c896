// E01 responses, E02 static files, E03 hostile clients, E04 shutdown, E05 data races.
#include "log.h"
#include "socket.h"
#include "openssl_socket.h"
#include "endpoint.h"
#include "netutil.h"
#include <fstream>
#include <future>
#include <dlfcn.h>

// ---------------------------------------------------------------- faults injected into the thread that runs the endpoint
namespace faults { std::atomic<int> accepts{ 0 }, threads{ 0 }; std::atomic<u64> failed_accepts{ 0 }, failed_threads{ 0 }; thread_local bool here = false; inline bool take(std::atomic<int>& a) { int v = a.load(); while (v > 0) if (a.compare_exchange_weak(v, v - 1)) return true; return false; } }
#ifdef E03
extern "C" {
	int accept(int s, sockaddr* a, socklen_t* l) { static auto real = reinterpret_cast<decltype(&::accept)>(dlsym(RTLD_NEXT, "accept")); if (faults::here && faults::take(faults::accepts)) { faults::failed_accepts++; errno = EMFILE; return -1; } return real(s, a, l); }
	int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* arg) { static auto real = reinterpret_cast<decltype(&::pthread_create)>(dlsym(RTLD_NEXT, "pthread_create")); if (faults::here && faults::take(faults::threads)) { faults::failed_threads++; return EAGAIN; } return real(t, at, f, arg); }
}
#endif

namespace {
	// ---------------------------------------------------------------- the server side
	struct Rec { std::string method, resource, body; bool complete; };
	struct State { std::mutex m; std::multimap<std::string, Rec> recs; std::atomic<int> inside{ 0 }; std::atomic<u64> entered{ 0 }, left{ 0 }, late{ 0 }, peak{ 0 }; std::atomic<bool> closed{ false }; };
	// what the handler answers, a function of the request alone
	inline std::string reply_of(const std::string& method, const std::string& resource, const std::string& body, std::size_t n) { std::string s = fmt("%016llx:", (unsigned long long)hstr(body, hstr(resource, hstr(method)))); u64 h = hstr(resource); while (s.size() < n) { h = mix(h); s += static_cast<char>(h % 26 + 'a'); if (h % 7 == 0) s += static_cast<char>(h >> 20); } s.resize(std::max<std::size_t>(n, 17)); return s; }

	inline std::string simple_reply(const std::string& method, const std::string& resource, const std::string& body, std::size_t n) { std::string s = reply_of(method, resource, body, std::min<std::size_t>(n, 3000)); for (auto& c : s) if (!c) c = '0'; return s; }

	template <typename S, typename C, typename Log> struct TestEp : abc::endpoint<S, C, abc::endpoint_limits, Log> {
		using base = abc::endpoint<S, C, abc::endpoint_limits, Log>; State& st; std::function<S()> mk;
		TestEp(abc::endpoint_config* c, Log* l, State& s, std::function<S()> m) : base(c, l), st(s), mk(m) {}
		void ask_stop() { base::set_shutdown_requested(); }
		S create_server_socket() override { faults::here = true; return mk(); }
		void process_rest_request(abc::http_server_stream<Log>& http, const char* method, const char* resource) override {
			faults::here = false; st.entered++; if (st.closed) st.late++; u64 in = static_cast<u64>(++st.inside); u64 p = st.peak; while (in > p && !st.peak.compare_exchange_weak(p, in)) { }
			struct Leave { State& st; ~Leave() { st.inside--; st.left++; } } leave{ st };
			std::string r = resource; if (r.compare(0, 9, "/shutdown") == 0 || r.compare(0, 9, "/Shutdown") == 0) { base::process_rest_request(http, method, resource); return; }
			if (r == "/early") { base::send_simple_response(http, "200", "OK", "text/plain", "early", 0x1); return; }
			if (r == "/throw") throw std::runtime_error("handler");
			if (r == "/throw-odd") throw 42;
			std::string id; std::size_t length = 0, want = 17; unsigned delay = 0; bool partial = false, simple = false; char b[1025];
			for (;;) {
				http.get_header_name(b, sizeof b); if (http.gcount() == 0) break; std::string n = b; http.get_header_value(b, sizeof b);
				if (n == "X-Id") id = b; else if (n == "Content-Length") length = strtoull(b, nullptr, 10); else if (n == "X-Reply") want = strtoull(b, nullptr, 10); else if (n == "X-Delay") delay = static_cast<unsigned>(strtoul(b, nullptr, 10)); else if (n == "X-Partial") partial = true; else if (n == "X-Simple") simple = true;
			}
			if (r == "/throw-late") throw std::runtime_error("handler");
			length = std::min<std::size_t>(length, 1000000); want = std::min<std::size_t>(want, 1000000); std::string body; if (partial) length = std::min<std::size_t>(length, 10); bool complete = true;
			while (body.size() < length) { http.get_body(b, std::min<std::size_t>(length - body.size(), 1 + length % 1000)); if (http.gcount() == 0) { complete = false; break; } body.append(b, static_cast<std::size_t>(http.gcount())); }
			{ std::lock_guard<std::mutex> g(st.m); if (st.recs.size() < 100000) st.recs.insert({ id, Rec{ method, r, body, complete } }); }
			if (delay) ::usleep(std::min(delay, 300000u)); if (r.compare(0, 5, "/stop") == 0) base::set_shutdown_requested();
			if (simple) { base::send_simple_response(http, "200", "Fine", id.c_str(), simple_reply(method, r, body, want).c_str(), 0x1); return; }
			std::string out = reply_of(method, r, body, want);
			http.put_protocol("HTTP/1.1"); http.put_status_code("200"); http.put_reason_phrase("Fine"); http.put_header_name("Connection"); http.put_header_value("close"); http.put_header_name("X-Id"); http.put_header_value(id.empty() ? "-" : id.c_str()); http.put_header_name("Content-Length"); http.put_header_value(std::to_string(out.size()).c_str()); http.end_headers();
			for (std::size_t o = 0; o < out.size(); o += 700) http.put_body(out.data() + o, std::min<std::size_t>(700, out.size() - o));
		}
	};

	struct AnyServer { std::string port; int fam = AF_INET; bool tls = false; std::unique_ptr<State> st{ new State }; virtual ~AnyServer() { } virtual bool wait(unsigned ms) = 0; virtual bool get(std::string& what) = 0; virtual void ask_stop() = 0; virtual void destroy() = 0; };
	// the log goes to a file through one stream that all threads share
	struct FileLog { std::filebuf fb; abc::log_filter f; FullLog l; explicit FileLog(const std::string& p) : f(abc::severity::abc::debug), l(&fb, &f) { fb.open(p, std::ios::out | std::ios::app); } };
	template <bool TLS, typename Log> struct Server : AnyServer {
		using S = typename std::conditional<TLS, abc::openssl_tcp_server_socket<Log>, abc::tcp_server_socket<Log>>::type; using C = typename std::conditional<TLS, abc::openssl_tcp_client_socket<Log>, abc::tcp_client_socket<Log>>::type; using Ep = TestEp<S, C, Log>;
		std::string root, prefix, logfile; std::unique_ptr<FileLog> fl; std::unique_ptr<LogOf<Log>> lg{ new LogOf<Log> }; std::unique_ptr<abc::endpoint_config> cfg; std::unique_ptr<Ep> ep; std::future<void> done; std::thread th; std::atomic<int> ended{ 0 }; bool own_thread = false; std::string threw;
		static FullLog* file_log(FullLog*, FileLog& f) { return &f.l; } template <typename L> static L* file_log(L*, FileLog&) { return nullptr; }
		Server(int f, const std::string& p, const std::string& r, const char* pre, bool to_file, const std::string& cert = certs().cert, std::size_t queue = 64) : root(r), prefix(pre ? pre : "") {
			fam = f; port = p; tls = TLS; Log* log = lg->get(); if (to_file) { logfile = scratch("ep.log"); fl.reset(new FileLog(logfile)); if (Log* l = file_log(log, *fl)) log = l; }
			cfg.reset(new abc::endpoint_config(port.c_str(), queue, root.empty() ? nullptr : root.c_str(), pre ? prefix.c_str() : nullptr)); ep.reset(new Ep(cfg.get(), log, *st, maker(log, cert, std::integral_constant<bool, TLS>())));
		}
		std::function<S()> maker(Log* log, std::string cert, std::true_type) { int f = fam; return [=] { return S(cert.c_str(), certs().key.c_str(), "", false, f, log); }; }
		std::function<S()> maker(Log* log, std::string, std::false_type) { int f = fam; return [=] { return S(f, log); }; }
		void start(bool own) { own_thread = own; if (own) th = std::thread([this] { try { ep->start(); ended = 1; } catch (const std::exception& e) { threw = e.what(); ended = 2; } }); else done = ep->start_async(); }
		bool wait(unsigned ms) override { if (!own_thread) return done.wait_for(std::chrono::milliseconds(ms)) == std::future_status::ready; u64 t0 = now_ns(); while (!ended) { if (now_ns() - t0 > ms * 1000000ull) return false; ::usleep(200); } th.join(); return true; }
		bool get(std::string& what) override { if (own_thread) { what = threw; return ended == 1; } try { done.get(); return true; } catch (const std::exception& e) { what = e.what(); return false; } }
		void ask_stop() override { ep->ask_stop(); }
		void destroy() override { st->closed = true; ep.reset(); cfg.reset(); fl.reset(); lg.reset(); }
	};

	// ---------------------------------------------------------------- the client side
	struct Conn {
		int fd = -1; SSL* ssl = nullptr; bool failed = false;
		static SSL_CTX* ctx() { static SSL_CTX* c = [] { SSL_CTX* x = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(x, SSL_VERIFY_NONE, nullptr); return x; }(); return c; }
		static int dial(int fam, const std::string& port) { int fd = static_cast<int>(::syscall(SYS_socket, fam, SOCK_STREAM | SOCK_CLOEXEC, 0)); if (fd < 0) harness_error("socket"); auto a = addr_of(fam, port); if (::connect(fd, &a.value, a.size) != 0) { raw_close(fd); return -1; } return fd; }
		bool open(const AnyServer& s, unsigned limit_s = 20) { fd = dial(s.fam, s.port); if (fd < 0) return false; timeval tv{ static_cast<time_t>(limit_s), 0 }; ::setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); ::setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv); if (s.tls) { ssl = SSL_new(ctx()); SSL_set_fd(ssl, fd); ERR_clear_error(); if (SSL_connect(ssl) != 1) { close(); return false; } } return true; }
		bool send(const char* p, std::size_t n) { while (n) { ssize_t k; if (ssl) { ERR_clear_error(); k = SSL_write(ssl, p, static_cast<int>(std::min<std::size_t>(n, 8000))); } else k = raw_send(fd, p, n); if (k <= 0) { failed = true; return false; } p += k; n -= static_cast<std::size_t>(k); } return true; }
		ssize_t recv(char* p, std::size_t n) { if (ssl) { ERR_clear_error(); int k = SSL_read(ssl, p, static_cast<int>(n)); if (k <= 0) { int e = SSL_get_error(ssl, k); if (e == SSL_ERROR_ZERO_RETURN) return 0; return -1; } return k; } return raw_recv(fd, p, n); }
		void finish_send() { if (!ssl) ::shutdown(fd, SHUT_WR); }
		void reset() { if (fd < 0) return; if (ssl) { SSL_free(ssl); ssl = nullptr; } raw_reset(fd); fd = -1; }
		void close() { if (fd < 0) return; if (ssl) { SSL_free(ssl); ssl = nullptr; } raw_close(fd); fd = -1; }
		Conn() { } Conn(const Conn&) = delete; ~Conn() { close(); }
	};
	inline void wait_up(const AnyServer& s) { for (int i = 0; i < 10000; i++) { int fd = Conn::dial(s.fam, s.port); if (fd >= 0) { raw_close(fd); return; } ::usleep(1000); } vh::fail("not-listening", "the endpoint did not listen within 10 s of being started"); }

	struct Resp { int status = 0; std::string reason; std::map<std::string, std::string> h; std::string body; std::string bad; std::string raw; bool none = false; };
	inline Resp parse(const std::string& raw, bool eof) {
		Resp r; r.raw = raw; if (raw.empty()) { r.none = true; r.bad = "no response"; return r; } auto bad = [&](const std::string& s) { r.bad = s; return r; };
		std::size_t e = raw.find("\r\n\r\n"); if (e == std::string::npos) return bad("headers incomplete"); std::size_t l = raw.find("\r\n"); std::string line = raw.substr(0, l); if (line.compare(0, 9, "HTTP/1.1 ") != 0 || line.size() < 13 || line[12] != ' ') return bad("status line " + printable(line)); r.status = atoi(line.c_str() + 9); r.reason = line.substr(13);
		std::size_t p = l + 2; while (p < e + 2) { std::size_t q = raw.find("\r\n", p); std::string hl = raw.substr(p, q - p); std::size_t c = hl.find(':'); if (c == std::string::npos) return bad("header line " + printable(hl)); std::string v = hl.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); if (r.h.count(hl.substr(0, c))) return bad("header twice: " + printable(hl)); r.h[hl.substr(0, c)] = v; p = q + 2; }
		r.body = raw.substr(e + 4); if (!r.h.count("Content-Length")) return bad("no Content-Length"); std::size_t n = strtoull(r.h["Content-Length"].c_str(), nullptr, 10); if (std::to_string(n) != r.h["Content-Length"]) return bad("Content-Length " + printable(r.h["Content-Length"]));
		if (r.body.size() < n) return bad(fmt("%zu of %zu bytes of the body", r.body.size(), n)); if (r.body.size() > n) return bad(fmt("%zu bytes beyond the body", r.body.size() - n)); if (!eof) return bad("the connection was not closed after the response"); return r;
	}
	inline std::string lower_of(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
	struct Req { std::string id, method, resource, body, text; std::size_t reply = 17; bool partial = false, simple = false; const std::string* file = nullptr; const char* media = nullptr; };
	inline std::string token(Rng& rng, std::size_t n) { std::string s(n, 0); for (auto& c : s) c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[rng.below(64)]; return s; }
	inline std::atomic<u64>& next_id() { static std::atomic<u64> n{ 1 }; return n; }
	inline Req gen_req(Rng& rng, std::size_t max_body, unsigned max_delay_us, const char* stem = "/echo/", std::size_t longest = 0) {
		Req q; q.id = "r" + std::to_string(next_id()++) + "-" + token(rng, 4); static const char* ms[] = { "GET", "POST", "PUT", "DELETE", "PATCH", "x-odd" }; q.method = ms[rng.below(6)]; q.resource = stem + q.id; std::size_t extra = rng.chance(1, 8) ? rng.below(1500) : rng.below(30); for (std::size_t i = 0; i < extra; i++) q.resource += "abcdef/.%?&=+~!$0123456789"[rng.below(26)];
		if (longest && rng.chance(1, 6)) { q.method = token(rng, rng.chance(1, 2) ? 32 : 1 + rng.below(32)); cnt("odd_methods"); }
		if (longest && rng.chance(1, 12)) { std::size_t n = longest - (rng.chance(1, 2) ? 0 : rng.below(40)); q.resource.resize(std::min(q.resource.size(), n)); while (q.resource.size() < n) q.resource += static_cast<char>('a' + rng.below(26)); cnt("longest_resources"); }
		else if (longest && rng.chance(1, 8)) { static const char* rs[] = { "/favicon.icon", "/favicon.ico/", "/favicon.ic", "/files", "/file/x", "/x/files/", "/", "/favicon.ico", "*", "/shut", "/x/shutdown" }; q.resource = rs[rng.below(11)]; if (q.resource == "/favicon.ico") while (lower_of(q.method) == "get") q.method = token(rng, 1 + rng.below(8)); cnt("odd_resources"); }
		q.simple = longest && rng.chance(1, 4); q.body = gen_data(rng, rng.chance(1, 3) ? 0 : rng.below(rng.chance(1, 4) ? max_body : 200)); q.reply = rng.chance(1, 4) ? rng.below(max_body) : rng.below(100); if (q.reply < 17) q.reply = 17; q.partial = q.body.size() > 10 && rng.chance(1, 6);
		std::vector<std::string> h; h.push_back("X-Id: " + q.id); if (!q.body.empty() || rng.chance(1, 2)) h.push_back("Content-Length: " + std::to_string(q.body.size())); h.push_back("X-Reply:" + std::string(rng.below(3), ' ') + std::to_string(q.reply)); if (q.partial) h.push_back("X-Partial: yes"); if (q.simple) { h.push_back("X-Simple: yes"); cnt("simple_responses"); } if (max_delay_us && rng.chance(1, 2)) h.push_back("X-Delay: " + std::to_string(rng.below(max_delay_us))); for (unsigned i = 0, n = static_cast<unsigned>(rng.below(6)); i < n; i++) h.push_back("H-" + token(rng, 1 + rng.below(20)) + ": " + token(rng, 1 + rng.below(rng.chance(1, 5) ? 900 : 20)));
		for (std::size_t i = h.size(); i > 1; i--) std::swap(h[i - 1], h[rng.below(i)]); std::string proto = "HTTP/1.1"; if (longest && rng.chance(1, 8)) { proto = "HTTP/1."; std::size_t n = rng.chance(1, 2) ? 15 : 8 + rng.below(8); while (proto.size() < n) proto += static_cast<char>('0' + rng.below(10)); } q.text = q.method + " " + q.resource + " " + proto + "\r\n"; for (auto& x : h) q.text += x + "\r\n"; q.text += "\r\n" + q.body; return q;
	}
	// sends in pieces, receives to the end
	inline Resp exchange(Conn& c, const std::string& text, Rng& rng, bool half_close, bool slow) {
		std::size_t o = 0, piece = rng.chance(1, 2) ? text.size() : 1 + rng.below(rng.chance(1, 2) ? 40 : 3000); while (o < text.size()) { std::size_t n = std::min(text.size() - o, 1 + rng.below(piece)); if (rng.chance(1, 2)) n = std::min(text.size() - o, piece); if (!c.send(text.data() + o, n)) break; o += n; nap(rng); }
		if (half_close && !c.failed) c.finish_send(); std::string raw; char b[4096]; bool eof = false; for (;;) { ssize_t k = c.recv(b, slow ? 1 + rng.below(500) : sizeof b); if (k == 0) { eof = true; break; } if (k < 0) break; raw.append(b, static_cast<std::size_t>(k)); if (raw.size() > 20000000) break; if (slow) nap(rng); }
		return parse(raw, eof);
	}
	inline std::string judge(const Req& q, const Resp& r) { if (!r.bad.empty()) return r.bad; if (q.file) return r.status != 200 ? fmt("status %d", r.status) : r.body != *q.file ? fmt("%zu bytes that are not the file of %zu", r.body.size(), q.file->size()) : q.media && (r.h.count("Content-Type") != 1 || r.h.at("Content-Type") != q.media) ? "a Content-Type other than " + std::string(q.media) : "";
		if (q.simple) { auto i = r.h.find("Content-Type"); if (r.status != 200 || r.reason != "Fine" || i == r.h.end() || i->second != q.id) return fmt("status %d %s, type %s", r.status, printable(r.reason).c_str(), i == r.h.end() ? "missing" : printable(i->second).c_str()); return r.body == simple_reply(q.method, q.resource, q.partial ? q.body.substr(0, 10) : q.body, q.reply) ? "" : "the body of a simple response differs from what this request computes"; }
		if (r.status != 200 || r.reason != "Fine") return fmt("status %d %s", r.status, printable(r.reason).c_str()); auto i = r.h.find("X-Id"); if (i == r.h.end() || i->second != q.id) return "another request's X-Id"; std::string want = reply_of(q.method, q.resource, q.partial ? q.body.substr(0, 10) : q.body, q.reply); if (r.body != want) return fmt("the body differs from what this request computes (%s... instead of %s...)", printable(r.body.substr(0, 20)).c_str(), printable(want.substr(0, 20)).c_str()); return ""; }
	inline std::string handled(State& st, const Req& q) { std::lock_guard<std::mutex> g(st.m); auto n = st.recs.count(q.id); if (q.file) return n ? "the handler ran for a file" : ""; if (n != 1) return fmt("the handler ran %zu times", n); auto& r = st.recs.find(q.id)->second; if (r.method != q.method) return "the handler saw method " + printable(r.method); if (r.resource != q.resource) return "the handler saw another resource: " + printable(r.resource); if (r.body != (q.partial ? q.body.substr(0, 10) : q.body)) return fmt("the handler saw another body (%zu of %zu bytes)", r.body.size(), q.body.size()); return ""; }

	// starts a server; the object survives the case if it cannot be stopped
	struct Run { std::unique_ptr<AnyServer> s; bool gone = false;
		~Run() { if (s && !gone) { try { stop(); } catch (...) { } if (!gone) s.release(); } }
		static std::string ask(AnyServer& s, const std::string& text, Rng& rng) { Conn c; if (!c.open(s)) return "no connection"; Resp r = exchange(c, text, rng, false, false); return r.bad.empty() ? "" : r.bad; }
		bool by_request = true; // with an empty prefix all requests are for files
		void stop() { Rng q(7); if (!by_request) s->ask_stop(); std::string e = !by_request ? "" : ask(*s, "POST /shutdown HTTP/1.1\r\n\r\n", q); VH_CHECK(e.empty(), "shutdown-unanswered", "the shutdown request was not answered: %s", e.c_str()); VH_CHECK(s->wait(20000), "shutdown-never-completes", "completion was not signalled within 20 s of the shutdown request"); std::string what; VH_CHECK(s->get(what), "shutdown-failed", "completion was an exception: %s", what.c_str()); s->destroy(); gone = true; }
	};
	inline void begin(Run& r, Rng& rng, const std::string& root, const char* prefix, bool to_file, int tls = -1, int log = -1, int want_fam = -1, std::string port = "", bool up = true, const std::string& cert = certs().cert) {
		int fam = want_fam < 0 ? pick_family(rng) : want_fam; if (port.empty()) port = own_port(fam, SOCK_STREAM); if (port == "0") harness_error("no port"); bool t = tls < 0 ? rng.chance(1, 4) : tls != 0, l = log < 0 ? rng.chance(1, 3) : log != 0, own = rng.chance(1, 3);
		if (t) { if (l) { auto s = new Server<true, FullLog>(fam, port, root, prefix, to_file, cert); r.s.reset(s); s->start(own); } else { auto s = new Server<true, NoLog>(fam, port, root, prefix, to_file, cert); r.s.reset(s); s->start(own); } }
		else { if (l) { auto s = new Server<false, FullLog>(fam, port, root, prefix, to_file, cert); r.s.reset(s); s->start(own); } else { auto s = new Server<false, NoLog>(fam, port, root, prefix, to_file, cert); r.s.reset(s); s->start(own); } }
		if (up) wait_up(*r.s); cnt(t ? "tls_servers" : "servers"); if (l) cnt("logged_servers"); if (own) cnt("started_on_own_thread");
	}
	inline void no_sigpipe_ignore() { ::signal(SIGPIPE, SIG_DFL); }
	// OpenSSL writes with write(): the client side must not die of SIGPIPE, the server side must survive by itself
	struct BlockPipe { BlockPipe() { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGPIPE); pthread_sigmask(SIG_BLOCK, &s, nullptr); } };
}

#if defined(E04) || defined(E05)
namespace {
	// every handled request was answered in full, and nothing else was
	inline void e04_traffic(Rng& rng, Run& r, unsigned max_delay) {
		AnyServer& s = *r.s; Errs e; struct Item { Req q; unsigned wait; int kind; Resp r; bool sent = false, stopper = false; }; unsigned n = static_cast<unsigned>(rng.below(10)), k = static_cast<unsigned>(1 + rng.below(4)); std::vector<Item> items; unsigned span = static_cast<unsigned>(rng.chance(1, 3) ? 1 : rng.chance(1, 2) ? 3000 : 40000);
		for (unsigned i = 0; i < n + k; i++) { Item it; it.stopper = i >= n; it.q = gen_req(rng, 1500, max_delay, it.stopper ? "/stop/" : "/echo/"); it.q.partial = false; it.wait = static_cast<unsigned>(rng.below(span)); it.kind = static_cast<int>(rng.below(4)); if (it.q.text.find("X-Partial") != std::string::npos) it.q.partial = true; items.push_back(it); }
		std::size_t plain = n + rng.below(k + 1); for (std::size_t i = plain; i < items.size(); i++) { items[i].q.text = "POST /shutdown HTTP/1.1\r\n\r\n"; items[i].q.id.clear(); } unsigned idle = static_cast<unsigned>(rng.below(4)); std::vector<std::unique_ptr<Conn>> held; for (unsigned i = 0; i < idle; i++) { std::unique_ptr<Conn> c(new Conn); if (s.tls && rng.chance(1, 2)) { c->fd = Conn::dial(s.fam, s.port); } else { BlockPipe bp; if (!c->open(s)) vh::fail("no-connection", "could not connect to the running endpoint"); if (rng.chance(1, 2)) c->send("POST /ec", 1 + rng.below(8)); } held.push_back(std::move(c)); }
		if (rng.chance(1, 3)) { // requests that only look like one for shutdown
			static const char* near[] = { "POST /shutdown-report", "GET /shutdown", "POST /shutdown/", "PUT /Shutdown", "POST /shutdown?now=1", "POSTS /shutdown", "POS /shutdown", "POST /shutdownshutdown", "DELETE /shutdown" }; const char* what = near[rng.below(9)]; Rng q(rng.next()); BlockPipe bp; Conn c; VH_CHECK(c.open(s), "no-connection", "could not connect to the running endpoint"); Resp p = exchange(c, std::string(what) + " HTTP/1.1\r\n\r\n", q, false, false); VH_CHECK(p.bad.empty() && p.status == 200, "near-shutdown", "%s got: %s", what, p.bad.empty() ? fmt("status %d", p.status).c_str() : p.bad.c_str()); VH_CHECK(!s.wait(static_cast<unsigned>(rng.below(250))), "stopped-by-another", "%s stopped the endpoint", what); Conn d; VH_CHECK(d.open(s), "stopped-by-another", "%s stopped the endpoint", what); cnt("near_shutdowns");
		}
		if (rng.chance(1, 3)) VH_CHECK(!s.wait(static_cast<unsigned>(rng.below(30))), "completed-early", "completion was signalled before any shutdown request");
		std::vector<u64> seeds(items.size()); for (auto& x : seeds) x = rng.next(); std::vector<std::thread> ts;
		for (std::size_t i = 0; i < items.size(); i++) ts.emplace_back([&, i] { BlockPipe bp; Rng q(seeds[i]); Item& it = items[i]; if (it.wait > 1) ::usleep(it.wait); Conn c; if (!c.open(s)) return; it.sent = true; it.r = exchange(c, it.q.text, q, it.kind == 1, it.kind == 2); });
		bool done = s.wait(25000); int in = s.st->inside; u64 en = s.st->entered, le = s.st->left; std::string what; bool ok = done && s.get(what); if (done) { s.destroy(); r.gone = true; }
		for (auto& t : ts) t.join(); VH_CHECK(done, "shutdown-never-completes", "completion was not signalled within 25 s of %u shutdown requests among %u others, %u idle connections", k, n, idle); VH_CHECK(ok, "shutdown-failed", "completion was an exception: %s", what.c_str());
		VH_CHECK(in == 0 && en == le, "completed-early", "at completion %d requests were still being processed (%llu begun, %llu finished)", in, (unsigned long long)en, (unsigned long long)le);
		int fd = Conn::dial(s.fam, s.port); if (fd >= 0) { raw_close(fd); vh::fail("still-listening", "connections are still accepted after completion"); } ::usleep(static_cast<useconds_t>(rng.chance(1, 10) ? 200000 : 2000)); VH_CHECK(s.st->late == 0 && s.st->entered == en, "late-request", "a request was processed after completion"); u64 answered = 0, refused = 0;
		for (auto& it : items) { if (!it.sent) { refused++; continue; } if (it.q.id.empty()) { if (it.r.none) refused++; else { VH_CHECK(it.r.bad.empty() && it.r.status == 200, "shutdown-unanswered", "a shutdown request got: %s", it.r.bad.empty() ? fmt("status %d", it.r.status).c_str() : it.r.bad.c_str()); answered++; } continue; }
			std::size_t seen; { std::lock_guard<std::mutex> g(s.st->m); seen = s.st->recs.count(it.q.id); } if (seen == 0) { VH_CHECK(it.r.none, "unprocessed-answered", "a request that was not processed got a response: %s", printable(it.r.raw, 80).c_str()); refused++; continue; }
			bool complete = s.st->recs.find(it.q.id)->second.complete; if (!complete) continue; std::string b = judge(it.q, it.r); VH_CHECK(b.empty(), "processed-unanswered", "a request that was processed around the shutdown got: %s", b.c_str()); answered++; }
		cnt("answered", answered); cnt("refused", refused); cnt("shutdown_requests", k); cnt("idle_connections", idle); distinct("mixes", hcomb(hcomb(answered, refused), idle)); nontrivial(hcomb(hcomb(answered, refused * 100 + idle), hstr(items[0].q.text)));
	}
}
#endif

#if defined(E01) || defined(E05)
namespace {
	inline const char* e01_file(int i) { static const char* n[] = { "0.html", "1.css", "2", "3.png", "4.js" }; return n[i]; }
	inline const char* e01_media(int i) { static const char* n[] = { "text/html; charset=utf-8", "text/css; charset=utf-8", nullptr, "image/png", "text/javascript; charset=utf-8" }; return n[i]; }
	void e01_case(Rng& rng, int tls, int log, bool to_file, std::size_t max_body, bool crowd = false) {
		// some files under a root of any length
		struct Root { std::string d; ~Root() { for (int i = 0; i < 5; i++) ::unlink((d + "/files/" + e01_file(i)).c_str()); ::rmdir((d + "/files").c_str()); ::rmdir(d.c_str()); } } root{ scratch("e01" + token(rng, rng.chance(1, 3) ? 1 + rng.below(200) : 5)) }; ::mkdir(root.d.c_str(), 0755); ::mkdir((root.d + "/files").c_str(), 0755); std::vector<std::string> files(5); for (std::size_t i = 0; i < 5; i++) { files[i] = gen_data(rng, rng.chance(1, 3) ? rng.below(40000) : rng.below(4000)); spit(root.d + "/files/" + e01_file(static_cast<int>(i)), files[i]); }
		bool rooted = crowd || rng.chance(3, 4); std::size_t longest = 2047 - (rooted ? root.d.size() : 0); Run r; begin(r, rng, rooted ? root.d : "", "/files/", to_file, tls, log); Errs e; bool burst = crowd || rng.chance(1, 4); unsigned nt = static_cast<unsigned>(burst ? 8 : 1 + rng.below(8)), each = static_cast<unsigned>(1 + rng.below(4)); std::vector<std::vector<Req>> all(nt); u64 h = nt; u64 nfiles = 0; for (auto& v : all) for (unsigned i = 0; i < each; i++) { v.push_back(gen_req(rng, max_body, burst ? 0 : 3000, "/echo/", longest)); if (rooted && rng.chance(1, burst ? 2 : 5)) { Req& q = v.back(); std::size_t k = rng.below(5); q.method = "GET"; q.resource = "/files/" + std::string(e01_file(static_cast<int>(k))); q.text = "GET " + q.resource + " HTTP/1.1\r\nX-Id: " + q.id + "\r\n\r\n"; q.body.clear(); q.partial = q.simple = false; q.file = &files[k]; q.media = e01_media(static_cast<int>(k)); nfiles++; } h = hcomb(h, v.back().text.size()); }
		std::vector<u64> seeds(nt); for (auto& s : seeds) s = rng.next(); std::vector<std::thread> ts; std::atomic<u64> bytes{ 0 }, partials{ 0 }; std::atomic<unsigned> ready{ 0 };
		for (unsigned t = 0; t < nt; t++) ts.emplace_back([&, t] { BlockPipe bp; Rng q(seeds[t]); if (burst) { ready++; while (ready < nt) ::sched_yield(); } for (auto& x : all[t]) { if (e.any()) return; Conn c; if (!c.open(*r.s)) { e.set("no-connection", "a client could not connect to the running endpoint"); return; } if (q.chance(1, 3)) small_buffers(c.fd, q); Resp p = exchange(c, x.text, q, q.chance(1, 3), q.chance(1, 4)); std::string b = judge(x, p); if (!b.empty()) { e.set("wrong-response", fmt("%s %s (body of %zu bytes%s): ", x.method.c_str(), printable(x.resource, 40).c_str(), x.body.size(), x.partial ? ", not read by the handler" : "") + b); return; } bytes += p.raw.size() + x.text.size(); if (x.partial) partials++; if (q.chance(1, 8)) ::usleep(300); } });
		for (auto& t : ts) t.join(); e.raise(); for (auto& v : all) for (auto& x : v) { std::string b = handled(*r.s->st, x); VH_CHECK(b.empty(), "wrong-handling", "%s", b.c_str()); } VH_CHECK(r.s->st->recs.size() == nt * each - nfiles, "extra-request", "%zu requests were made and %zu handled", static_cast<std::size_t>(nt * each), r.s->st->recs.size());
		cnt("requests", nt * each); cnt("bytes", bytes); cnt("unread_bodies", partials); cnt("files", nfiles); if (burst) cnt("bursts"); if (r.s->st->peak > 1) cnt("overlapping"); std::string lf; r.stop(); eval(); nontrivial(h);
	}
}
#endif

#ifdef E01
namespace { void e01(u64, Rng& rng) { e01_case(rng, -1, -1, false, rng.chance(1, 6) ? 60000 : 4000); } }
static RegIt r_e01("E01", e01, no_sigpipe_ignore);
#endif // E01

#ifdef E02
namespace {
	struct Tree { std::string base, root, prefix; std::map<std::string, std::string> files; std::vector<std::string> dirs, secrets, odd; std::string mark; std::vector<std::string> secret_marks; };
	inline void mkdirs(const std::string& p) { for (std::size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') ::mkdir(p.substr(0, i).c_str(), 0755); }
	inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
	inline const char* media(const std::string& f) { static const std::map<std::string, const char*> m = { { ".html", "text/html; charset=utf-8" }, { ".css", "text/css; charset=utf-8" }, { ".js", "text/javascript; charset=utf-8" }, { ".txt", "text/plain; charset=utf-8" }, { ".xml", "text/xml; charset=utf-8" }, { ".png", "image/png" }, { ".jpeg", "image/jpeg" }, { ".jpg", "image/jpeg" }, { ".gif", "image/gif" }, { ".bmp", "image/bmp" }, { ".svg", "image/svg+xml" } }; std::size_t d = f.rfind('.'); if (d == std::string::npos) return nullptr; auto i = m.find(lower(f.substr(d))); return i == m.end() ? nullptr : i->second; }
	inline std::string content(Rng& rng, const std::string& mark) { static const std::size_t edge[] = { 0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 10240 }; std::size_t n = rng.chance(1, 3) ? edge[rng.below(10)] : rng.chance(1, 20) ? rng.below(150000) : rng.below(5000); std::string s = gen_data(rng, n); if (s.size() > mark.size() + 8) s.replace(rng.below(s.size() - mark.size()), mark.size(), mark); return s; }
	inline std::string fname(Rng& rng) { static const char* ext[] = { "", ".html", ".css", ".js", ".txt", ".xml", ".png", ".jpeg", ".jpg", ".gif", ".bmp", ".svg", ".HTML", ".Js", ".bin", ".tar.gz", ".", "..", ".html.bak" }; static const char* stem[] = { "..", "...", ".hidden", "a..b", "-", "%2e%2e", "%41", "a?b", "x&y=1", "a+b", "~" }; std::string n = rng.chance(1, 6) ? stem[rng.below(11)] : token(rng, 1 + rng.below(rng.chance(1, 6) ? 200 : 10)); n += ext[rng.below(19)]; if (n == "." || n == "..") n += "z"; return n; }
	inline void make_tree(Tree& t, Rng& rng, u64 idx) {
		t.base = scratch("e02-" + std::to_string(idx)); t.root = t.base + "/" + (rng.chance(1, 5) ? token(rng, 1 + rng.below(200)) : "root"); mkdirs(t.root); static const char* pre[] = { "/files/", "/files", "", "/", "/a/b/", "/Files/" }; t.prefix = pre[rng.below(10) < 5 ? 0 : rng.below(6)]; t.mark = "INSIDE-" + token(rng, 12);
		std::string sub = t.prefix.empty() || t.prefix == "/" ? "/" : t.prefix; if (sub.back() != '/') sub += '/'; std::vector<std::string> dirs{ sub }; for (unsigned i = 0, n = static_cast<unsigned>(rng.below(4)); i < n; i++) dirs.push_back(dirs[rng.below(dirs.size())] + fname(rng) + "/"); for (auto& d : dirs) mkdirs(t.root + d.substr(0, d.size() - 1));
		for (unsigned i = 0, n = static_cast<unsigned>(3 + rng.below(8)); i < n; i++) { std::string f = rng.pick(dirs) + fname(rng); struct stat st; if (::stat((t.root + f).c_str(), &st) == 0) continue; t.files[f] = content(rng, t.mark); spit(t.root + f, t.files[f]); }
		// a file whose path is exactly as long as a request can name it, or a bit shorter
		if (rng.chance(1, 2)) { std::size_t want = 2047 - (rng.chance(1, 2) ? 0 : rng.below(300)); std::string p = dirs[0]; while (t.root.size() + p.size() + 201 < want) p += std::string(199, 'd') + "/"; mkdirs(t.root + p.substr(0, p.size() - 1)); p += std::string(want - t.root.size() - p.size(), 'f'); t.files[p] = content(rng, t.mark); spit(t.root + p, t.files[p]); cnt("longest_paths"); }
		if (rng.chance(1, 2)) { std::string f = "/favicon.ico"; t.files[f] = content(rng, t.mark); spit(t.root + f, t.files[f]); }
		t.dirs = dirs; // things that are not files
		std::string fifo = sub + "pipe" + token(rng, 3); if (::mkfifo((t.root + fifo).c_str(), 0644) == 0) t.odd.push_back(fifo); std::string dev = sub + "dev" + token(rng, 3); if (::symlink("/dev/zero", (t.root + dev).c_str()) == 0) t.odd.push_back(dev); std::string dang = sub + "dangling" + token(rng, 3); if (::symlink("/nonexistent/vh", (t.root + dang).c_str()) == 0) t.odd.push_back(dang); int sfd = static_cast<int>(::syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0)); sockaddr_un u{}; u.sun_family = AF_UNIX; std::string sp = t.root + sub + "sock"; if (sp.size() < sizeof u.sun_path) { strcpy(u.sun_path, sp.c_str()); if (::bind(sfd, reinterpret_cast<sockaddr*>(&u), sizeof u) == 0) t.odd.push_back(sub + "sock"); } raw_close(sfd);
		// secrets around the root
		auto secret = [&](const std::string& path) { std::string m = "OUTSIDE-" + token(rng, 16); t.secret_marks.push_back(m); t.secrets.push_back(path); std::size_t sl = path.rfind('/'); mkdirs(path.substr(0, sl)); spit(path, m + gen_data(rng, rng.below(3000)) + m); };
		std::string name = t.root.substr(t.base.size() + 1); secret(t.base + "/secret.txt"); secret(t.base + "/" + name + "-secret/x.html"); secret(t.base + "/" + name + "secret"); secret(t.base + "/other/deep/y.txt"); secret(t.base + "/favicon.ico"); secret(t.base + "/files/z.txt");
	}
	// ways to point from a resource under the root to a path under base
	inline std::string attack(Rng& rng, const Tree& t) {
		std::string target = rng.pick(t.secrets).substr(t.base.size()); static const char* up[] = { "..", "%2e%2e", "%2E.", ".%2e", "..;", "...", "%252e%252e", "..%00", "..%c0%af", "%c0%ae%c0%ae", ".", "..\\", "..?", "..#", ". ." }; static const char* sep[] = { "/", "//", "/./", "%2f", "%2F", "\\", "/.//", "/%2e/", "///" };
		std::string u = rng.chance(1, 2) ? ".." : up[rng.below(15)], s = rng.chance(1, 2) ? "/" : sep[rng.below(9)]; std::string pre = rng.pick(const_cast<Tree&>(t).dirs); if (rng.chance(1, 4)) pre = t.prefix; if (rng.chance(1, 6)) for (auto& c : pre) if (rng.chance(1, 2)) c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c); if (rng.chance(1, 6) && !t.files.empty()) { auto i = t.files.begin(); std::advance(i, static_cast<long>(rng.below(t.files.size()))); pre = i->first + "/"; if (pre.size() > 1000) pre = t.prefix; }
		unsigned depth = static_cast<unsigned>(std::count(pre.begin(), pre.end(), '/')); std::string r = pre; if (rng.chance(1, 4)) r += "nodir" + s + u + s; for (unsigned i = 0; i < depth + (rng.chance(1, 3) ? rng.below(3) : 0) + (pre.empty() || pre.back() != '/' ? 1 : 0); i++) r += (r.empty() || r.back() == '/' || s != "/" ? "" : "/") + u + s; if (!r.empty() && !target.empty() && r.back() == '/') target.erase(0, 1); r += target;
		switch (rng.below(14)) {
			case 0: r = t.base + target; break; case 1: r = "http://localhost" + r; break; case 2: r = target; break; case 3: r = target.substr(target[0] == '/'); break; case 4: { std::string name = t.root.substr(t.base.size() + 1); r = target.compare(0, name.size() + 1, "/" + name) == 0 ? target.substr(name.size() + 1) : target.compare(0, name.size(), name) == 0 ? target.substr(name.size()) : r; break; }
			case 5: r += "?x=" + token(rng, 5); break; case 6: r += "#f"; break; case 7: r = std::string(1 + rng.below(5), '/') + r; break; case 8: { std::string pad; std::size_t n = 1 + rng.below(900); while (pad.size() < n * 2) pad += "./"; std::size_t sl = r.find('/'); if (sl != std::string::npos) r.insert(sl + 1, pad); break; }
			case 9: r = t.prefix + t.root.substr(1) + "/../" + target; break; case 10: r = ".." + std::string(target[0] == '/' ? "" : "/") + target; break; case 11: { std::size_t i = rng.below(r.size() + 1); r.insert(i, 1, "\0\\/.%?#;~ \t\x7f\x80\xff"[rng.below(14)]); break; } default: break;
		}
		return r;
	}
	inline std::string leak(const Tree& t, const Resp& r) { for (std::size_t i = 0; i < t.secret_marks.size(); i++) if (r.raw.find(t.secret_marks[i]) != std::string::npos) return t.secrets[i]; return ""; }
	void e02(u64 idx, Rng& rng) {
		Tree t; make_tree(t, rng, idx); Run r; begin(r, rng, t.root, t.prefix.c_str(), false); r.by_request = !t.prefix.empty() && t.prefix != "/"; Errs e; u64 h = hstr(t.prefix, t.files.size());
		struct Rm { std::string d; ~Rm() { if (d.size() > 10 && d.find("/e02-") != std::string::npos) { int rc = ::system(("rm -rf '" + d + "'").c_str()); (void)rc; } } } rm{ t.base };
		auto file_rule = [&](const std::string& res) { return res.size() >= t.prefix.size() && lower(res.substr(0, t.prefix.size())) == lower(t.prefix); };
		auto one = [&](Rng& q, const std::string& method, const std::string& res, std::string& text, Resp& p) { text = method + " " + res + " HTTP/1.1\r\n"; if (q.chance(1, 2)) text += "Host: x\r\nAccept: */*\r\n"; text += "\r\n"; Conn c; if (!c.open(*r.s)) { e.set("no-connection", "a client could not connect to the running endpoint"); return false; } if (q.chance(1, 6)) small_buffers(c.fd, q); p = exchange(c, text, q, q.chance(1, 6), q.chance(1, 12)); std::string l = leak(t, p); if (!l.empty()) { e.set("outside-content", "the response to " + printable(text.substr(0, text.find('\r')), 700) + " contains " + l + ", which is outside " + t.root); return false; } return true; };
		unsigned nt = static_cast<unsigned>(1 + rng.below(4)), each = static_cast<unsigned>(4 + rng.below(8)); std::vector<u64> seeds(nt); for (auto& s : seeds) s = rng.next(); std::vector<std::string> names; for (auto& f : t.files) names.push_back(f.first); std::vector<std::thread> ts;
		for (unsigned k = 0; k < nt; k++) ts.emplace_back([&, k] { BlockPipe bp; Rng q(seeds[k]); for (unsigned i = 0; i < each && !e.any(); i++) {
			std::string text, desc; Resp p; unsigned kind = static_cast<unsigned>(q.below(10));
			if (kind < 4 && !names.empty()) { // existing file
				const std::string& f = q.pick(names); if (!one(q, "GET", f, text, p)) return; const std::string& w = t.files[f]; desc = fmt("GET %s (%zu bytes, prefix %s): ", printable(f, 60).c_str(), w.size(), t.prefix.c_str());
				if (!p.bad.empty()) e.set("file-response", desc + p.bad); else if (p.status != 200 || p.reason != "OK") e.set("file-not-served", desc + fmt("status %d %s", p.status, p.reason.c_str())); else if (p.body != w) e.set("file-content", desc + fmt("other content (%zu bytes)", p.body.size())); else if (const char* m = media(f)) { if (p.h.count("Content-Type") != 1 || p.h["Content-Type"] != m) e.set("media-type", desc + "Content-Type " + printable(p.h["Content-Type"])); } cnt_mt("files_served"); cnt_mt("file_bytes", w.size()); if (w.empty()) cnt_mt("empty_files"); if (w.size() >= 20000) cnt_mt("big_files");
			} else if (kind == 4 && !names.empty()) { // other methods
				static const char* ms[] = { "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "GETS", "GE", "G" }; std::string f = q.pick(names); if (!file_rule(f)) continue; if (q.chance(1, 4)) { f += "missing"; if (f.size() + t.root.size() > 2047) continue; } std::string m = ms[q.below(9)]; if (!one(q, m, f, text, p)) return; desc = m + " " + printable(f, 60) + ": ";
				if (!p.bad.empty()) e.set("method-response", desc + p.bad); else if (p.status != 405) e.set("method-allowed", desc + fmt("status %d", p.status)); else if (p.raw.find(t.mark) != std::string::npos) e.set("content-in-error", desc + "the error contains the file"); cnt_mt("methods_refused");
			} else if (kind == 5) { // no such file
				std::string f; bool prompt = false; if (q.chance(1, 3) && !t.odd.empty()) { f = q.pick(t.odd); prompt = true; } else if (q.chance(1, 3)) { f = q.pick(t.dirs); if (q.chance(1, 2) && f.size() > t.prefix.size() + 1) f.pop_back(); } else if (!names.empty()) { f = q.pick(names); unsigned how = static_cast<unsigned>(q.below(5)); if (how == 0) f += token(q, 1 + q.below(3000)); else if (how == 1) f.pop_back(); else if (how == 2) f += "/"; else if (how == 3) f += "/x"; else f.insert(f.rfind('/') + 1, token(q, 1 + q.below(9))); } if (f.empty() || f[0] != '/' || t.files.count(f)) continue; struct stat st; if (::stat((t.root + f).c_str(), &st) == 0 && S_ISREG(st.st_mode)) continue; if (!file_rule(f)) continue;
				u64 t0 = now_ns(); if (!one(q, "GET", f, text, p)) return; desc = fmt("GET of %s, which is not a file (%zu chars): ", printable(f, 60).c_str(), f.size()); bool fits = f.size() + t.root.size() <= 2047;
				if (!p.bad.empty()) e.set("missing-response", desc + p.bad); else if (fits ? p.status != 404 : p.status < 400 || p.status > 499) e.set("missing-status", desc + fmt("status %d", p.status)); else if (p.raw.find(t.mark) != std::string::npos) e.set("content-in-error", desc + "the error contains a file"); else if (now_ns() - t0 > 15000000000ull) e.set("slow-error", desc + "took more than 15 s"); cnt_mt(prompt ? "special_files" : fits ? "missing" : "too_long");
			} else if (kind == 6 && !names.empty()) { // inside, but written unusually: exactly the file, or an error
				std::string f = q.pick(names), g = f; if (f.size() > 1500) continue; static const char* q1[] = { "/./", "//", "/x/../" }; std::size_t sl = f.find('/', q.below(f.size())); if (sl == std::string::npos) sl = 0; g.replace(sl, 1, q1[q.below(3)]); if (q.chance(1, 3)) g += "?q=1"; if (!one(q, "GET", g, text, p)) return; if (p.status == 200 && file_rule(g) && p.body != t.files[f] && p.body.find(t.mark) != std::string::npos) e.set("other-file", "GET " + printable(g, 100) + " returned another file"); cnt_mt("unusual");
			} else { std::string a = attack(q, t), m = q.chance(1, 8) ? "POST" : q.chance(1, 10) ? "get" : "GET"; if (r.by_request == false || lower(a) != "/shutdown") { if (!one(q, m, a, text, p)) return; if (p.none && q.chance(1, 1)) { e.set("no-response", "no response to " + printable(text.substr(0, text.find('\r')), 300)); } cnt_mt("attacks"); if (p.status == 200) cnt_mt("attacks_answered_200"); } }
		} });
		for (auto& x : ts) x.join(); e.raise(); cnt("requests", nt * each);
		// a file that changes while it is served: what is sent is its old or new content, within the promised length
		if (rng.chance(1, 3)) {
			std::string sub = t.dirs[0], f = sub + "changing.bin", p = t.root + f; std::string a(70000 + rng.below(80000), 0), b; for (std::size_t i = 0; i < a.size(); i++) a[i] = static_cast<char>(i * 7 + (i >> 8)); spit(p, a); Conn c; BlockPipe bp; VH_CHECK(c.open(*r.s), "no-connection", "a client could not connect"); std::string text = "GET " + f + " HTTP/1.1\r\n\r\n"; c.send(text.data(), text.size()); char buf[4096]; std::string raw; unsigned how = static_cast<unsigned>(rng.below(3)); std::size_t change_at = rng.below(60000); bool changed = false, eof = false;
			for (;;) { ssize_t k = c.recv(buf, sizeof buf); if (k == 0) { eof = true; break; } if (k < 0) break; raw.append(buf, static_cast<std::size_t>(k)); if (!changed && raw.size() > change_at) { changed = true; if (how == 0) { if (::truncate(p.c_str(), static_cast<off_t>(rng.below(a.size()))) != 0) harness_error("truncate"); } else if (how == 1) { FILE* x = fopen(p.c_str(), "ab"); std::string more(100000, 'Q'); fwrite(more.data(), 1, more.size(), x); fclose(x); } else ::unlink(p.c_str()); } }
			Resp q = parse(raw, eof); VH_CHECK(eof, "changing-stuck", "a response for a changing file never ended"); VH_CHECK(q.status == 200 && q.h["Content-Length"] == std::to_string(a.size()), "changing-length", "a changing file: status %d, %s bytes promised instead of %zu", q.status, q.h["Content-Length"].c_str(), a.size()); VH_CHECK(q.body.size() <= a.size() && a.compare(0, q.body.size(), q.body) == 0, "changing-content", "a changing file: %zu bytes that are not a prefix of its %zu", q.body.size(), a.size()); if (how) VH_CHECK(q.body.size() == a.size(), "changing-short", "only %zu of %zu bytes of a file that %s", q.body.size(), a.size(), how == 1 ? "grew" : "was unlinked"); cnt("changing");
		}
		r.stop(); eval(); for (auto& f : t.files) h = hcomb(h, hstr(f.first)); nontrivial(h);
	}
}
static RegIt r_e02("E02", e02, no_sigpipe_ignore);
#endif // E02

#ifdef E03
namespace {
	struct Attacker { AnyServer& s; Rng q; std::vector<std::unique_ptr<Conn>>& idle; std::map<std::string, u64> n; u64 h = 0; std::vector<std::string> cut;
		// a connection that need not complete a handshake
		bool raw(Conn& c) { c.fd = Conn::dial(s.fam, s.port); if (c.fd < 0) return false; timeval tv{ 3, 0 }; ::setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); ::setsockopt(c.fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv); return true; }
		void leave(Conn& c) { switch (q.below(5)) { case 0: c.reset(); n["resets"]++; break; case 1: c.close(); n["closes"]++; break; case 2: { c.finish_send(); timeval tv{ 0, 300000 }; ::setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); char b[2000]; for (int i = 0; i < 50 && c.recv(b, sizeof b) > 0; i++) { } c.close(); n["half_closes"]++; break; } case 3: { char b[50]; timeval tv{ 0, 20000 }; ::setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); c.recv(b, sizeof b); c.reset(); n["resets"]++; break; } default: ::usleep(static_cast<useconds_t>(q.below(20000))); c.close(); n["closes"]++; } }
		std::string line() { static const char* ms[] = { "GET", "POST", "PUT", "G", "", "GET\t", " GET", "GET GET", "{", "get" }; static const char* rs[] = { "/echo/x", "/files/a.txt", "/files/", "/", "", "*", "http://x/", "/favicon.ico", "/files/%", "/early", "//", "/a b" }; static const char* ps[] = { "HTTP/1.1", "HTTP/1.0", "HTTP/9.9", "HTTP", "", "HTTP/1.1 x", "http/1.1", "HTTP/11111111111111111111.1", "HTTP/", "FTP/1.1", "HTTP/1." }; static const char* e[] = { "\r\n", "\n", "\r", "\r\r\n", "", "\n\r", " \r\n" }; return std::string(ms[q.below(10)]) + (q.chance(1, 12) ? "" : std::string(1 + (q.chance(1, 9) ? q.below(4000) : 0), ' ')) + rs[q.below(12)] + (q.chance(1, 12) ? "" : " ") + ps[q.below(11)] + e[q.below(7)]; }
		void attack() {
			unsigned kind = static_cast<unsigned>(q.below(15)); h = hcomb(h, kind); BlockPipe bp; std::unique_ptr<Conn> cp(new Conn); Conn& c = *cp; const std::string big = "GET /echo/big HTTP/1.1\r\nX-Id: big\r\nX-Reply: " + std::to_string(20000 + q.below(200000)) + "\r\n\r\n";
			if (kind == 0) { for (int i = 0, m = static_cast<int>(1 + q.below(20)); i < m; i++) { Conn d; if (!raw(d)) break; if (q.chance(1, 2)) d.reset(); } n["connect_floods"]++; return; }
			if (kind == 1) { if (!raw(c)) return; if (s.tls && q.chance(1, 2)) c.send("\x16\x03\x01\x02\x00\x01\x00\x01", 1 + q.below(8)); idle.push_back(std::move(cp)); n["idle"]++; return; }
			if (kind == 2 || (s.tls && kind == 3)) { if (!raw(c)) return; std::string t = kind == 3 ? "GET / HTTP/1.1\r\n\r\n" : gen_data(q, q.below(4000)); if (q.chance(1, 4)) t = std::string("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11) + gen_data(q, q.below(600)); c.send(t.data(), t.size()); leave(c); n[s.tls ? "garbage_to_tls" : "garbage"]++; return; }
			if (!c.open(s, 3)) return; if (q.chance(1, 4)) small_buffers(c.fd, q); Req r = gen_req(q, 20000, 2000); std::string t; bool wait = false;
			switch (kind) {
				case 3: { SSL* l = SSL_new(Conn::ctx()); SSL_set_fd(l, c.fd); timeval tv{ 0, 200000 }; ::setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); ERR_clear_error(); SSL_connect(l); SSL_free(l); leave(c); n["tls_to_plain"]++; return; }
				case 4: { std::size_t line = r.text.find("\r\n") + 2; t = r.text.substr(0, q.chance(1, 2) ? q.below(line) : q.below(r.text.size())); n["cut"]++; if (t.size() < line) cut.push_back("/echo/" + r.id); break; }
				case 5: { unsigned part = static_cast<unsigned>(q.below(6)); std::string x(q.chance(1, 2) ? 1 + q.below(5000) : 30 + q.below(5), 'x'); static const std::size_t lim[] = { 31, 32, 33, 2046, 2047, 2048, 2049, 15, 16, 17, 1022, 1023, 1024, 1025 }; if (q.chance(1, 2)) x = std::string(lim[q.below(14)], 'L'); t = part == 0 ? x + " / HTTP/1.1\r\n\r\n" : part == 1 ? "GET /" + x + " HTTP/1.1\r\n\r\n" : part == 2 ? "GET / HTTP/" + std::string(x.size(), '1') + "\r\n\r\n" : part == 3 ? "GET /echo/a HTTP/1.1\r\n" + x + ": v\r\n\r\n" : part == 4 ? "GET /echo/a HTTP/1.1\r\nX-Id: " + x + "\r\n\r\n" : "GET /files/" + x + " HTTP/1.1\r\n\r\n"; wait = q.chance(1, 2); n["overlong"]++; break; }
				case 6: t = "POST /echo/f HTTP/1.1\r\n"; for (std::size_t i = 0, m = q.below(1500); i < m; i++) t += q.chance(1, 30) ? "broken\r\n" : "A" + std::to_string(i) + ": " + token(q, q.below(6)) + "\r\n"; t += "\r\n"; n["header_floods"]++; break;
				case 7: case 8: t = big; n["abandoned_responses"]++; if (q.chance(1, 2)) { c.send(t.data(), t.size()); char b[3000]; for (std::size_t i = 0, m = q.below(20); i < m; i++) if (c.recv(b, sizeof b) <= 0) break; leave(c); return; } break;
				case 9: { static const char* ls[] = { "10", "1000000", "-1", "99999999999999999999999", "abc", "", "4294967296", "0x10" }; t = "POST /echo/l HTTP/1.1\r\nX-Id: l\r\nContent-Length: " + std::string(ls[q.below(8)]) + "\r\n\r\n" + gen_data(q, q.below(2000)); n["lying_lengths"]++; break; }
				case 10: { static const char* es[] = { "/throw", "/throw-odd", "/throw-late" }; t = "POST " + std::string(es[q.below(3)]) + " HTTP/1.1\r\nA: b\r\n\r\n" + gen_data(q, q.below(300)); wait = q.chance(1, 2); n["throwing_handlers"]++; break; }
				case 11: { t = r.text.substr(0, 300); for (char x : t) { c.send(&x, 1); if (q.chance(1, 20)) ::usleep(static_cast<useconds_t>(q.below(3000))); if (c.failed) break; } leave(c); n["drips"]++; return; }
				case 12: for (std::size_t i = 0, m = 2 + q.below(5); i < m; i++) t += gen_req(q, 300, 0).text; n["pipelined"]++; break;
				case 13: { t = r.text; for (std::size_t i = 0, m = 1 + q.below(6); i < m && !t.empty(); i++) { std::size_t at = q.chance(1, 2) ? q.below(std::min<std::size_t>(t.size(), 60)) : q.below(t.size()); switch (q.below(4)) { case 0: t[at] = static_cast<char>(q.next()); break; case 1: t.erase(at, 1 + q.below(5)); break; case 2: t.insert(at, 1, "\0\r\n: /\xff\x7f\t"[q.below(9)]); break; default: t.insert(at, t.substr(q.below(t.size()), q.below(40))); } } n["mutated"]++; break; }
				default: t = line(); if (q.chance(1, 2)) t += line(); if (q.chance(1, 2)) t += "\r\n"; n["odd_lines"]++; wait = q.chance(1, 3);
			}
			c.send(t.data(), t.size()); if (wait) { char b[500]; timeval tv{ 1, 0 }; c.finish_send(); ::setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); for (int i = 0; i < 20 && c.recv(b, sizeof b) > 0; i++) { } c.close(); } else leave(c);
		}
	};
	void e03(u64, Rng& rng) {
		certs(); Conn::ctx(); own_port(AF_INET, SOCK_STREAM); auto fds0 = open_fds(); Run r; std::string root = scratch("e03"); ::mkdir(root.c_str(), 0755); ::mkdir((root + "/files").c_str(), 0755); spit(root + "/files/a.txt", "some text"); begin(r, rng, root, "/files/", false); Errs e; u64 h = r.s->tls;
		unsigned na = static_cast<unsigned>(1 + rng.below(5)), each = static_cast<unsigned>(3 + rng.below(8)); std::vector<std::vector<std::unique_ptr<Conn>>> idle(na); std::vector<std::unique_ptr<Attacker>> as; for (unsigned i = 0; i < na; i++) as.emplace_back(new Attacker{ *r.s, Rng(rng.next()), idle[i], {}, 0, {} });
		std::atomic<unsigned> busy{ na }; std::atomic<u64> probes{ 0 }; std::vector<std::thread> ts; for (unsigned i = 0; i < na; i++) ts.emplace_back([&, i] { for (unsigned k = 0; k < each; k++) as[i]->attack(); busy--; });
		auto probe = [&](Rng& q, const char* when) { BlockPipe bp; Req x = gen_req(q, 2000, 0); Conn c; u64 t0 = now_ns(); if (!c.open(*r.s)) { e.set("bystander-refused", fmt("%s, a well-behaved client could not connect", when)); return false; } Resp p = exchange(c, x.text, q, false, false); std::string b = judge(x, p); if (b.empty()) b = handled(*r.s->st, x); if (!b.empty()) { e.set("bystander-wrong", fmt("%s, the request of a well-behaved client got: ", when) + b); return false; } if (now_ns() - t0 > 15000000000ull) { e.set("bystander-slow", fmt("%s, a well-behaved client was answered only after %.1f s", when, static_cast<double>(now_ns() - t0) / 1e9)); return false; } probes++; return true; };
		u64 seed = rng.next(); ts.emplace_back([&] { Rng q(seed); while (busy && probe(q, "amid hostile clients")) ::usleep(2000); }); for (auto& t : ts) t.join(); e.raise(); Rng q(rng.next()); probe(q, "after hostile clients"); e.raise(); std::size_t held = 0; for (auto& v : idle) held += v.size(); if (held) cnt("probed_while_others_idle");
		if (rng.chance(1, 2)) { // descriptors or threads run out for a while
			bool th = rng.chance(1, 2); int k = static_cast<int>(1 + rng.below(3)); u64 before = faults::failed_accepts + faults::failed_threads; (th ? faults::threads : faults::accepts) = k; u64 t0 = now_ns(); while ((th ? faults::threads : faults::accepts) > 0) { VH_CHECK(now_ns() - t0 < 15000000000ull, "deaf", "the endpoint stopped accepting while %s failed", th ? "thread creation" : "accept"); BlockPipe bp; Conn c; if (c.fd = Conn::dial(r.s->fam, r.s->port), c.fd >= 0) { timeval tv{ 0, 300000 }; ::setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); char b; if (!r.s->tls) raw_send(c.fd, "GET /early HTTP/1.1\r\n\r\n", 23); raw_recv(c.fd, &b, 1); } }
			cnt(th ? "thread_failures" : "accept_failures", faults::failed_accepts + faults::failed_threads - before); probe(q, th ? "after threads could not be created" : "after descriptors ran out"); e.raise();
		}
		if (rng.chance(1, 2)) for (auto& v : idle) v.clear();
		for (auto& a : as) { for (auto& x : a->n) cnt(x.first.c_str(), x.second); h = hcomb(h, a->h); } cnt("probes", probes); std::string port = r.s->port; r.stop(); for (auto& a : as) for (auto& x : a->cut) { cnt("cut_lines"); for (auto& k : r.s->st->recs) VH_CHECK(k.second.resource.compare(0, x.size(), x) != 0, "cut-line-handled", "a request line that ended in the middle was processed, as %s %s", k.second.method.c_str(), printable(k.second.resource, 100).c_str()); } for (auto& v : idle) v.clear();
		auto left = open_fds(); for (int i = 0; i < 30 && left.size() > fds0.size(); i++) { ::usleep(100000); left = open_fds(); } if (left.size() > fds0.size()) { std::string d; for (auto& f : left) if (!fds0.count(f.first)) { sockaddr_storage a; socklen_t l = sizeof a; std::string w; if (::getsockname(f.first, reinterpret_cast<sockaddr*>(&a), &l) == 0) w = " local " + port_of(f.first); l = sizeof a; if (::getpeername(f.first, reinterpret_cast<sockaddr*>(&a), &l) == 0) w += " peer " + std::to_string(ntohs(reinterpret_cast<sockaddr_in*>(&a)->sin_port)); d += fmt(" %d %s%s", f.first, f.second.c_str(), w.c_str()); } vh::fail("descriptors-left", "after the endpoint on port %s and its clients are gone, these descriptors are left open:%s", port.c_str(), d.c_str()); } eval(); nontrivial(h);
	}
}
static RegIt r_e03("E03", e03, no_sigpipe_ignore);
#endif // E03

#ifdef E04
namespace {
	void e04(u64, Rng& rng) {
		if (rng.chance(1, 6)) { // it cannot start
			int fam = pick_family(rng); unsigned how = static_cast<unsigned>(rng.below(3)); std::string port; int lfd = -1; Run r; std::string root = scratch("none"); if (how == 0) lfd = raw_listen(fam, port); else port = how == 1 ? own_port(fam, SOCK_STREAM) : "not-a-port"; begin(r, rng, root, "/files/", false, how == 1 ? 1 : -1, -1, fam, port, false, how == 1 ? scratch("nocert.pem") : certs().cert);
			bool done = r.s->wait(20000); std::string what; if (lfd >= 0) raw_close(lfd); VH_CHECK(done, "start-failure-unsignalled", "an endpoint that cannot start did not complete"); bool ok = r.s->get(what); r.s->destroy(); r.gone = true; VH_CHECK(!ok, "start-failure-hidden", "an endpoint that cannot start completed normally"); cnt("failed_starts"); eval(); nontrivial(hcomb(how, rng.next())); return;
		}
		std::string port; int fam = pick_family(rng);
		for (unsigned round = 0, rounds = static_cast<unsigned>(1 + rng.below(2)); round < rounds; round++) {
			Run r; bool up = rng.chance(3, 4); begin(r, rng, scratch("none"), "/files/", false, -1, -1, fam, port, up); port = r.s->port; if (round) cnt("restarts_on_the_same_port");
			if (!up) { if (rng.chance(1, 2)) ::usleep(static_cast<useconds_t>(rng.below(3000))); r.s->ask_stop(); VH_CHECK(r.s->wait(20000), "shutdown-never-completes", "completion was not signalled after an early shutdown"); std::string what; VH_CHECK(r.s->get(what), "shutdown-failed", "completion was an exception: %s", what.c_str()); r.s->destroy(); r.gone = true; cnt("early_shutdowns"); nontrivial(rng.next()); }
			else e04_traffic(rng, r, rng.chance(1, 3) ? 120000 : 3000); eval();
		}
	}
}
static RegIt r_e04("E04", e04, no_sigpipe_ignore);
#endif // E04

#ifdef E05
namespace {
	void e05(u64, Rng& rng) {
		if (rng.chance(1, 4)) { e01_case(rng, 0, 0, false, 1500, true); cnt("silent_runs"); } // without the log, whose mutex orders what nothing else does
		else if (rng.chance(1, 2)) { e01_case(rng, 0, 1, true, 1500); std::string l = slurp(scratch("ep.log")); cnt("log_lines", static_cast<u64>(std::count(l.begin(), l.end(), '\n'))); cnt("request_runs"); }
		else { Run r; begin(r, rng, scratch("none"), "/files/", true, 0, 1); e04_traffic(rng, r, 3000); cnt("shutdown_runs"); eval(); }
		::unlink(scratch("ep.log").c_str());
	}
}
static RegIt r_e05("E05", e05, no_sigpipe_ignore);
#endif // E05
