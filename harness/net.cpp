// S01 TCP streams, S02 datagrams, S03 TLS, S04 descriptors, S05 vanishing peers.
#include "log.h"
#include "socket.h"
#include "openssl_socket.h"
#include "netutil.h"
#include <sstream>
#include <dlfcn.h>

// ---------------------------------------------------------------- interposed libc calls
// The library's own descriptors are kept in a ledger; the harness' own sockets use raw system calls and are not in it.
namespace ledger {
	std::mutex mtx; std::map<int, u64> open_socks; std::set<int> decoys; std::vector<std::string> errors; u64 opened = 0, closed = 0;
	thread_local int lib = 0;			// > 0 inside a library call
	thread_local u64 inj = 0; thread_local unsigned inj_eintr = 0, inj_short = 0; u64 injected = 0; thread_local unsigned inj_fail = 0;	// fault injection of this thread
	inline bool roll(unsigned in1000) { if (!in1000) return false; inj = mix(inj + 1); if (inj % 1000 < in1000) { __atomic_add_fetch(&injected, 1, __ATOMIC_RELAXED); return true; } return false; }
	inline void error(const std::string& s) { errors.push_back(s); }
	std::set<const void*> ctxs, ssls; u64 tls_handles = 0;	// the library's TLS contexts and sessions
	inline void take(std::set<const void*>& in, const void* p) { std::lock_guard<std::mutex> g(mtx); in.insert(p); tls_handles++; }
	inline void give(std::set<const void*>& in, const void* p) { std::lock_guard<std::mutex> g(mtx); in.erase(p); }
	inline void opened_fd(int fd) { std::lock_guard<std::mutex> g(mtx); open_socks[fd] = ++opened; }
	inline void touch(int fd, const char* what) { if (!lib) return; std::lock_guard<std::mutex> g(mtx); if (decoys.count(fd)) error(std::string(what) + " on a descriptor that belongs to something else"); }
}
#define REAL(name) (reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name)))
extern "C" {
	int socket(int d, int t, int p) { static auto real = REAL(socket); if (ledger::lib && ledger::roll(ledger::inj_fail)) { errno = EMFILE; return -1; } int fd = real(d, t, p); if (fd >= 0 && ledger::lib) ledger::opened_fd(fd); return fd; }
	int accept(int s, sockaddr* a, socklen_t* l) { static auto real = REAL(accept); if (ledger::roll(ledger::inj_eintr)) { errno = EINTR; return -1; } if (ledger::lib && ledger::roll(ledger::inj_fail)) { errno = EMFILE; return -1; } int fd = real(s, a, l); if (fd >= 0 && ledger::lib) ledger::opened_fd(fd); return fd; }
	int close(int fd) {
		static auto real = REAL(close);
		if (ledger::lib) {
			std::lock_guard<std::mutex> g(ledger::mtx);
			if (ledger::open_socks.erase(fd)) ledger::closed++;
			else if (ledger::decoys.count(fd)) { ledger::error("a descriptor that belongs to something else was closed"); return 0; }
			else { int r = static_cast<int>(::syscall(SYS_close, fd)); if (r != 0) ledger::error("a descriptor that is not open was closed"); return r; }
		}
		return real(fd);
	}
	int shutdown(int fd, int how) { static auto real = REAL(shutdown); ledger::touch(fd, "shutdown"); return real(fd, how); }
	ssize_t send(int fd, const void* b, size_t n, int f) { static auto real = REAL(send); ledger::touch(fd, "send"); if (ledger::roll(ledger::inj_eintr)) { errno = EINTR; return -1; } if (n > 1 && ledger::roll(ledger::inj_short)) n = 1 + ledger::inj % (n - 1); return real(fd, b, n, f); }
	ssize_t sendto(int fd, const void* b, size_t n, int f, const sockaddr* a, socklen_t l) { static auto real = REAL(sendto); ledger::touch(fd, "sendto"); if (ledger::roll(ledger::inj_eintr)) { errno = EINTR; return -1; } return real(fd, b, n, f, a, l); }
	ssize_t recv(int fd, void* b, size_t n, int f) { static auto real = REAL(recv); ledger::touch(fd, "recv"); if (ledger::roll(ledger::inj_eintr)) { errno = EINTR; return -1; } if (n > 1 && ledger::roll(ledger::inj_short)) n = 1 + ledger::inj % (n - 1); return real(fd, b, n, f); }
	ssize_t recvfrom(int fd, void* b, size_t n, int f, sockaddr* a, socklen_t* l) { static auto real = REAL(recvfrom); ledger::touch(fd, "recvfrom"); if (ledger::roll(ledger::inj_eintr)) { errno = EINTR; return -1; } return real(fd, b, n, f, a, l); }
	ssize_t write(int fd, const void* b, size_t n) { static auto real = REAL(write); ledger::touch(fd, "write"); if (ledger::lib && ledger::roll(ledger::inj_eintr)) { errno = EINTR; return -1; } return real(fd, b, n); }
	SSL_CTX* SSL_CTX_new(const SSL_METHOD* m) { static auto real = REAL(SSL_CTX_new); if (ledger::lib && ledger::roll(ledger::inj_fail)) return nullptr; SSL_CTX* r = real(m); if (r && ledger::lib) ledger::take(ledger::ctxs, r); return r; }
	void SSL_CTX_free(SSL_CTX* c) { static auto real = REAL(SSL_CTX_free); if (c && ledger::lib) ledger::give(ledger::ctxs, c); real(c); }
	SSL* SSL_new(SSL_CTX* c) { static auto real = REAL(SSL_new); if (ledger::lib && ledger::roll(ledger::inj_fail)) return nullptr; SSL* r = real(c); if (r && ledger::lib) ledger::take(ledger::ssls, r); return r; }
	void SSL_free(SSL* c) { static auto real = REAL(SSL_free); if (c && ledger::lib) ledger::give(ledger::ssls, c); real(c); }
	int SSL_set_fd(SSL* c, int fd) { static auto real = REAL(SSL_set_fd); if (ledger::lib && ledger::roll(ledger::inj_fail)) return 0; return real(c, fd); }
	ssize_t read(int fd, void* b, size_t n) { static auto real = REAL(read); if (ledger::lib && ledger::roll(ledger::inj_eintr)) { errno = EINTR; return -1; } return real(fd, b, n); }
}

namespace {
	struct Lib { Lib() { ledger::lib++; } ~Lib() { ledger::lib--; } };
	struct Inject { Inject(Rng& rng, bool shorts) { ledger::inj = rng.next(); ledger::inj_eintr = rng.chance(1, 2) ? 0 : static_cast<unsigned>(1 + rng.below(60)); ledger::inj_short = shorts && rng.chance(1, 2) ? static_cast<unsigned>(1 + rng.below(500)) : 0; } ~Inject() { ledger::inj_eintr = ledger::inj_short = 0; } };

	// ---- the two kinds of stream sockets
	template <typename L> struct Plain { using Log = L; using Server = abc::tcp_server_socket<L>; using Client = abc::tcp_client_socket<L>; static constexpr bool tls = false;
		static std::unique_ptr<Server> server(Rng&, int fam, L* log) { Lib l; return std::make_unique<Server>(fam, log); } static std::unique_ptr<Client> client(Rng&, int fam, L* log) { Lib l; return std::make_unique<Client>(fam, log); } };
	template <typename L> struct Tls { using Log = L; using Server = abc::openssl_tcp_server_socket<L>; using Client = abc::openssl_tcp_client_socket<L>; static constexpr bool tls = true;
		static std::unique_ptr<Server> server(Rng& rng, int fam, L* log) { auto& c = certs(); Lib l; if (rng.chance(1, 3)) {
			auto& e = c.enc[rng.below(c.enc.size())]; vh::cnt("encrypted_keys");
			try { return std::make_unique<Server>(c.cert.c_str(), e.first.c_str(), std::string(e.second).c_str(), false, fam, log); } catch (const std::exception& x) { vh::fail("encrypted-key-refused", "a server with a key under a password of %zu characters failed: %s", e.second.size(), x.what()); }
		} return std::make_unique<Server>(c.cert.c_str(), c.key.c_str(), rng.chance(1, 2) ? nullptr : "", false, fam, log); }
		static std::unique_ptr<Client> client(Rng&, int fam, L* log) { Lib l; return std::make_unique<Client>(false, fam, log); } };

	template <typename S> inline void lib_bind(S& s, Rng& rng, int fam, const char* at = nullptr) { int type = 0; socklen_t tl = sizeof type; ::getsockopt(s.fd(), SOL_SOCKET, SO_TYPE, &type, &tl); std::string own = at ? at : own_port(fam, type); const char* port = own.c_str(); Lib l; unsigned k = static_cast<unsigned>(rng.below(3)); if (k == 0) s.bind(port); else if (k == 1 || fam == AF_INET6) s.bind(loop(fam), port); else s.bind("localhost", port);
		sockaddr_storage a; socklen_t al = sizeof a; memset(&a, 0, sizeof a); ::getsockname(s.fd(), reinterpret_cast<sockaddr*>(&a), &al); bool any = fam == AF_INET6 ? IN6_IS_ADDR_UNSPECIFIED(&reinterpret_cast<sockaddr_in6*>(&a)->sin6_addr) : reinterpret_cast<sockaddr_in*>(&a)->sin_addr.s_addr == 0; VH_CHECK(a.ss_family == fam && any == (k == 0), "bound-elsewhere", "binding %s (family %d) gave a socket of family %d that is%s bound to every address", k == 0 ? "to a port alone" : "to the loopback address", fam, a.ss_family, any ? "" : " not"); cnt(k == 0 ? "binds_to_every_address" : "binds_to_one_address"); }
	template <typename C> inline void lib_connect(C& c, Rng& rng, int fam, const std::string& port) { unsigned k = static_cast<unsigned>(rng.below(3)); if (k == 0) { auto a = addr_of(fam, port); Lib l; c.connect(a); } else if (k == 1 || fam == AF_INET6) { Lib l; c.connect(loop(fam), port.c_str()); } else { Lib l; c.connect("localhost", port.c_str()); } }

	// a connected pair: the accepted side and the connecting side. `relay`: through a port of the harness
	template <typename P> struct Pair { std::unique_ptr<typename P::Server> server; std::unique_ptr<typename P::Client> a, b; };
	template <typename P> inline void make_pair(Rng& rng, Pair<P>& r, int fam, typename P::Log* log, const std::function<std::string(const std::string&)>& relay = nullptr) {
		r.server = P::server(rng, fam, log); lib_bind(*r.server, rng, fam); { Lib l; r.server->listen(5); } small_buffers(r.server->fd(), rng);
		std::string port = port_of(r.server->fd()); if (relay) port = relay(port);
		r.b = P::client(rng, fam, log); Errs e; u64 seed = rng.next();
		std::thread t([&] { Rng q(seed); try { lib_connect(*r.b, q, fam, port); } catch (const std::exception& ex) { e.set("connect-failed", std::string("connecting to a listening server threw: ") + ex.what()); } });
		try { Lib l; r.a = std::make_unique<typename P::Client>(r.server->accept()); } catch (const std::exception& ex) { e.set("accept-failed", std::string("accepting a pending connection threw: ") + ex.what()); }
		t.join(); e.raise(); small_buffers(r.a->fd(), rng); small_buffers(r.b->fd(), rng);
	}

	struct Tally { std::atomic<u64> raw_writes{ 0 }, stream_writes{ 0 }, raw_reads{ 0 }, stream_reads{ 0 }, moves{ 0 }, eofs{ 0 }; void add() { cnt("raw_writes", raw_writes); cnt("stream_writes", stream_writes); cnt("raw_reads", raw_reads); cnt("stream_reads", stream_reads); cnt("moves", moves); cnt("eofs", eofs); } };

	// sends all of `d`, through the socket or a stream over it
	template <typename C, typename Log> inline void write_all(C& s, Log* log, const std::string& d, Rng rng, Errs& e, Tally& t) {
		Inject inj(rng, true);
		try {
			if (rng.chance(2, 5)) {
				std::size_t o = 0; unsigned stuck = 0;
				while (o < d.size()) {
					std::size_t n = std::min<std::size_t>(d.size() - o, 1 + rng.below(rng.chance(1, 3) ? 5 : rng.chance(1, 2) ? 300 : 70000)); Exact buf(d.substr(o, n)); std::size_t k; { Lib l; k = s.send(buf.p, n); } t.raw_writes++;
					if (k > n) { e.set("send-count", fmt("send() of %zu bytes reported %zu", n, k)); return; } if (k == 0 && ++stuck > 3) { e.set("send-failed", fmt("send() failed on a live connection after %zu of %zu bytes", o, d.size())); return; } if (k) stuck = 0; o += k; nap(rng);
				}
				return;
			}
			using SB = abc::socket_streambuf<C, Log>; auto sb = std::make_unique<SB>(&s, log); std::size_t o = 0; auto os = std::make_unique<std::ostream>(sb.get());
			while (o < d.size()) {
				std::size_t n = std::min<std::size_t>(d.size() - o, 1 + rng.below(rng.chance(1, 2) ? 4 : 400)); Exact buf(d.substr(o, n)); Lib l; t.stream_writes++;
				switch (rng.below(5)) {
				case 0: os->put(buf.p[0]); n = 1; break;
				case 1: if (sb->sputc(buf.p[0]) != static_cast<u8>(buf.p[0])) { e.set("stream-write", "sputc() did not return the character"); return; } n = 1; break;
				case 2: if (sb->sputn(buf.p, static_cast<std::streamsize>(n)) != static_cast<std::streamsize>(n)) { e.set("stream-write", "sputn() wrote less on a live connection"); return; } break;
				default: os->write(buf.p, static_cast<std::streamsize>(n));
				}
				o += n; if (rng.chance(1, 6)) os->flush();
				if (!*os) { e.set("stream-write", fmt("the stream failed on a live connection after %zu of %zu bytes", o, d.size())); return; }
				if (rng.chance(1, 20)) { auto m = std::make_unique<SB>(std::move(*sb)); sb = std::move(m); os = std::make_unique<std::ostream>(sb.get()); t.moves++; }
				nap(rng);
			}
			Lib l; os->flush(); if (!*os) e.set("stream-write", "flush failed on a live connection");
		}
		catch (const std::exception& ex) { e.set("write-threw", std::string("writing on a live connection threw: ") + ex.what()); }
	}
	// reads exactly d.size() bytes and compares; with `to_eof`, then expects the end of the stream
	template <typename C, typename Log> inline void read_all(C& s, Log* log, const std::string& d, bool to_eof, Rng rng, Errs& e, Tally& t) {
		Inject inj(rng, true);
		std::string got; auto differs = [&]() { if (got.size() > d.size() || memcmp(got.data(), d.data(), got.size()) != 0) { std::size_t i = 0; while (i < got.size() && i < d.size() && got[i] == d[i]) i++; e.set("bytes-differ", fmt("received bytes differ from those sent at offset %zu of %zu: got %s, sent %s", i, d.size(), printable(got.substr(i, 8)).c_str(), printable(d.substr(std::min(i, d.size()), 8)).c_str())); return true; } return false; };
		try {
			if (rng.chance(2, 5)) {
				for (;;) {
					std::size_t want = d.size() - got.size(); if (want == 0) { if (!to_eof) return; want = 1 + rng.below(100); }
					std::size_t n = std::min<std::size_t>(to_eof ? want + rng.below(3) : want, 1 + rng.below(rng.chance(1, 3) ? 5 : rng.chance(1, 2) ? 300 : 70000)); if (!n) n = 1; Exact buf(n); std::size_t k; { Lib l; k = s.receive(buf.p, n); } t.raw_reads++;
					if (k > n) { e.set("receive-count", fmt("receive() of %zu bytes reported %zu", n, k)); return; }
					if (k == 0) { if (got.size() == d.size()) { t.eofs++; return; } e.set("bytes-lost", fmt("receive() reported the end after %zu of %zu bytes", got.size(), d.size())); return; }
					got.append(buf.p, k); if (differs()) return; nap(rng);
				}
			}
			using SB = abc::socket_streambuf<C, Log>; auto sb = std::make_unique<SB>(&s, log); auto is = std::make_unique<std::istream>(sb.get());
			for (;;) {
				std::size_t want = d.size() - got.size(); if (want == 0 && !to_eof) return;
				std::size_t n = std::min<std::size_t>(to_eof ? want + 2 : want, 1 + rng.below(rng.chance(1, 2) ? 4 : 400)); bool end = false; Lib l; t.stream_reads++;
				switch (rng.below(6)) {
				case 0: { int c = is->get(); if (c == EOF) end = true; else got += static_cast<char>(c); break; }
				case 1: { int c = sb->sbumpc(); if (c == EOF) end = true; else got += static_cast<char>(c); break; }
				case 2: { Exact buf(n); std::streamsize k = sb->sgetn(buf.p, static_cast<std::streamsize>(n)); if (k < static_cast<std::streamsize>(n)) end = true; got.append(buf.p, static_cast<std::size_t>(k)); break; }
				case 3: { int p = is->peek(); if (p == EOF) { end = true; break; } if (rng.chance(1, 2)) { auto m = std::make_unique<SB>(std::move(*sb)); sb = std::move(m); is = std::make_unique<std::istream>(sb.get()); t.moves++; } int c = is->get(); if (c != p) { e.set("peek-differs", fmt("peek() gave %d, get() %d", p, c)); return; } got += static_cast<char>(c); break; }
				default: { Exact buf(n); is->read(buf.p, static_cast<std::streamsize>(n)); std::size_t k = static_cast<std::size_t>(is->gcount()); if (k < n) { if (!is->eof()) { e.set("short-read", "read() returned less without end-of-stream"); return; } end = true; } got.append(buf.p, k); }
				}
				if (differs()) return;
				if (end) { if (got.size() < d.size() || !to_eof) { e.set("bytes-lost", fmt("the stream ended after %zu of %zu bytes", got.size(), d.size())); return; } t.eofs++; return; }
				nap(rng);
			}
		}
		catch (const std::exception& ex) { e.set("read-threw", std::string("reading on a live connection threw: ") + ex.what()); }
	}
	inline void check_ledger_errors() { std::lock_guard<std::mutex> g(ledger::mtx); if (!ledger::errors.empty()) { std::string s = ledger::errors[0]; ledger::errors.clear(); vh::fail("descriptor-misuse", "%s", s.c_str()); } }

	// forwards bytes both ways in random pieces and remembers them
	struct Relay {
		int lfd = -1, fam; std::string port, to; std::thread th; std::string seen; u64 seed; std::size_t cut = ~0ull; bool flip = false, flipped = false; std::atomic<bool> stop{ false }; int quiet = 0;	// > 0: cuts after that many ms without traffic
		Relay(int f, Rng& rng) : fam(f), seed(rng.next()) { lfd = raw_listen(fam, port); }
		void run() { th = std::thread([this] {
			Rng rng(seed); int a = raw_accept(lfd); if (a < 0) return; int b = raw_connect(fam, to); std::size_t total = 0; pollfd p[2] = { { a, POLLIN, 0 }, { b, POLLIN, 0 } }; int other[2] = { b, a }; bool open[2] = { true, true }; char buf[4096];
			while (open[0] || open[1]) {
				p[0].events = open[0] ? POLLIN : 0; p[1].events = open[1] ? POLLIN : 0; if (!open[0]) p[0].fd = -1; if (!open[1]) p[1].fd = -1; if (::poll(p, 2, quiet ? quiet : 100) <= 0) { if (quiet) { raw_reset(a); raw_reset(b); return; } if (stop || flipped) break; continue; }	// altered lengths may leave both sides waiting
				for (int i = 0; i < 2; i++) if (open[i] && (p[i].revents & (POLLIN | POLLHUP | POLLERR))) {
					std::size_t n = 1 + rng.below(rng.chance(1, 4) ? 7 : sizeof buf); ssize_t k = raw_recv(p[i].fd, buf, n); if (k <= 0) { open[i] = false; ::shutdown(other[i], SHUT_WR); continue; } seen.append(buf, static_cast<std::size_t>(k)); total += static_cast<std::size_t>(k);
					if (total >= cut) { if (flip) { buf[0] = static_cast<char>(buf[0] ^ 0x55); cut = ~0ull; flipped = true; } else { raw_reset(a); raw_reset(b); return; } }
					std::size_t o = 0; while (o < static_cast<std::size_t>(k)) { ssize_t w = raw_send(other[i], buf + o, static_cast<std::size_t>(k) - o); if (w <= 0) { open[i] = false; break; } o += static_cast<std::size_t>(w); } nap(rng);
				}
			}
			raw_close(a); raw_close(b);
		}); }
		~Relay() { stop = true; ::shutdown(lfd, SHUT_RDWR); if (th.joinable()) th.join(); raw_close(lfd); }
	};
	// one streambuf per side, used in both directions and moved at any time, with characters pending in either
	template <typename P> void shuttle(Rng& rng) {
		using Log = typename P::Log; using SB = abc::socket_streambuf<typename P::Client, Log>; LogOf<Log> lg; int fam = pick_family(rng); Pair<P> p; make_pair<P>(rng, p, fam, lg.get()); u64 h = 0; u64 moved_full = 0;
		struct Side { std::unique_ptr<SB> sb; std::string wrote, got; std::size_t flushed = 0; bool pending_get = false; }; Side side[2];
		{ Lib l; side[0].sb = std::make_unique<SB>(p.a.get(), lg.get()); side[1].sb = std::make_unique<SB>(p.b.get(), lg.get()); }
		unsigned steps = static_cast<unsigned>(40 + rng.below(400)); bool by_stream = rng.chance(1, 2);
		for (unsigned i = 0; i < steps; i++) {
			unsigned at = static_cast<unsigned>(rng.below(2)); Side& x = side[at]; Side& y = side[1 - at]; std::size_t avail = y.flushed - x.got.size(); unsigned op = static_cast<unsigned>(rng.below(8)); h = hcomb(h, op * 2 + at);
			Inject inj(rng, true); Lib l; const std::string& src = y.wrote; std::iostream io(x.sb.get());
			auto take = [&](int c, bool advance) { VH_CHECK(c == static_cast<u8>(src[x.got.size()]), "bytes-differ", "character %zu read through a stream used in both directions is %d, %d was written", x.got.size(), c, static_cast<u8>(src[x.got.size()])); if (advance) x.got += static_cast<char>(c); };
			if (op <= 2) { if (x.wrote.size() - y.got.size() > 600) continue; std::size_t n = rng.chance(2, 3) ? 1 : 1 + rng.below(20); for (std::size_t k = 0; k < n; k++) { char c = static_cast<char>(rng.chance(1, 8) ? (rng.chance(1, 2) ? 0xff : 0) : rng.below(256)); if (by_stream) { io.put(c); VH_CHECK(io.good(), "stream-write", "put() failed on a live connection"); } else { int r = x.sb->sputc(c); VH_CHECK(r == static_cast<u8>(c), "stream-write", "sputc(%d) gave %d on a live connection", static_cast<u8>(c), r); } x.wrote += c; } cnt("shuttle_puts", n); }
			else if (op == 3) { if (by_stream) { io.flush(); VH_CHECK(io.good(), "stream-write", "flush() failed on a live connection"); } else VH_CHECK(x.sb->pubsync() == 0, "stream-write", "pubsync() failed on a live connection"); x.flushed = x.wrote.size(); }
			else if (op == 4) { if (!avail) continue; take(x.sb->sgetc(), false); x.pending_get = true; cnt("shuttle_peeks"); }
			else if (op == 5 || op == 6) { if (!avail) continue; std::size_t n = 1 + rng.below(std::min<std::size_t>(avail, 30)); for (std::size_t k = 0; k < n; k++) { if (k + 1 < n && rng.chance(1, 6)) { int c = x.sb->snextc(); x.got += src[x.got.size()]; if (x.got.size() < y.flushed) take(c, false); continue; } take(by_stream ? io.get() : x.sb->sbumpc(), true); } x.pending_get = false; cnt("shuttle_gets", n); }
			else { if (x.pending_get && x.wrote.size() > x.flushed) moved_full++; auto m = std::make_unique<SB>(std::move(*x.sb)); x.sb = std::move(m); cnt("shuttle_moves"); }
		}
		for (auto& x : side) { Lib l; VH_CHECK(x.sb->pubsync() == 0, "stream-write", "pubsync() failed on a live connection"); x.flushed = x.wrote.size(); }
		for (unsigned at = 0; at < 2; at++) { Side& x = side[at]; Side& y = side[1 - at]; Lib l; while (x.got.size() < y.flushed) { int c = x.sb->sbumpc(); VH_CHECK(c == static_cast<u8>(y.wrote[x.got.size()]), "bytes-differ", "character %zu read through a stream used in both directions is %d, %d was written", x.got.size(), c, static_cast<u8>(y.wrote[x.got.size()])); x.got += static_cast<char>(c); } }
		{ Lib l; side[0].sb.reset(); side[1].sb.reset(); p.a.reset(); p.b.reset(); p.server.reset(); } check_ledger_errors(); cnt("moves_with_both_pending", moved_full); cnt("injected", ledger::injected); ledger::injected = 0; cnt("shuttles"); eval(); nontrivial(h);
	}
	// one pair of sockets: half duplex or full duplex, then one side closes and the other sees the end
	template <typename P> void transfer(Rng& rng, std::size_t max, const std::function<std::string(const std::string&)>& relay = nullptr, std::string* sent = nullptr) {
		LogOf<typename P::Log> lg; int fam = pick_family(rng); Pair<P> p; make_pair<P>(rng, p, fam, lg.get(), relay); Errs e; Tally t;
		if (rng.chance(1, 3)) { Lib l; auto m = std::make_unique<typename P::Client>(std::move(*p.a)); p.a = std::move(m); VH_CHECK(p.a->is_open(), "move-lost-socket", "a moved socket is not open"); t.moves++; }
		if (rng.chance(1, 3)) { Lib l; p.server.reset(); }
		std::string d1 = gen_data(rng, rng.below(rng.chance(1, 2) ? 50 : max)), d2 = gen_data(rng, rng.below(rng.chance(1, 2) ? 50 : max)); if (sent) *sent = d1;
		bool duplex = !P::tls && rng.chance(1, 2);
		auto& x = rng.chance(1, 2) ? *p.a : *p.b; auto& y = &x == p.a.get() ? *p.b : *p.a;
		Rng r1(rng.next()), r2(rng.next()), r3(rng.next()), r4(rng.next());
		if (duplex) {
			std::thread w1([&] { write_all(x, lg.get(), d1, r1, e, t); }), w2([&] { write_all(y, lg.get(), d2, r2, e, t); }), q1([&] { read_all(y, lg.get(), d1, false, r3, e, t); }), q2([&] { read_all(x, lg.get(), d2, false, r4, e, t); });
			auto bail = [&](std::thread& th) { th.join(); if (e.any()) { ::shutdown(x.fd(), SHUT_RDWR); ::shutdown(y.fd(), SHUT_RDWR); } }; bail(q1); bail(q2); bail(w1); bail(w2); e.raise(); cnt("duplex");
			d1.clear(); Rng r5(rng.next()); { Lib l; x.close(); } read_all(y, lg.get(), "", true, r5, e, t); e.raise();
		}
		else {
			bool together = rng.chance(2, 3);
			std::thread w([&] { write_all(x, lg.get(), d1, r1, e, t); if (e.any()) ::shutdown(x.fd(), SHUT_RDWR); else if (together) { Lib l; x.close(); } });
			if (rng.chance(1, 4)) { ::usleep(static_cast<useconds_t>(1000 + rng.below(6000))); cnt("late_readers"); }	// the writer may be long gone
			read_all(y, lg.get(), d1, together, r3, e, t); if (e.any()) ::shutdown(y.fd(), SHUT_RDWR); w.join(); e.raise();
			if (!together && rng.chance(1, 2)) { std::thread w2([&] { write_all(y, lg.get(), d2, r2, e, t); if (e.any()) ::shutdown(y.fd(), SHUT_RDWR); }); read_all(x, lg.get(), d2, false, r4, e, t); if (e.any()) ::shutdown(x.fd(), SHUT_RDWR); w2.join(); e.raise(); }
			if (!together) { { Lib l; if (&x == p.a.get()) p.a.reset(); else p.b.reset(); } Rng r5(rng.next()); read_all(y, lg.get(), "", true, r5, e, t); e.raise(); }
		}
		{ Lib l; p.a.reset(); p.b.reset(); p.server.reset(); } check_ledger_errors();
		t.add(); cnt("bytes", d1.size() + d2.size()); cnt("connections"); cnt("injected", ledger::injected); ledger::injected = 0; if (fam == AF_INET6) cnt("ipv6"); eval(); nontrivial(hcomb(hstr(d1), hstr(d2)));
	}
}

#ifdef S01
namespace {
	void s01(u64, Rng& rng) { if (rng.chance(1, 4)) { if (rng.chance(1, 4)) shuttle<Plain<FullLog>>(rng); else shuttle<Plain<NoLog>>(rng); return; } if (rng.chance(1, 4)) transfer<Plain<FullLog>>(rng, 3000); else transfer<Plain<NoLog>>(rng, rng.chance(1, 6) ? 120000 : 12000); }
}
static RegIt r_s01("S01", s01);
#endif // S01

#ifdef S02
namespace {
	template <typename L> void udp_case(Rng& rng) {
		LogOf<L> lg; int fam = pick_family(rng); using U = abc::udp_socket<L>; std::unique_ptr<U> srv; { Lib l; srv = std::make_unique<U>(fam, lg.get()); } lib_bind(*srv, rng, fam); std::string port = port_of(srv->fd());
		timeval tv{ 10, 0 }; ::setsockopt(srv->fd(), SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
		struct Snd { std::unique_ptr<U> s; bool connected; abc::socket::address me; std::string key; };
		auto keyof = [](const abc::socket::address& a) { const char* b = reinterpret_cast<const char*>(&a); if (a.value.sa_family == AF_INET6) { sockaddr_in6 s; memcpy(&s, b, sizeof s); return std::string(reinterpret_cast<char*>(&s.sin6_addr), 16) + std::to_string(s.sin6_port); } sockaddr_in s; memcpy(&s, b, sizeof s); return std::string(reinterpret_cast<char*>(&s.sin_addr), 4) + std::to_string(s.sin_port); };
		std::vector<Snd> snd(1 + rng.below(4)); auto to = addr_of(fam, port);
		for (auto& s : snd) {
			{ Lib l; s.s = std::make_unique<U>(fam, lg.get()); } s.connected = rng.chance(1, 2);
			if (s.connected) lib_connect(*s.s, rng, fam, port); else { std::string port2 = own_port(fam, SOCK_DGRAM); Lib l; s.s->bind(loop(fam), port2.c_str()); }
			if (rng.chance(1, 4)) { Lib l; auto m = std::make_unique<U>(std::move(*s.s)); s.s = std::move(m); cnt("moves"); }
			sockaddr_storage a; socklen_t len = sizeof a; ::getsockname(s.s->fd(), reinterpret_cast<sockaddr*>(&a), &len); memset(&s.me, 0, sizeof s.me); memcpy(static_cast<void*>(&s.me), &a, std::min<std::size_t>(len, sizeof(sockaddr_in6))); s.key = keyof(s.me); ::setsockopt(s.s->fd(), SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
		}
		u64 h = 0; unsigned rounds = static_cast<unsigned>(1 + rng.below(8));
		auto size_of = [&](std::size_t left) { std::size_t n = rng.chance(1, 3) ? rng.below(10) : rng.chance(1, 6) ? rng.below(65508) : rng.below(1500); if (rng.chance(1, 40)) n = fam == AF_INET6 ? 65487 : 65507; return std::min(n, left); };
		auto rx = [&](U& u, const std::string& want, abc::socket::address* from, const char* who) {	// one receive call, one datagram
			std::size_t cap = want.size() + rng.below(rng.chance(1, 2) ? 2 : 500); if (!cap) cap = 1; Exact buf(cap, 0x6b); std::size_t n; { Inject inj(rng, false); Lib l; n = u.receive(buf.p, cap, from); }
			VH_CHECK(n == want.size(), "datagram-size", "%s: a datagram of %zu bytes was received as %zu", who, want.size(), n); VH_CHECK(memcmp(buf.p, want.data(), n) == 0, "datagram-bytes", "%s: a datagram of %zu bytes arrived altered", who, n); for (std::size_t i = n; i < cap; i++) VH_CHECK(buf.p[i] == 0x6b, "datagram-beyond", "%s: bytes beyond the datagram were written", who); cnt("received");
		};
		for (unsigned r = 0; r < rounds; r++) {
			// a batch that fits the kernel's buffer, from one or several threads
			std::size_t left = 65507, k = 1 + rng.below(10); std::vector<std::pair<std::size_t, std::string>> batch; for (std::size_t i = 0; i < k; i++) { std::size_t n = size_of(left); left -= n; batch.push_back({ rng.below(snd.size()), gen_data(rng, n) }); if (left < 2000) break; }
			bool threads = rng.chance(1, 3); std::vector<u64> seeds(snd.size()); for (auto& s : seeds) s = rng.next(); Errs e;
			auto tx = [&](std::size_t i, const std::string& d, Rng& q) { Exact buf(d); Inject inj(q, false); std::size_t n; Lib l; n = snd[i].connected ? snd[i].s->send(buf.p, d.size()) : snd[i].s->send(buf.p, d.size(), &to); if (n != d.size()) e.set("datagram-send", fmt("sending a datagram of %zu bytes reported %zu (errno %d)", d.size(), n, errno)); };
			if (threads) { std::vector<std::thread> ts; for (std::size_t i = 0; i < snd.size(); i++) ts.emplace_back([&, i] { Rng q(seeds[i]); for (auto& b : batch) if (b.first == i) tx(i, b.second, q); }); for (auto& t : ts) t.join(); cnt("threaded_batches"); }
			else for (auto& b : batch) tx(b.first, b.second, rng);
			e.raise(); cnt("sent", batch.size());
			std::vector<std::vector<std::string>> pend(snd.size()); for (auto& b : batch) pend[b.first].push_back(b.second);
			abc::socket::address from; std::size_t maxlen = 0; for (auto& b : batch) maxlen = std::max(maxlen, b.second.size());
			for (std::size_t i = 0; i < batch.size(); i++) {
				if (rng.chance(1, 2)) from = abc::socket::address();
				Exact buf(maxlen + 1, 0x6b); std::size_t n; { Inject inj(rng, false); Lib l; n = srv->receive(buf.p, maxlen + 1, &from); }
				std::string who = keyof(from); std::size_t s = 0; while (s < snd.size() && snd[s].key != who) s++; VH_CHECK(s < snd.size(), "datagram-sender", "a datagram was delivered with an address (family %d) none of the senders has", from.value.sa_family);
				VH_CHECK(!pend[s].empty(), "datagram-extra", "a sender delivered more datagrams than it sent"); std::string want = pend[s].front(); pend[s].erase(pend[s].begin());
				VH_CHECK(n == want.size(), "datagram-size", "a datagram of %zu bytes was received as %zu", want.size(), n); VH_CHECK(memcmp(buf.p, want.data(), n) == 0, "datagram-bytes", "a datagram of %zu bytes arrived altered", n); for (std::size_t j = n; j < maxlen + 1; j++) VH_CHECK(buf.p[j] == 0x6b, "datagram-beyond", "bytes beyond the datagram were written"); cnt("received"); h = hcomb(h, n);
				if (rng.chance(1, 2)) {	// a reply to that address reaches that sender
					std::string reply = gen_data(rng, size_of(30000)); std::size_t k2; { Exact b(reply); Inject inj(rng, false); Lib l; k2 = srv->send(b.p, reply.size(), &from); } VH_CHECK(k2 == reply.size(), "datagram-reply", "replying with %zu bytes to the sender's address reported %zu (errno %d)", reply.size(), k2, errno);
					if (rng.chance(1, 2)) { abc::socket::address f2; rx(*snd[s].s, reply, &f2, "reply"); u16 p2 = 0; memcpy(&p2, reinterpret_cast<const char*>(&f2) + 2, 2); VH_CHECK(std::to_string(ntohs(p2)) == port, "datagram-sender", "a reply was delivered with another address than the server's"); } else rx(*snd[s].s, reply, nullptr, "reply"); cnt("replies");
				}
			}
		}
		if (rng.chance(1, 3)) {	// the server turns to one sender by connecting to the address it received from
			std::size_t s = rng.below(snd.size()); std::string d = gen_data(rng, 1 + rng.below(2000)); { Exact b(d); Lib l; if (snd[s].connected) snd[s].s->send(b.p, d.size()); else snd[s].s->send(b.p, d.size(), &to); } abc::socket::address from; rx(*srv, d, &from, "last"); { Lib l; srv->connect(from); } std::string reply = gen_data(rng, 1 + rng.below(2000)); std::size_t k; { Exact b(reply); Lib l; k = srv->send(b.p, reply.size()); } VH_CHECK(k == reply.size(), "datagram-reply", "sending on the connected socket reported %zu of %zu", k, reply.size()); rx(*snd[s].s, reply, nullptr, "connected reply"); cnt("connected_replies");
		}
		{ Lib l; snd.clear(); srv.reset(); } check_ledger_errors(); if (fam == AF_INET6) cnt("ipv6"); cnt("injected", ledger::injected); ledger::injected = 0; eval(); nontrivial(h);
	}
	void s02(u64, Rng& rng) { if (rng.chance(1, 4)) udp_case<FullLog>(rng); else udp_case<NoLog>(rng); }
}
static RegIt r_s02("S02", s02);
#endif // S02

#ifdef S03
namespace {
	template <typename L> void tls_transfer(Rng& rng) {
		int fam = AF_INET; Relay rl(fam, rng); std::string sent;
		// the family is chosen inside transfer(); the relay listens on IPv4, so pin it
		int save = have6(); have6() = 0;
		struct Restore { int v; ~Restore() { have6() = v; } } restore{ save };
		transfer<Tls<L>>(rng, 3000, [&](const std::string& port) { rl.to = port; rl.run(); return rl.port; }, &sent);
		rl.stop = true; ::shutdown(rl.lfd, SHUT_RDWR); rl.th.join();
		// no piece of the plain text on the wire
		for (std::size_t i = 0; i + 12 <= sent.size(); i += 12) { std::string piece = sent.substr(i, 12); std::set<char> kinds(piece.begin(), piece.end()); if (kinds.size() < 8) continue; VH_CHECK(rl.seen.find(piece) == std::string::npos, "plain-text-on-wire", "12 bytes of the text sent appear on the wire"); cnt("wire_searches"); }
		VH_CHECK(rl.seen.size() > sent.size(), "wire-too-short", "%zu bytes were sent and the wire carried %zu", sent.size(), rl.seen.size()); cnt("wire_bytes", rl.seen.size()); cnt("through_relay");
	}
	// handshakes that must fail, between two that must work
	template <typename L> void tls_refuse(Rng& rng) {
		LogOf<L> lg; using Srv = abc::openssl_tcp_server_socket<L>; using Cli = abc::openssl_tcp_client_socket<L>; int fam = pick_family(rng); auto& c = certs(); std::unique_ptr<Srv> srv;
		{ Lib l; srv = std::make_unique<Srv>(c.cert.c_str(), c.key.c_str(), "", false, fam, lg.get()); } lib_bind(*srv, rng, fam); { Lib l; srv->listen(5); } std::string port = port_of(srv->fd()); u64 h = 0; unsigned n = static_cast<unsigned>(1 + rng.below(5));
		std::unique_ptr<Cli> again;	// a client object whose earlier attempt failed
		auto good = [&](bool reuse) {
			Errs e; std::string d = gen_data(rng, 1 + rng.below(300)); std::unique_ptr<Cli> cl; if (reuse) cl = std::move(again); else { Lib l; cl = std::make_unique<Cli>(false, fam, lg.get()); } if (rng.chance(1, 3)) { Lib l; auto m = std::make_unique<Cli>(std::move(*cl)); cl = std::move(m); cnt("moved_unconnected"); } Tally t; std::unique_ptr<Cli> a; u64 s1 = rng.next(), s2 = rng.next();
			std::thread th([&] { Rng q(s1); try { lib_connect(*cl, q, fam, port); } catch (const std::exception& ex) { e.set("connect-failed", std::string("a good TLS connection after failed ones threw: ") + ex.what()); return; } write_all(*cl, lg.get(), d, q, e, t); });
			try { Lib l; a = std::make_unique<Cli>(srv->accept()); } catch (const std::exception& ex) { e.set("accept-failed", std::string("accepting a good TLS connection after failed ones threw: ") + ex.what()); }
			if (a && !e.any()) { Rng q(s2); read_all(*a, lg.get(), d, false, q, e, t); if (e.any()) ::shutdown(a->fd(), SHUT_RDWR); } th.join(); e.raise(); { Lib l; if (rng.chance(1, 2)) { cl->close(); again = std::move(cl); cnt("clients_kept"); } cl.reset(); a.reset(); } cnt("good_between");
		};
		for (unsigned i = 0; i < n; i++) {
			unsigned k = static_cast<unsigned>(rng.below(6)); h = hcomb(h, k); Errs e; u64 s1 = rng.next();
			if (k == 0) {	// a client that verifies meets a self-signed server
				bool threw = false; std::unique_ptr<Cli> cl; { Lib l; cl = std::make_unique<Cli>(true, fam, lg.get()); } if (rng.chance(1, 3)) { Lib l; auto m = std::make_unique<Cli>(std::move(*cl)); cl = std::move(m); }
				std::thread th([&] { Rng q(s1); try { lib_connect(*cl, q, fam, port); } catch (const std::exception&) { threw = true; } if (!threw) { Lib l; cl->close(); } });
				bool refused = false; try { Lib l; auto a = srv->accept(); char b[8]; (void)a.receive(b, 8); } catch (const std::exception&) { refused = true; } th.join(); VH_CHECK(threw, "untrusted-accepted", "a client that verifies connected to a server with an untrusted certificate"); (void)refused; cnt("untrusted"); Lib l; cl.reset();
			}
			else if (k == 1 || k == 2) {	// garbage, or silence and then an end, to the server
				std::string g = k == 1 ? gen_data(rng, 1 + rng.below(600)) : ""; if (k == 1) { u64 m = rng.below(3); if (m == 0) g = "GET / HTTP/1.1\r\n\r\n" + g; else if (m == 1) g = std::string("\x16\x03\x01", 3) + g; } bool rst = rng.chance(1, 2); int fd = raw_connect(fam, port); if (!g.empty()) raw_send(fd, g.data(), g.size());
				std::thread th([&] { if (rst) { ::usleep(500); raw_reset(fd); } else { ::shutdown(fd, SHUT_WR); char b[512]; while (raw_recv(fd, b, sizeof b) > 0) { } raw_close(fd); } });
				bool threw = false; try { Lib l; auto a = srv->accept(); } catch (const std::exception&) { threw = true; } th.join(); VH_CHECK(threw, "garbage-accepted", "accept() took a peer that did not do a TLS handshake"); cnt("garbage_peers");
			}
			else if (k == 3) {	// a client meets a server that is not TLS
				std::string p2; int lf = raw_listen(fam, p2); std::string g = gen_data(rng, rng.below(600)); bool rst = rng.chance(1, 2);
				std::thread th([&] { int fd = raw_accept(lf); if (fd < 0) return; raw_send(fd, g.data(), g.size()); if (rst) raw_reset(fd); else { ::shutdown(fd, SHUT_WR); char b[512]; while (raw_recv(fd, b, sizeof b) > 0) { } raw_close(fd); } });
				bool threw = false; std::unique_ptr<Cli> cl; { Lib l; cl = std::make_unique<Cli>(rng.chance(1, 2), fam, lg.get()); } try { lib_connect(*cl, rng, fam, p2); } catch (const std::exception&) { threw = true; }
				{ Lib l; cl->close(); } th.join(); raw_close(lf); VH_CHECK(threw, "plain-server-accepted", "connect() took a server that did not do a TLS handshake"); cnt("plain_servers"); Lib l; cl.reset();
			}
			else if (k == 4) {	// servers that cannot be set up
				bool threw = false; unsigned j = static_cast<unsigned>(rng.below(7)); auto& e = c.enc[rng.below(c.enc.size())]; std::string pw = e.second, none = scratch("none.pem");
				if (j == 2) pw = "wrong"; else if (j == 3) pw = std::string(256 + rng.below(3) * 44, 'x'); else if (j == 4) pw += rng.chance(1, 2) ? "x" : pw; else if (j == 5) pw.resize(rng.chance(1, 2) ? pw.size() - 1 : pw.size() / 2);
				try { Lib l; Srv bad(j == 0 ? none.c_str() : j == 6 ? c.other_cert.c_str() : c.cert.c_str(), j == 1 ? none.c_str() : e.first.c_str(), pw.c_str(), false, fam, lg.get()); } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "bad-server-made", "a TLS server was made of a missing file, a wrong password or the key of another certificate (%u)", j); cnt("bad_servers");
			}
			else {	// the connection is cut or altered during or after the handshake
				int f4 = AF_INET; if (fam != f4) continue; Relay rl(f4, rng); rl.to = port; rl.cut = 1 + rng.below(3000); rl.flip = rng.chance(1, 2); rl.run(); std::string d = gen_data(rng, 800); std::unique_ptr<Cli> cl; { Lib l; cl = std::make_unique<Cli>(false, fam, lg.get()); } std::string got; bool done = false;
				std::thread th([&] { Rng q(s1); try { lib_connect(*cl, q, fam, rl.port); for (std::size_t o = 0; o < d.size(); o += 100) { Lib l; if (cl->send(d.data() + o, 100) != 100) break; } } catch (const std::exception&) { } { Lib l; cl->close(); } });
				try { Lib l; auto a = srv->accept(); char b[128]; for (;;) { std::size_t r = a.receive(b, sizeof b); if (r == 0) break; got.append(b, r); } done = true; } catch (const std::exception&) { } th.join(); VH_CHECK(d.compare(0, got.size(), got) == 0, "altered-bytes-delivered", "bytes altered on the way were delivered"); (void)done; cnt("cut_or_altered"); if (rng.chance(1, 2)) { Lib l; again = std::move(cl); } else { Lib l; cl.reset(); }
			}
			if (rng.chance(1, 2)) good(again && rng.chance(2, 3));
		}
		good(again != nullptr); { Lib l; again.reset(); srv.reset(); } check_ledger_errors(); cnt("injected", ledger::injected); ledger::injected = 0; eval(); nontrivial(hcomb(h, 7));
	}
	void s03(u64, Rng& rng) {
		bool full = rng.chance(1, 4);
		if (rng.chance(1, 5)) { if (full) shuttle<Tls<FullLog>>(rng); else shuttle<Tls<NoLog>>(rng); return; }
		switch (rng.below(3)) {
		case 0: if (full) transfer<Tls<FullLog>>(rng, 1500); else transfer<Tls<NoLog>>(rng, rng.chance(1, 4) ? 100000 : 4000); break;
		case 1: if (full) tls_transfer<FullLog>(rng); else tls_transfer<NoLog>(rng); break;
		default: if (full) tls_refuse<FullLog>(rng); else tls_refuse<NoLog>(rng);
		}
	}
}
static RegIt r_s03("S03", s03);
#endif // S03

#ifdef S04
namespace {
	struct Any { int kind = 0; virtual ~Any() { } virtual int fd() = 0; virtual bool open() = 0; virtual void close() = 0; virtual std::unique_ptr<Any> moved() = 0; virtual void bind(const char* h, const char* p) = 0; virtual void listen() { } virtual void connect(const char*, const char*, const abc::socket::address*) { } virtual std::unique_ptr<Any> accept() { return nullptr; } virtual void io(bool, Rng&) { } };
	template <typename T> struct Box : Any {
		T o; int fam;
		template <typename... A> Box(int k, int f, A&&... a) : o(std::forward<A>(a)...), fam(f) { kind = k; }
		int fd() override { return o.fd(); } bool open() override { return o.is_open(); } void close() override { o.close(); } void bind(const char* h, const char* p) override { if (h) o.bind(h, p); else o.bind(p); }
		std::unique_ptr<Any> moved() override { return std::make_unique<Box<T>>(kind, fam, std::move(o)); }
	};
	template <typename T> struct SrvBox : Box<T> { using Box<T>::Box; void listen() override { this->o.listen(5); } std::unique_ptr<Any> moved() override { return std::make_unique<SrvBox<T>>(this->kind, this->fam, std::move(this->o)); } std::unique_ptr<Any> accept() override; };
	template <typename T> struct CliBox : Box<T> { using Box<T>::Box; void connect(const char* h, const char* p, const abc::socket::address* a) override { if (a) this->o.connect(*a); else this->o.connect(h, p); } std::unique_ptr<Any> moved() override { return std::make_unique<CliBox<T>>(this->kind, this->fam, std::move(this->o)); } void io(bool w, Rng& rng) override { char b[64] = {}; if (w) (void)this->o.send(b, 1 + rng.below(64)); else (void)this->o.receive(b, 1 + rng.below(64)); } };
	template <typename T> std::unique_ptr<Any> SrvBox<T>::accept() { using C = decltype(this->o.accept()); return std::make_unique<CliBox<C>>(this->kind == 4 ? 3 : 1, this->fam, this->o.accept()); }

	// the harness' own descriptors leave number 0 to the sockets
	inline int off_zero(int fd) { if (fd != 0) return fd; int hi = ::fcntl(0, F_DUPFD_CLOEXEC, 200); raw_close(0); return hi; }
	template <typename L> void s04_case(Rng& rng) {
		LogOf<L> lg; L* log = lg.get(); int fam = pick_family(rng); auto& c = certs(); std::vector<std::unique_ptr<Any>> objs; std::map<int, std::string> decoys; u64 h = 0; { std::lock_guard<std::mutex> g(ledger::mtx); ledger::open_socks.clear(); ledger::errors.clear(); ledger::opened = ledger::closed = 0; ledger::ctxs.clear(); ledger::ssls.clear(); }
		std::size_t base_fds = count_fds(); std::string lport; int lfd = off_zero(raw_listen(fam, lport)); std::string dead; { int d = raw_listen(fam, dead); raw_close(d); } std::vector<int> raws;
		auto make = [&](unsigned k) -> std::unique_ptr<Any> { Lib l; switch (k) { case 0: return std::make_unique<CliBox<abc::udp_socket<L>>>(0, fam, fam, log); case 1: return std::make_unique<CliBox<abc::tcp_client_socket<L>>>(1, fam, fam, log); case 2: return std::make_unique<SrvBox<abc::tcp_server_socket<L>>>(2, fam, fam, log); case 3: return std::make_unique<CliBox<abc::openssl_tcp_client_socket<L>>>(3, fam, false, fam, log); default: return std::make_unique<SrvBox<abc::openssl_tcp_server_socket<L>>>(4, fam, c.cert.c_str(), c.key.c_str(), "", false, fam, log); } };
		auto check = [&](const char* what) {
			check_ledger_errors(); std::set<int> held; for (auto& o : objs) if (o->open()) { VH_CHECK(held.insert(o->fd()).second, "descriptor-shared", "after %s: two objects hold descriptor %d", what, o->fd()); }
			std::set<int> led; { std::lock_guard<std::mutex> g(ledger::mtx); for (auto& x : ledger::open_socks) led.insert(x.first); }
			if (held.count(0)) cnt("descriptor_zero");
			for (int f : led) VH_CHECK(held.count(f), "descriptor-leaked", "after %s: descriptor %d is open and no socket object holds it", what, f);
			for (int f : held) VH_CHECK(led.count(f), "descriptor-dangling", "after %s: a socket object holds descriptor %d, which it did not open or has closed", what, f);
			for (auto& d : decoys) VH_CHECK(::fcntl(d.first, F_GETFD) >= 0, "descriptor-stolen", "after %s: a descriptor that belongs to something else was closed", what); cnt("ledger_checks");
		};
		auto decoy = [&] { if (decoys.size() > 6 || rng.chance(1, 2)) return; std::string n = scratch("d" + std::to_string(rng.below(1000000))); int fd = off_zero(::open(n.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644)); if (fd < 0) return; decoys[fd] = n; std::lock_guard<std::mutex> g(ledger::mtx); ledger::decoys.insert(fd); cnt("decoys"); };
		unsigned steps = static_cast<unsigned>(5 + rng.below(60)); const char* what = "start";
		try {
			for (unsigned i = 0; i < steps; i++) {
				unsigned op = static_cast<unsigned>(rng.below(12)); h = hcomb(h, op); if (objs.empty() || (op == 0 && objs.size() < 12)) { what = "construction"; if (rng.chance(1, 4)) { ledger::inj = rng.next(); ledger::inj_fail = 400; try { objs.push_back(make(static_cast<unsigned>(3 + rng.below(2)))); } catch (const std::exception&) { cnt("failed_constructions"); } ledger::inj_fail = 0; } else if (rng.chance(1, 4)) { unsigned k = static_cast<unsigned>(rng.below(4)); std::string lng(300, 'x'); try { Lib l; abc::openssl_tcp_server_socket<L> bad(k == 0 ? "none.pem" : c.cert.c_str(), k == 1 ? "none.pem" : k == 2 ? c.other_key.c_str() : c.key.c_str(), k == 3 ? lng.c_str() : "", false, fam, log); } catch (const std::exception&) { cnt("failed_constructions"); } } else objs.push_back(make(static_cast<unsigned>(rng.below(5)))); check(what); continue; }
				if ((op == 8 || op == 9) && objs.size() < 16) { bool any = false; for (auto& x : objs) any = any || x->kind == 2 || x->kind == 4; if (!any || rng.chance(1, 4)) { auto s = make(rng.chance(1, 2) ? 2 : 4); try { Lib l; s->bind(nullptr, "0"); s->listen(); } catch (const std::exception&) { cnt("setup_failures"); } objs.push_back(std::move(s)); } }
				std::size_t at = rng.below(objs.size()); if (op == 8 || op == 9) for (unsigned z = 0; z < 64 && !((objs[at]->kind == 2 || objs[at]->kind == 4) && objs[at]->open()); z++) at = rng.below(objs.size());
				Any& o = *objs[at]; h = hcomb(h, static_cast<u64>(o.kind)); bool threw = false;
				ledger::inj = rng.next(); ledger::inj_fail = rng.chance(1, 6) ? 300 : 0; cnt("ops");
				try {
					switch (op) {
					case 1: { what = "destruction"; { Lib l; objs.erase(objs.begin() + static_cast<std::ptrdiff_t>(at)); } decoy(); cnt("destroys"); break; }
					case 2: { what = "close"; bool was = o.open(); { Lib l; o.close(); if (rng.chance(1, 3)) o.close(); } VH_CHECK(!o.open(), "close-still-open", "a closed socket is still open"); if (was) cnt("closes"); decoy(); break; }
					case 3: { what = "move"; bool was = o.open(); int f = o.fd(); std::unique_ptr<Any> m; { Lib l; m = o.moved(); } VH_CHECK(!o.open(), "moved-from-open", "a moved-from socket is still open"); VH_CHECK(m->open() == was && (!was || m->fd() == f), "move-lost-socket", "moving did not transfer the descriptor"); if (rng.chance(1, 2)) { Lib l; objs[at] = std::move(m); } else objs.push_back(std::move(m)); cnt("moves"); break; }
					case 4: { what = "bind"; unsigned k = static_cast<unsigned>(rng.below(5)); bool was = o.open(); try { Lib l; if (k == 4) o.bind(fam == AF_INET6 ? "2001:db8::1" : "192.0.2.1", "0"); else if (k == 0) o.bind(loop(fam), lport.c_str()); else if (k == 1) o.bind(loop(fam == AF_INET ? AF_INET6 : AF_INET), "0"); else if (k == 2) o.bind(loop(fam), "noport"); else o.bind(rng.chance(1, 2) ? nullptr : loop(fam), "0"); cnt("binds"); }
						catch (const std::exception&) { if (was) throw; cnt("bind_failures"); VH_CHECK(!o.open(), "bind-left-open", "a socket whose bind() failed is still open"); if (k != 3 && rng.chance(1, 2)) { ledger::inj_fail = 0; try { Lib l; o.bind(loop(fam), "0"); } catch (const std::exception& ex) { vh::fail("bind-again", "binding to a free port after a bind() that failed threw: %s", ex.what()); } cnt("binds_again"); } throw; } break; }
					case 5: { what = "listen"; Lib l; o.listen(); break; }
					case 6: case 7: {
						if (o.kind == 2 || o.kind == 4) break; what = "connect"; unsigned k = static_cast<unsigned>(rng.below(4)); std::string port = k == 0 ? dead : lport; auto a = addr_of(fam, port); bool by_addr = rng.chance(1, 2); std::thread t; std::atomic<bool> over{ false };
						bool was = o.open();
						if (o.kind == 3 && k != 0) { bool rst = rng.chance(1, 2); t = std::thread([&, rst] { pollfd p{ lfd, POLLIN, 0 }; while (::poll(&p, 1, 3) <= 0) if (over) return; int f = raw_accept(lfd); if (f < 0) return; raw_send(f, "garbage\r\n\r\n", 11); if (rst) raw_reset(f); else { ::shutdown(f, SHUT_WR); timeval tv{ 0, 5000 }; ::setsockopt(f, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); char b[600]; while (raw_recv(f, b, sizeof b) > 0) { } raw_close(f); } }); }
						try { Lib l; if (by_addr) o.connect(nullptr, nullptr, &a); else if (k == 3) o.connect(loop(fam), "noport", nullptr); else o.connect(loop(fam), port.c_str(), nullptr); cnt("connected"); } catch (const std::exception&) { threw = true; cnt("connect_failures"); if (o.kind == 3 && rng.chance(1, 2)) { Lib l; o.close(); } }
						over = true; if (t.joinable()) t.join(); (void)was; break;
					}
					case 8: case 9: {	// accept a pending connection
						if ((o.kind != 2 && o.kind != 4) || !o.open()) break; what = "accept"; int on = 0; socklen_t ol = sizeof on; if (::getsockopt(o.fd(), SOL_SOCKET, SO_ACCEPTCONN, &on, &ol) != 0 || !on) { try { Lib l; auto a = o.accept(); objs.push_back(std::move(a)); } catch (const std::exception&) { cnt("accept_failures"); } break; }
						std::string port = port_of(o.fd());
						if (o.kind == 2) { int f = raw_connect(fam, port); raws.push_back(f); std::unique_ptr<Any> a; { Lib l; a = o.accept(); } objs.push_back(std::move(a)); cnt("accepted"); }
						else if (rng.chance(1, 2)) { int f = raw_connect(fam, port); raw_send(f, "hello\r\n", 7); raw_reset(f); std::unique_ptr<Any> a; try { Lib l; a = o.accept(); } catch (const std::exception&) { cnt("handshake_failures"); } if (a) objs.push_back(std::move(a)); }
						else { std::unique_ptr<Any> cl = make(3), a; ledger::inj_fail = 0; std::atomic<bool> done{ false }; std::thread t([&] { try { Lib l; cl->connect(loop(fam), port.c_str(), nullptr); } catch (const std::exception&) { Lib l; cl->close(); } done = true; }); while (!a && !done) { pollfd p{ o.fd(), POLLIN, 0 }; if (::poll(&p, 1, 20) <= 0) continue; try { Lib l; a = o.accept(); } catch (const std::exception&) { } } t.join(); if (a) { objs.push_back(std::move(a)); cnt("accepted_tls"); } objs.push_back(std::move(cl)); }
						break;
					}
					case 10: {	// a little traffic on what is connected
						if (o.kind == 2 || o.kind == 4) break; what = "send"; sockaddr_storage pa; socklen_t pl = sizeof pa; if (o.open() && ::getpeername(o.fd(), reinterpret_cast<sockaddr*>(&pa), &pl) != 0) break; Lib l; o.io(true, rng); cnt("sends"); break;
					}
					default: break;
					}
				}
				catch (const CaseAbort&) { throw; }
				catch (const std::exception&) { threw = true; cnt("refused"); decoy(); }
				ledger::inj_fail = 0; (void)threw;
				for (;;) { pollfd p{ lfd, POLLIN, 0 }; if (::poll(&p, 1, 0) <= 0) break; int f = raw_accept(lfd); if (f >= 0) raws.push_back(f); }
				check(what);
			}
		}
		catch (...) { ledger::inj_fail = 0; for (int f : raws) raw_close(f); raw_close(lfd); { std::lock_guard<std::mutex> g(ledger::mtx); ledger::decoys.clear(); } for (auto& d : decoys) raw_close(d.first); throw; }
		{ Lib l; objs.clear(); } for (int f : raws) raw_close(f); raw_close(lfd); check("the end");
		bool touched = false; { std::lock_guard<std::mutex> g(ledger::mtx); ledger::decoys.clear(); } for (auto& d : decoys) { if (file_size(d.second) != 0) touched = true; raw_close(d.first); ::unlink(d.second.c_str()); } VH_CHECK(!touched, "foreign-descriptor-written", "a file that got a closed socket's descriptor number was written to");
		std::size_t now = count_fds(); VH_CHECK(now == base_fds, "descriptor-leaked", "%zu descriptors open before, %zu after", base_fds, now); { std::lock_guard<std::mutex> g(ledger::mtx); VH_CHECK(ledger::opened == ledger::closed, "descriptor-count", "%llu descriptors opened, %llu closed", (unsigned long long)ledger::opened, (unsigned long long)ledger::closed); VH_CHECK(ledger::ctxs.empty() && ledger::ssls.empty(), "tls-handle-leaked", "%zu TLS contexts and %zu TLS sessions were not freed", ledger::ctxs.size(), ledger::ssls.size()); cnt("opened", ledger::opened); cnt("tls_handles", ledger::tls_handles); ledger::tls_handles = 0; }
		eval(); nontrivial(h);
	}
	void s04(u64, Rng& rng) { StdinClosed z(rng.chance(1, 4)); if (rng.chance(1, 5)) s04_case<FullLog>(rng); else s04_case<NoLog>(rng); }
}
static RegIt r_s04("S04", s04);
#endif // S04

#ifdef S05
namespace {
	// what the raw peer does to a connection
	struct Script { std::size_t give = 0, take = 0; unsigned end = 0; unsigned wait = 0; };	// end: 0 reset, 1 close (unread data may reset), 2 half-close, then close
	inline void run_script(int fd, const std::string& d, const Script& s) { std::size_t o = 0, got = 0; char b[700]; while (o < s.give) { ssize_t k = raw_send(fd, d.data() + o, std::min<std::size_t>(s.give - o, 900)); if (k <= 0) break; o += static_cast<std::size_t>(k); } timeval tv{ 0, 20000 }; ::setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); while (got < s.take) { ssize_t k = raw_recv(fd, b, std::min<std::size_t>(sizeof b, s.take - got)); if (k <= 0) break; got += static_cast<std::size_t>(k); } if (s.wait) ::usleep(s.wait); if (s.end == 0) raw_reset(fd); else if (s.end == 1) raw_close(fd); else { ::shutdown(fd, SHUT_WR); ::usleep(1000); raw_close(fd); } }
	inline Script gen_script(Rng& rng, std::size_t n) { Script s; s.give = rng.below(n + 1); s.take = rng.chance(1, 2) ? 0 : rng.below(3000); s.end = static_cast<unsigned>(rng.below(3)); s.wait = rng.chance(1, 2) ? 0 : static_cast<unsigned>(rng.below(3000)); return s; }
	// the library side: reads to the end and writes until it fails, in some order, through socket or stream
	template <typename C, typename Log> void survive(C& s, Log* log, const std::string& may_get, Rng& rng, const char* kind) {
		using SB = abc::socket_streambuf<C, Log>; std::string got; bool stream = rng.chance(1, 2), first_read = rng.chance(1, 2); std::string what; u64 sent = 0;
		auto reads = [&] { try { if (stream) { SB sb(&s, log); std::istream is(&sb); char b[300]; Lib l; while (is) { is.read(b, static_cast<std::streamsize>(1 + rng.below(sizeof b))); got.append(b, static_cast<std::size_t>(is.gcount())); if (got.size() > may_get.size() + 10) break; } cnt("stream_ends"); } else { char b[300]; Lib l; for (;;) { std::size_t n = 1 + rng.below(sizeof b), k = s.receive(b, n); VH_CHECK(k <= n, "receive-count", "receive() of %zu bytes reported %zu", n, k); if (k == 0) break; got.append(b, k); if (got.size() > may_get.size() + 10) break; } cnt("receive_ends"); } } catch (const CaseAbort&) { throw; } catch (const std::exception&) { cnt("exceptions"); }
			VH_CHECK(got.size() <= may_get.size() && may_get.compare(0, got.size(), got) == 0, "invented-bytes", "%s: after the peer vanished %zu bytes were received that are not what it sent (%zu)", kind, got.size(), may_get.size()); };
		auto writes = [&] { bool failed = false; std::string d(2000, 'w'); u64 t0 = now_ns(); try { if (stream) { SB sb(&s, log); std::ostream os(&sb); Lib l; while (now_ns() - t0 < 8000000000ull) { os.write(d.data(), static_cast<std::streamsize>(1 + rng.below(d.size()))); os.flush(); if (!os) { failed = true; break; } sent++; } cnt("stream_failures"); } else { Lib l; while (now_ns() - t0 < 8000000000ull) { std::size_t n = 1 + rng.below(d.size()), k = s.send(d.data(), n); VH_CHECK(k <= n, "send-count", "send() of %zu bytes reported %zu", n, k); if (k == 0) { failed = true; break; } sent++; if (sent % 64 == 0) ::usleep(50); } cnt("send_failures"); } } catch (const CaseAbort&) { throw; } catch (const std::exception&) { failed = true; cnt("exceptions"); }
			VH_CHECK(failed, "failure-not-reported", "%s: sending to a vanished peer kept succeeding for 8 s (%llu sends)", kind, (unsigned long long)sent); };
		if (first_read) { reads(); writes(); } else { writes(); reads(); }
		if (rng.chance(1, 2)) writes(); if (rng.chance(1, 2)) reads();
	}
	template <typename P> void s05_case(Rng& rng) {
		using Log = typename P::Log; using Cli = typename P::Client; LogOf<Log> lg; int fam = P::tls ? AF_INET : pick_family(rng); int save = have6(); if (P::tls) have6() = 0; struct Restore { int v; ~Restore() { have6() = v; } } restore{ save };
		Pair<P> other; if (rng.chance(1, 2)) make_pair<P>(rng, other, fam, lg.get());	// a bystander
		unsigned n = static_cast<unsigned>(1 + rng.below(4)); u64 h = 0; auto srv = P::server(rng, fam, lg.get()); lib_bind(*srv, rng, fam); { Lib l; srv->listen(5); } std::string port = port_of(srv->fd());
		for (unsigned i = 0; i < n; i++) {
			std::string d = gen_data(rng, 1 + rng.below(3000)); Script sc = gen_script(rng, d.size()); h = hcomb(h, hcomb(sc.give, sc.take * 3 + sc.end)); cnt("vanished_peers"); cnt(sc.end == 0 ? "resets" : sc.end == 1 ? "closes" : "half_closes");
			if (!P::tls) {
				bool as_server = rng.chance(1, 2); std::unique_ptr<Cli> s; int fd; std::thread t;
				if (as_server) { fd = raw_connect(fam, port); bool early = rng.chance(1, 3); if (early) run_script(fd, d, sc); try { Lib l; s = std::make_unique<Cli>(srv->accept()); } catch (const std::exception& ex) { vh::fail("accept-failed", "accept() failed because a peer vanished: %s", ex.what()); } if (!early) t = std::thread([&, fd] { run_script(fd, d, sc); }); }
				else { std::string p2; int lf = raw_listen(fam, p2); t = std::thread([&, lf] { int f = raw_accept(lf); raw_close(lf); if (f >= 0) run_script(f, d, sc); }); s = P::client(rng, fam, lg.get()); lib_connect(*s, rng, fam, p2); }
				struct Join { std::thread& t; ~Join() { if (t.joinable()) t.join(); } }; { Join j{ t }; survive(*s, lg.get(), d.substr(0, sc.give), rng, "plain"); } Lib l; s.reset();
			}
			else {	// through a relay that cuts the connection somewhere in or after the handshake
				Relay rl(fam, rng); rl.to = port; rl.cut = 1 + rng.below(rng.chance(1, 3) ? 1500 : 8000); rl.quiet = static_cast<int>(10 + rng.below(40)); rl.run(); auto c = P::client(rng, fam, lg.get()); u64 s1 = rng.next(); Errs e; bool up = false; std::string text(200000, 't');
				std::thread t([&] { Rng q(s1); try { lib_connect(*c, q, fam, rl.port); up = true; } catch (const std::exception&) { cnt_mt("handshakes_cut"); { Lib l; c->close(); } return; } try { survive(*c, lg.get(), d, q, "TLS client"); } catch (const CaseAbort&) { } });
				std::unique_ptr<Cli> a; try { Lib l; a = std::make_unique<Cli>(srv->accept()); } catch (const std::exception&) { }
				if (a) { std::string in; if (rng.chance(1, 2)) { Lib l; (void)a->send(d.data(), d.size()); } try { Lib l; char b[500]; std::size_t k; while ((k = a->receive(b, sizeof b)) > 0) in.append(b, k); while (a->send(b, sizeof b) > 0) { } } catch (const std::exception&) { } cnt_mt("tls_survived"); }
				t.join(); { Lib l; a.reset(); c.reset(); }
			}
			if (other.a) { Errs e; Tally t; std::string b = gen_data(rng, 200); Rng r1(rng.next()), r2(rng.next()); bool dir = rng.chance(1, 2); auto& x = dir ? *other.a : *other.b; auto& y = dir ? *other.b : *other.a; write_all(x, lg.get(), b, r1, e, t); if (!e.any()) read_all(y, lg.get(), b, false, r2, e, t); e.raise(); cnt("bystander_checks"); }
		}
		{ Lib l; other.a.reset(); other.b.reset(); other.server.reset(); srv.reset(); } check_ledger_errors(); eval(); nontrivial(h);
	}
	void s05(u64, Rng& rng) { if (rng.chance(1, 3)) { if (rng.chance(1, 4)) s05_case<Tls<FullLog>>(rng); else s05_case<Tls<NoLog>>(rng); } else if (rng.chance(1, 4)) s05_case<Plain<FullLog>>(rng); else s05_case<Plain<NoLog>>(rng); }
	void s05_init() { ::signal(SIGPIPE, SIG_DFL); sigset_t s; sigemptyset(&s); sigaddset(&s, SIGPIPE); pthread_sigmask(SIG_UNBLOCK, &s, nullptr); }
}
static RegIt r_s05("S05", s05, s05_init);
#endif // S05
