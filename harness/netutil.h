// Pieces shared by the monitors that use the network: raw peers, certificates, ports, logs.
#pragma once
#include "socket.h"
#include "vh.h"
#include <memory>
#include <thread>
#include <istream>
#include <ostream>
#include <cstddef>
#include <poll.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <openssl/err.h>
using namespace vh;

namespace {
	struct NullBuf : std::streambuf { int_type overflow(int_type c) override { return traits_type::not_eof(c); } std::streamsize xsputn(const char*, std::streamsize k) override { return k; } };
	using FullLog = abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter>;
	template <typename Log> struct LogOf { Log* get() { return nullptr; } };
	template <> struct LogOf<FullLog> { NullBuf nb; abc::log_filter f; FullLog l; LogOf() : f(abc::severity::abc::debug), l(&nb, &f) {} FullLog* get() { return &l; } };
	using NoLog = abc::null_log;

	// what threads of a case report
	struct Errs { std::mutex m; std::string key, msg; void set(const char* k, const std::string& s) { std::lock_guard<std::mutex> g(m); if (key.empty()) { key = k; msg = s; } } bool any() { std::lock_guard<std::mutex> g(m); return !key.empty(); } void raise() { if (!key.empty()) vh::fail(key.c_str(), "%s", msg.c_str()); } };

	inline int& have6() { static int h = -1; if (h < 0) { int fd = static_cast<int>(::syscall(SYS_socket, AF_INET6, SOCK_STREAM, 0)); sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; h = fd >= 0 && ::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0; if (fd >= 0) ::syscall(SYS_close, fd); } return h; }
	inline int pick_family(Rng& rng) { return have6() && rng.chance(1, 3) ? AF_INET6 : AF_INET; }
	inline const char* loop(int fam) { return fam == AF_INET6 ? "::1" : "127.0.0.1"; }
	inline std::string port_of(int fd) { sockaddr_storage a; socklen_t l = sizeof a; if (::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l) != 0) harness_error("getsockname"); return std::to_string(ntohs(a.ss_family == AF_INET6 ? reinterpret_cast<sockaddr_in6*>(&a)->sin6_port : reinterpret_cast<sockaddr_in*>(&a)->sin_port)); }
	inline abc::socket::address addr_of(int fam, const std::string& port) { abc::socket::address a; memset(&a, 0, sizeof a); if (fam == AF_INET6) { sockaddr_in6 s{}; s.sin6_family = AF_INET6; s.sin6_addr = in6addr_loopback; s.sin6_port = htons(static_cast<u16>(atoi(port.c_str()))); memcpy(static_cast<void*>(&a), &s, sizeof s); a.size = sizeof s; } else { sockaddr_in s{}; s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(INADDR_LOOPBACK); s.sin_port = htons(static_cast<u16>(atoi(port.c_str()))); memcpy(static_cast<void*>(&a), &s, sizeof s); a.size = sizeof s; } return a; }
	// raw peers of the harness
	inline int raw_close(int fd) { return static_cast<int>(::syscall(SYS_close, fd)); }
	inline int raw_connect(int fam, const std::string& port) { int fd = static_cast<int>(::syscall(SYS_socket, fam, SOCK_STREAM | SOCK_CLOEXEC, 0)); auto a = addr_of(fam, port); if (fd < 0 || ::connect(fd, &a.value, a.size) != 0) harness_error("raw connect: " + std::string(strerror(errno))); return fd; }
	inline int raw_listen(int fam, std::string& port) { int fd = static_cast<int>(::syscall(SYS_socket, fam, SOCK_STREAM | SOCK_CLOEXEC, 0)); auto a = addr_of(fam, "0"); if (fd < 0 || ::bind(fd, &a.value, a.size) != 0 || ::listen(fd, 16) != 0) harness_error("raw listen"); port = port_of(fd); return fd; }
	inline int raw_accept(int fd) { int r; do { r = static_cast<int>(::syscall(SYS_accept4, fd, nullptr, nullptr, SOCK_CLOEXEC)); } while (r < 0 && errno == EINTR); return r; }
	inline ssize_t raw_send(int fd, const void* b, std::size_t n) { return ::syscall(SYS_sendto, fd, b, n, MSG_NOSIGNAL, nullptr, 0); }
	inline ssize_t raw_recv(int fd, void* b, std::size_t n) { return ::syscall(SYS_recvfrom, fd, b, n, 0, nullptr, nullptr); }
	inline void raw_reset(int fd) { linger l{ 1, 0 }; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); raw_close(fd); }
	inline void small_buffers(int fd, Rng& rng) { if (rng.chance(1, 2)) { int n = static_cast<int>(1 + rng.below(8000)); ::setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); } if (rng.chance(1, 3)) { int n = static_cast<int>(100 + rng.below(1400)); ::setsockopt(fd, IPPROTO_TCP, TCP_MAXSEG, &n, sizeof n); } }
	inline void nap(Rng& rng) { if (rng.chance(1, 40)) ::usleep(static_cast<useconds_t>(rng.below(800))); else if (rng.chance(1, 10)) std::this_thread::yield(); }
	inline std::string gen_data(Rng& rng, std::size_t n) { unsigned k = static_cast<unsigned>(rng.below(4)); std::string s(n, 0); for (auto& c : s) c = k == 0 ? static_cast<char>(rng.next()) : k == 1 ? "\xff\0\xfe\n"[rng.below(4)] : k == 2 ? static_cast<char>('a' + rng.below(26)) : static_cast<char>(0x80 + rng.below(128)); return s; }

	// ---- certificates (made once per process)
	struct Certs { std::string cert, key, enc_key, password, other_cert, other_key; std::vector<std::pair<std::string, std::string>> enc; };
	inline void make_cert(const std::string& cert, const std::string& key, const std::vector<std::pair<std::string, std::string>>& encs) {
		EVP_PKEY* pk = EVP_EC_gen("P-256"); X509* x = X509_new(); if (!pk || !x) harness_error("cert");
		X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 1); X509_gmtime_adj(X509_getm_notBefore(x), -86400); X509_gmtime_adj(X509_getm_notAfter(x), 86400 * 30L); X509_set_pubkey(x, pk);
		X509_NAME* n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>("localhost"), -1, -1, 0); X509_set_issuer_name(x, n); if (!X509_sign(x, pk, EVP_sha256())) harness_error("sign");
		FILE* f = fopen(cert.c_str(), "w"); PEM_write_X509(f, x); fclose(f); f = fopen(key.c_str(), "w"); PEM_write_PrivateKey(f, pk, nullptr, nullptr, 0, nullptr, nullptr); fclose(f);
		for (auto& e : encs) { f = fopen(e.first.c_str(), "w"); if (!f || PEM_write_PrivateKey(f, pk, EVP_aes_128_cbc(), reinterpret_cast<const unsigned char*>(e.second.data()), static_cast<int>(e.second.size()), nullptr, nullptr) != 1) harness_error("key"); fclose(f); }
		X509_free(x); EVP_PKEY_free(pk);
	}
	inline Certs& certs() { static Certs* c = nullptr; if (!c) { c = new Certs; c->cert = scratch("c.pem"); c->key = scratch("k.pem"); c->enc_key = scratch("e.pem"); c->password = "pa55 w0rd"; c->other_key = scratch("k2.pem"); c->other_cert = scratch("c2.pem"); c->enc.push_back({ c->enc_key, c->password });
		// Keys encrypted with passwords up to the longest one the library takes.
		for (std::size_t n : { 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255 }) { std::string pw; for (std::size_t i = 0; i < n; i++) pw += static_cast<char>(33 + (i * 7 + n) % 94); c->enc.push_back({ scratch("e" + std::to_string(n) + ".pem"), pw }); }
		make_cert(c->cert, c->key, c->enc); make_cert(c->other_cert, c->other_key, {}); } return *c; }

	// A port nobody else has: the library sets SO_REUSEADDR, with which two sockets may be given the same ephemeral port. Each process takes a range (held through an abstract name) below the ephemeral ones.
	inline std::string own_port(int fam, int type) {
		static int range = -1; static unsigned next = 0;
		if (range < 0) { int fd = static_cast<int>(::syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0)); for (int i = 0; i < 40 && range < 0; i++) { sockaddr_un u{}; u.sun_family = AF_UNIX; std::string n = "vh-abc-ports-" + std::to_string(i); memcpy(u.sun_path + 1, n.data(), n.size()); if (::bind(fd, reinterpret_cast<sockaddr*>(&u), static_cast<socklen_t>(offsetof(sockaddr_un, sun_path) + 1 + n.size())) == 0) range = i; } if (range < 0) range = 40; next = static_cast<unsigned>(mix(static_cast<u64>(getpid())) % 500); }
		for (unsigned i = 0; i < 2000 && range < 40; i++) {
			std::string port = std::to_string(10000 + range * 500 + static_cast<int>(next++ % 500)); int fd = static_cast<int>(::syscall(SYS_socket, fam, type | SOCK_CLOEXEC, 0)); if (type == SOCK_STREAM) { int on = 1; ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); }
			sockaddr_in6 a6{}; a6.sin6_family = AF_INET6; sockaddr_in a4{}; a4.sin_family = AF_INET; a4.sin_port = a6.sin6_port = htons(static_cast<u16>(atoi(port.c_str()))); bool ok = ::bind(fd, fam == AF_INET6 ? reinterpret_cast<sockaddr*>(&a6) : reinterpret_cast<sockaddr*>(&a4), fam == AF_INET6 ? sizeof a6 : sizeof a4) == 0 && (type != SOCK_STREAM || ::listen(fd, 1) == 0); raw_close(fd); if (ok) return port;
		}
		return "0";
	}
}
