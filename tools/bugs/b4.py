NET = r'''
#include "log.h"
#include "socket.h"
#include "openssl_socket.h"
#include "endpoint.h"
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <string>
#include <thread>
#include <chrono>
#include <vector>
#include <set>
#include <fstream>
#include <functional>
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
using namespace abc;
using Log = log_ostream<debug_line_ostream<>, log_filter>;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s line %d\n", #c, __LINE__); std::fflush(stdout); _exit(1); } } while (0)
static std::string free_port(int family = AF_INET) {
	int fd = ::socket(family, SOCK_STREAM, 0); sockaddr_in6 a6{}; sockaddr_in a4{}; socklen_t n; int p;
	a4.sin_family = AF_INET; a4.sin_addr.s_addr = htonl(INADDR_LOOPBACK); n = sizeof a4; (void)a6;
	::bind(fd, reinterpret_cast<sockaddr*>(&a4), n); ::getsockname(fd, reinterpret_cast<sockaddr*>(&a4), &n); p = ntohs(a4.sin_port); ::close(fd); (void)family; return std::to_string(p);
}
static int raw_connect(const std::string& port) {
	for (int i = 0; i < 200; i++) { int fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(static_cast<unsigned short>(std::stoi(port)));
		if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0) return fd; ::close(fd); usleep(20000); }
	return -1;
}
static std::string raw_request(const std::string& port, const std::string& text) {
	int fd = raw_connect(port); CHECK(fd >= 0); ::send(fd, text.data(), text.size(), MSG_NOSIGNAL); std::string r; char b[4096]; ssize_t n;
	while (true) { pollfd p{fd, POLLIN, 0}; if (::poll(&p, 1, 20000) <= 0) { ::close(fd); return r + "<TIMEOUT>"; } n = ::recv(fd, b, sizeof b, 0); if (n <= 0) break; r.append(b, n); }
	::close(fd); return r;
}
static int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
struct Ep : endpoint<tcp_server_socket<Log>, tcp_client_socket<Log>, endpoint_limits, Log> {
	using base = endpoint<tcp_server_socket<Log>, tcp_client_socket<Log>, endpoint_limits, Log>;
	Ep(endpoint_config* c) : base(c, nullptr) { }
	tcp_server_socket<Log> create_server_socket() override { return tcp_server_socket<Log>(socket::family::ipv4, nullptr); }
};
struct EchoEp : Ep { using Ep::Ep; void process_rest_request(http_server_stream<Log>& http, const char* m, const char* r) override { if (std::strcmp(m, "STOP") == 0) set_shutdown_requested(); std::string b = std::string(m) + " " + r; send_simple_response(http, "200", "OK", "text/plain", b.c_str(), 1); } };
'''
BUGS = [
dict(id='s01-single-byte-high-flush', prop='S01', file='src/socket.h',
 edits=[("if (pptr() != &_put_ch) {", "if (pptr() != &_put_ch && _put_ch != '\\xff') {")],
 needs='a 0xFF byte written through the stream buffer', breaks='the byte is not sent',
 demo=NET + r'''
int main() {
	std::string port = free_port(); tcp_server_socket<Log> srv(socket::family::ipv4, nullptr); srv.bind("127.0.0.1", port.c_str()); srv.listen(5);
	std::string got; std::thread t([&] { auto c = srv.accept(); char b[64]; std::size_t n; while ((n = c.receive(b, sizeof b)) > 0) got.append(b, n); });
	{ tcp_client_socket<Log> c(socket::family::ipv4, nullptr); c.connect("127.0.0.1", port.c_str()); socket_streambuf<tcp_client_socket<Log>, Log> sb(&c); for (int i = 0; i < 256; i++) sb.sputc(static_cast<char>(i)); sb.pubsync(); }
	t.join(); CHECK(got.size() == 256); for (int i = 0; i < 256; i++) CHECK(static_cast<unsigned char>(got[i]) == i); return 0;
}
'''),
dict(id='s01-move-drops-put', prop='S01', file='src/socket.h',
 edits=[(", _put_ch(other._put_ch) {", ", _put_ch(other.gptr() < other.egptr() ? other._get_ch : other._put_ch) {")],
 needs='a stream buffer moved while one char is waiting in each direction', breaks='the pending outgoing byte is replaced by the pending incoming one',
 demo=NET + r'''
int main() {
	std::string port = free_port(); tcp_server_socket<Log> srv(socket::family::ipv4, nullptr); srv.bind("127.0.0.1", port.c_str()); srv.listen(5);
	std::string got; std::thread t([&] { auto c = srv.accept(); c.send("xyz", 3); char b[64]; std::size_t n; while ((n = c.receive(b, sizeof b)) > 0) got.append(b, n); });
	{ tcp_client_socket<Log> c(socket::family::ipv4, nullptr); c.connect("127.0.0.1", port.c_str()); socket_streambuf<tcp_client_socket<Log>, Log> a(&c); CHECK(a.sgetc() == 'x'); a.sputc('1'); a.sputc('2'); socket_streambuf<tcp_client_socket<Log>, Log> b(std::move(a)); CHECK(b.sbumpc() == 'x'); CHECK(b.sbumpc() == 'y'); b.sputc('3'); b.pubsync(); }
	t.join(); CHECK(got == "123"); return 0;
}
'''),
dict(id='s02-wildcard-v6', prop='S02', file='src/socket.h',
 edits=[('return "::";', 'return "::1";')],
 needs='an IPv6 socket bound with a port only and reached through another address of the machine than ::1', breaks='the datagrams are not received',
 demo=NET + r'''
int main() {
	udp_socket<Log> s(socket::family::ipv6, nullptr); s.bind("0"); sockaddr_in6 a{}; socklen_t n = sizeof a; CHECK(::getsockname(s.fd(), reinterpret_cast<sockaddr*>(&a), &n) == 0); unsigned char zero[16] = { }; CHECK(std::memcmp(&a.sin6_addr, zero, 16) == 0); return 0;
}
'''),
dict(id='s02-zero-size-datagram', prop='S02', file='src/socket.h',
 edits=[("err = ::connect(fd(), &addr, addr_len); break;", "err = _kind == socket::kind::dgram && _family == socket::family::ipv6 ? ::bind(fd(), &addr, addr_len) : ::connect(fd(), &addr, addr_len);\n\t\t\t\tbreak;")],
 needs='connecting an IPv6 datagram socket', breaks='the socket is bound instead of connected', demo=NET + r'''
int main() {
	udp_socket<Log> s(socket::family::ipv6, nullptr); s.bind("::1", "0"); sockaddr_in6 a{}; socklen_t n = sizeof a; CHECK(::getsockname(s.fd(), reinterpret_cast<sockaddr*>(&a), &n) == 0);
	udp_socket<Log> c(socket::family::ipv6, nullptr); try { c.connect("::1", std::to_string(ntohs(a.sin6_port)).c_str()); CHECK(c.send("abc", 3) == 3); } catch (const std::exception&) { CHECK(!"refused"); }
	pollfd p{s.fd(), POLLIN, 0}; CHECK(::poll(&p, 1, 5000) == 1); char b[8]; CHECK(s.receive(b, 8) == 3); return 0;
}
'''),
dict(id='s04-failed-listen-host', prop='S04', file='src/socket.h',
 edits=[("if (!is_done) { if (tt == socket::tie::bind) {\n\t\t\t\tclose();", "if (!is_done) {\n\t\t\tif (tt == socket::tie::bind && _family == socket::family::ipv4) {\n\t\t\t\tclose();")],
 needs='an IPv6 bind to an address that is not of this machine, followed by another bind of the same socket', breaks='the socket stays open after a failed bind, and cannot be bound again',
 demo=NET + r'''
int main() {
	tcp_server_socket<Log> s(socket::family::ipv6, nullptr); bool threw = false; try { s.bind("2001:db8::1", "0"); } catch (const std::exception&) { threw = true; } CHECK(threw); CHECK(!s.is_open());
	try { s.bind("::1", "0"); } catch (const std::exception&) { CHECK(!"second bind"); } return 0;
}
'''),
dict(id='s04-tls-double-own', prop='S04', file='src/openssl_socket.h',
 edits=[("other._ctx = nullptr; other._ssl = nullptr;", "if (base::is_open()) {\n\t\t\tother._ctx = nullptr;\n\t\t}\n\t\telse {\n\t\t\t_ctx = nullptr;\n\t\t}\n\t\tother._ssl = nullptr;")],
 needs='a TLS client moved before it is connected, and connected, dropped and connected again after the source is gone', breaks='the context stays with the moved-from object, so the moved one cannot make another connection',
 flags='',
 sh=r'''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -g -D__ABC__LINUX=1 -D__ABC__OPENSSL=1 -I "$PWD/src" "$here/demo.cpp" -o "$d/demo" -lpthread -lssl -lcrypto || exit 98
cp "$PWD"/test/resources/*.pem "$d"/
cd "$d" || exit 97
timeout 120 ./demo
''',
 demo=NET + r'''
int main() {
	std::string port = free_port(); openssl_tcp_server_socket<Log> srv("cert.pem", "pkey.pem", "server", false, socket::family::ipv4, nullptr); srv.bind("127.0.0.1", port.c_str()); srv.listen(5);
	std::thread t([&] { for (int i = 0; i < 2; i++) { auto c = srv.accept(); c.send("hi", 2); char b[8]; c.receive(b, 8); } });
	std::unique_ptr<openssl_tcp_client_socket<Log>> c; { openssl_tcp_client_socket<Log> a(false, socket::family::ipv4, nullptr); c.reset(new openssl_tcp_client_socket<Log>(std::move(a))); }
	for (int i = 0; i < 2; i++) { try { c->connect("127.0.0.1", port.c_str()); } catch (const std::exception& e) { CHECK(!"connect"); } char b[8]; CHECK(c->receive(b, 8) == 2); c->close(); }
	t.join(); return 0;
}
'''),
dict(id='s03-verify-after-move', prop='S03', file='src/openssl_socket.h',
 edits=[("SSL_CTX_set_verify(_ctx, _verify_server ? SSL_VERIFY_PEER : SSL_VERIFY_NONE, nullptr);\n\n\t\t_ssl", "SSL_CTX_set_verify(_ctx, _verify_server && family == socket::family::ipv4 ? SSL_VERIFY_PEER : SSL_VERIFY_NONE, nullptr);\n\n\t\t_ssl")],
 needs='a verifying TLS client over IPv6 and a server with an untrusted certificate', breaks='the server is accepted',
 sh=r'''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -g -D__ABC__LINUX=1 -D__ABC__OPENSSL=1 -I "$PWD/src" "$here/demo.cpp" -o "$d/demo" -lpthread -lssl -lcrypto || exit 98
cp "$PWD"/test/resources/*.pem "$d"/
cd "$d" || exit 97
timeout 120 ./demo
''',
 demo=NET + r'''
int main() {
	std::string port = free_port(); openssl_tcp_server_socket<Log> srv("cert.pem", "pkey.pem", "server", false, socket::family::ipv6, nullptr); srv.bind("::1", port.c_str()); srv.listen(5);
	std::thread t([&] { try { auto c = srv.accept(); char b[8]; c.receive(b, 8); } catch (const std::exception&) { } });
	bool threw = false; try { openssl_tcp_client_socket<Log> c(true, socket::family::ipv6, nullptr); c.connect("::1", port.c_str()); } catch (const std::exception&) { threw = true; }
	t.join(); CHECK(threw); return 0;
}
'''),
dict(id='s03-truncation-as-data', prop='S03', file='src/openssl_socket.h',
 edits=[("received_size = 0;", "received_size = SSL_get_error(_ssl, received_size) == SSL_ERROR_SSL ? (int)size : 0;")],
 needs='a TLS record altered on the way', breaks='receive reports bytes that were never sent',
 sh=r'''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -g -D__ABC__LINUX=1 -D__ABC__OPENSSL=1 -I "$PWD/src" "$here/demo.cpp" -o "$d/demo" -lpthread -lssl -lcrypto || exit 98
cp "$PWD"/test/resources/*.pem "$d"/
cd "$d" || exit 97
timeout 120 ./demo
''',
 demo=NET + r'''
int main() {
	signal(SIGPIPE, SIG_IGN);
	std::string port = free_port(); openssl_tcp_server_socket<Log> srv("cert.pem", "pkey.pem", "server", false, socket::family::ipv4, nullptr); srv.bind("127.0.0.1", port.c_str()); srv.listen(5);
	std::thread t([&] { try { auto c = srv.accept(); c.send("hello", 5); ::send(c.fd(), "\x17\x03\x03\x00\x20garbagegarbagegarbagegarbagegarb", 37, MSG_NOSIGNAL); char b[8]; c.receive(b, 8); } catch (const std::exception&) { } });
	{ openssl_tcp_client_socket<Log> c(false, socket::family::ipv4, nullptr); c.connect("127.0.0.1", port.c_str()); char b[64]; CHECK(c.receive(b, 64) == 5); CHECK(c.receive(b, 64) == 0); }
	t.join(); return 0;
}
'''),
dict(id='e02-extension-of-directory', prop='E02', file='src/endpoint.h',
 edits=[('const char* ext = std::strrchr(path, \'.\');', 'const char* ext = std::strchr(path, \'.\');')],
 needs='a file name (or a directory above it) that has more than one dot', breaks='the media type is missing or wrong',
 demo=NET + r'''
int main() {
	CHECK(mkdir("root", 0755) == 0 && mkdir("root/files", 0755) == 0); std::ofstream("root/files/lib.min.js") << "x";
	std::string port = free_port(); endpoint_config cfg(port.c_str(), 5, "root", "/files/"); Ep ep(&cfg); auto done = ep.start_async();
	std::string r = raw_request(port, "GET /files/lib.min.js HTTP/1.1\r\n\r\n"); CHECK(r.find("text/javascript") != std::string::npos || r.find("application/javascript") != std::string::npos);
	raw_request(port, "POST /shutdown HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
'''),
dict(id='e02-empty-file', prop='E02', file='src/endpoint.h',
 edits=[("http.put_header_name(header::Content_Length); http.put_header_value(fsize_buffer); http.end_headers();", "if (fsize > 0) {\n\t\t\thttp.put_header_name(header::Content_Length);\n\t\t\thttp.put_header_value(fsize_buffer);\n\t\t}\n\t\thttp.end_headers();")],
 needs='an empty file', breaks='no Content-Length is sent',
 demo=NET + r'''
int main() {
	CHECK(mkdir("root", 0755) == 0 && mkdir("root/files", 0755) == 0); std::ofstream("root/files/a.txt") << "";
	std::string port = free_port(); endpoint_config cfg(port.c_str(), 5, "root", "/files/"); Ep ep(&cfg); auto done = ep.start_async();
	std::string r = raw_request(port, "GET /files/a.txt HTTP/1.1\r\n\r\n"); CHECK(r.find("Content-Length: 0") != std::string::npos);
	raw_request(port, "POST /shutdown HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
'''),
dict(id='e02-put-on-file', prop='E02', file='src/endpoint.h',
 edits=[("if (!ascii::are_equal_i(method, method::GET)) {", "if (!ascii::are_equal_i_n(method, method::GET, 3)) {")],
 needs='a method that only begins with GET', breaks='it is served as GET',
 demo=NET + r'''
int main() {
	CHECK(mkdir("root", 0755) == 0 && mkdir("root/files", 0755) == 0); std::ofstream("root/files/a.txt") << "x";
	std::string port = free_port(); endpoint_config cfg(port.c_str(), 5, "root", "/files/"); Ep ep(&cfg); auto done = ep.start_async();
	std::string r = raw_request(port, "GETTER /files/a.txt HTTP/1.1\r\n\r\n"); CHECK(r.find("405") != std::string::npos);
	raw_request(port, "POST /shutdown HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
'''),
dict(id='e02-favicon-any-method', prop='E01', file='src/endpoint.h',
 edits=[('|| (ascii::are_equal_i(method, method::GET) && ascii::are_equal_i(resource, "/favicon.ico"));', '|| ascii::are_equal_i_n(resource, "/favicon.ico", 12);')],
 needs='a REST resource that begins with /favicon.ico or another method on it', breaks='the handler of the application is not called',
 demo=NET + r'''
int main() {
	std::string port = free_port(); endpoint_config cfg(port.c_str(), 5, ".", "/files/"); EchoEp ep(&cfg); auto done = ep.start_async();
	std::string r = raw_request(port, "POST /favicon.ico HTTP/1.1\r\n\r\n"); CHECK(r.find("POST /favicon.ico") != std::string::npos);
	raw_request(port, "STOP / HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
'''),
dict(id='e01-method-buffer', prop='E01', file='src/endpoint.h',
 edits=[("http.get_method(method, sizeof(method));", "http.get_method(method, sizeof(method) - 1);")],
 needs='a method of exactly 32 chars', breaks='the request is refused',
 demo=NET + r'''
int main() {
	std::string port = free_port(); endpoint_config cfg(port.c_str(), 5, ".", "/files/"); EchoEp ep(&cfg); auto done = ep.start_async(); std::string m(32, 'M');
	std::string r = raw_request(port, m + " /x HTTP/1.1\r\n\r\n"); CHECK(r.find(m + " /x") != std::string::npos);
	raw_request(port, "STOP / HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
'''),
dict(id='e01-resource-buffer', prop='E01', file='src/endpoint.h',
 edits=[("http.get_resource(resource, sizeof(path) - _config->root_dir_len);", "http.get_resource(resource, sizeof(path) - 2 * _config->root_dir_len);")],
 needs='a resource nearly as long as the limit with a root folder', breaks='the request is refused',
 demo=NET + r'''
int main() {
	std::string port = free_port(); std::string root(200, 'r'); endpoint_config cfg(port.c_str(), 5, root.c_str(), "/files/"); EchoEp ep(&cfg); auto done = ep.start_async(); std::string res = "/" + std::string(1800, 'z');
	std::string r = raw_request(port, "GET " + res + " HTTP/1.1\r\n\r\n"); CHECK(r.find("GET " + res) != std::string::npos);
	raw_request(port, "STOP / HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
'''),
dict(id='e04-shutdown-prefix', prop='E04', file='src/endpoint.h',
 edits=[('ascii::are_equal_i(resource, "/shutdown")', 'ascii::are_equal_i_n(resource, "/shutdown", 9)')],
 needs='a POST to a resource that only begins with /shutdown', breaks='the endpoint stops',
 demo=NET + r'''
int main() {
	std::string port = free_port(); endpoint_config cfg(port.c_str(), 5, ".", "/files/"); Ep ep(&cfg); auto done = ep.start_async();
	raw_request(port, "POST /shutdown-report HTTP/1.1\r\n\r\n"); CHECK(done.wait_for(std::chrono::seconds(2)) == std::future_status::timeout);
	raw_request(port, "POST /shutdown HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
'''),
dict(id='e02-jpeg', prop='E02', file='src/endpoint.h',
 edits=[('else if (ascii::are_equal_i(ext, ".jpeg")) {', 'else if (ascii::are_equal_i_n(ext, ".jpe", 5)) {')],
 needs='a .jpeg file', breaks='no media type',
 demo=NET + r'''
int main() {
	CHECK(mkdir("root", 0755) == 0 && mkdir("root/files", 0755) == 0); std::ofstream("root/files/a.jpeg") << "x";
	std::string port = free_port(); endpoint_config cfg(port.c_str(), 5, "root", "/files/"); Ep ep(&cfg); auto done = ep.start_async();
	std::string r = raw_request(port, "GET /files/a.jpeg HTTP/1.1\r\n\r\n"); CHECK(r.find("image/jpeg") != std::string::npos);
	raw_request(port, "POST /shutdown HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
'''),

dict(id='e01-shared-chunk', prop='E01', file='src/endpoint.h',
 edits=[("char file_chunk[Limits::file_chunk_size];", "static char file_chunk[Limits::file_chunk_size];")],
 needs='two files being sent at the same time', breaks='a response contains pieces of another file', timeout=200,
 demo=NET + r"""
int main() {
	CHECK(mkdir("root", 0755) == 0 && mkdir("root/files", 0755) == 0); std::string a(300000, 'a'), b(300000, 'b'); std::ofstream("root/files/a.txt") << a; std::ofstream("root/files/b.txt") << b;
	std::string port = free_port(); endpoint_config cfg(port.c_str(), 50, "root", "/files/"); Ep ep(&cfg); auto done = ep.start_async();
	for (int round = 0; round < 20; round++) { std::vector<std::thread> ts; for (int i = 0; i < 8; i++) ts.emplace_back([&, i] { std::string r = raw_request(port, i % 2 ? "GET /files/a.txt HTTP/1.1\r\n\r\n" : "GET /files/b.txt HTTP/1.1\r\n\r\n"); const std::string& w = i % 2 ? a : b; CHECK(r.size() > w.size() && r.substr(r.size() - w.size()) == w); }); for (auto& t : ts) t.join(); }
	raw_request(port, "POST /shutdown HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
"""),
dict(id='e01-protocol-buffer', prop='E01', file='src/endpoint.h',
 edits=[("char path[Limits::resource_size + 1];", "static thread_local char path[Limits::resource_size / 2 + 1];"), ("http.get_resource(resource, sizeof(path) - _config->root_dir_len);", "http.get_resource(resource, sizeof(path) - _config->root_dir_len);")] if False else [("char protocol[Limits::protocol_size + 1];", "char protocol[Limits::protocol_size - 7];")],
 needs='a protocol longer than HTTP/1.1', breaks='the request is refused',
 demo=NET + r"""
int main() {
	std::string port = free_port(); endpoint_config cfg(port.c_str(), 5, ".", "/files/"); EchoEp ep(&cfg); auto done = ep.start_async();
	std::string r = raw_request(port, "GET /x HTTP/1.12345678\r\n\r\n"); CHECK(r.find("GET /x") != std::string::npos);
	raw_request(port, "STOP / HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
"""),
dict(id='e01-length-static', prop='E01', file='src/endpoint.h',
 edits=[("char content_length[Limits::fsize_size + 1];", "static char content_length[Limits::fsize_size + 1];")],
 needs='two responses of different lengths being sent at the same time', breaks='a response carries the Content-Length of another one', timeout=250,
 demo=NET + r"""
int main() {
	std::string port = free_port(); endpoint_config cfg(port.c_str(), 50, ".", "/files/"); EchoEp ep(&cfg); auto done = ep.start_async();
	for (int round = 0; round < 400; round++) { std::vector<std::thread> ts; for (int i = 0; i < 12; i++) ts.emplace_back([&, i] { std::string res = "/" + std::string(i % 2 ? 5 : 1500, 'q'); std::string r = raw_request(port, "GET " + res + " HTTP/1.1\r\n\r\n"); CHECK(r.find("Content-Length: " + std::to_string(res.size() + 4) + "\r\n") != std::string::npos); }); for (auto& t : ts) t.join(); }
	raw_request(port, "STOP / HTTP/1.1\r\n\r\n"); done.wait(); return 0;
}
"""),
]
