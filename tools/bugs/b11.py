import runpy, os
here = os.path.dirname(os.path.abspath(__file__))
VM = runpy.run_path(here + '/b7.py')['PRE']; HJP = runpy.run_path(here + '/b3.py')['PRE']
BUGS = [
dict(id='c07-emptied-other-size', prop='C07', file='src/x/vmem_container.x.h',
 edits=[("&& state->back_page_pos == vmem_page_pos_nil\n\t\t\t\t&& state->item_size == 0\n", "&& state->back_page_pos == vmem_page_pos_nil\n")],
 needs='a stored container that has become empty, opened with items of another size', breaks='it is not refused',
 demo=VM + r'''
int main() { using Pool = vmem_pool<8, Log>; Pool pool("p.vmem", nullptr); At<vmem_list_state, Pool> at(&pool); { vmem_list<int, Pool, Log> l(at.s, &pool, nullptr); l.push_back(1); l.pop_back(); CHECK(l.empty()); } bool refused = false; try { vmem_list<long, Pool, Log> l(at.s, &pool, nullptr); } catch (const std::exception&) { refused = true; } CHECK(refused); return 0; }
'''),
dict(id='p01-page-16bit', prop='P01', file='src/x/vmem_pool.x.h',
 edits=[("if (_mapped_pages[i].pos == page_pos) {", "if (static_cast<std::uint16_t>(_mapped_pages[i].pos) == static_cast<std::uint16_t>(page_pos)) {")],
 needs='two pages of a large file whose positions differ by 65536, used one after the other', breaks='one shows the content of the other',
 demo=VM + r'''
int main() { using Pool = vmem_pool<8, Log>; { Pool pool("p.vmem", nullptr); } CHECK(truncate("p.vmem", 4096L * 66000) == 0); Pool pool("p.vmem", nullptr); vmem_page<Pool, Log> a(&pool, 5, nullptr); std::strcpy(static_cast<char*>(a.ptr()), "five"); vmem_page<Pool, Log> b(&pool, 65541, nullptr); CHECK(b.ptr() != nullptr && b.ptr() != a.ptr() && static_cast<char*>(b.ptr())[0] == 0); return 0; }
'''),
dict(id='s04-fd-zero', prop='S04', file='src/socket.h',
 edits=[("return _fd != socket::fd::invalid;", "return _fd > 0;")],
 needs='a process whose standard input is closed, so that a socket gets descriptor 0', breaks='the socket is refused and its descriptor leaks',
 demo=r'''
#include "log.h"
#include "socket.h"
#include <cstdio>
#include <fcntl.h>
#include <unistd.h>
using namespace abc;
int main() { ::close(0); bool ok = true; try { { udp_socket<> s; s.bind("127.0.0.1", "0"); } } catch (const std::exception& e) { std::printf("FAILED: %s\n", e.what()); ok = false; } if (::fcntl(0, F_GETFD) != -1) { std::printf("FAILED: descriptor 0 is open\n"); ok = false; } return ok ? 0 : 1; }
'''),
dict(id='h03-fold-room', prop='H03', file='src/http.h',
 edits=[("if (gcount == size - 1) {\n\t\t\t\t\t\tbase::set_fail();\n\t\t\t\t\t\tset_gstate(gcount, http::item::header_value);", "if (gcount == size) {\n\t\t\t\t\t\tbase::set_fail();\n\t\t\t\t\t\tset_gstate(gcount, http::item::header_value);")],
 needs='a header value with a space exactly where the buffer is full', breaks='a byte behind the buffer is written', flags='-fsanitize=address',
 demo=HJP + r'''
int main() { std::stringbuf sb("HTTP/1.1 200 OK\r\nA: abcdefg hij\r\n\r\n"); http_response_istream<> is(&sb); char b[64]; is.get_protocol(b, sizeof b); is.get_status_code(b, sizeof b); is.get_reason_phrase(b, sizeof b); is.get_header_name(b, sizeof b); struct { char v[8]; char guard[8]; } s; std::memset(&s, '#', sizeof s); is.get_header_value(s.v, sizeof s.v); for (char g : s.guard) CHECK(g == '#'); CHECK(!is.good()); CHECK(std::memchr(s.v, 0, sizeof s.v) != nullptr); return 0; }
'''),
dict(id='h01-resource-space', prop='H01', file='src/http.h',
 edits=[("std::size_t pcount = base::put_prints(buffer, size);\n", "std::size_t pcount = base::put_prints_and_spaces(buffer, size);\n")],
 needs='a resource with a space in it', breaks='it is written, and the message means another resource and protocol',
 demo=HJP + r'''
int main() { std::stringbuf sb; http_request_ostream<> os(&sb); os.put_method("GET"); bool refused = false; try { os.put_resource("/a b"); refused = !os.good(); } catch (const std::exception&) { refused = true; } CHECK(refused); return 0; }
'''),
dict(id='m01-parameter-string', prop='M01', file='src/http.h',
 edits=[("if (std::strncmp(param, parameter_name, parameter_name_len) == 0 && param[parameter_name_len] == '=') {", "if (std::string(param, std::strlen(param)).compare(0, parameter_name_len + 1, std::string(parameter_name) + '=') == 0) {")],
 needs='a request parameter of more than 15 characters', breaks='memory is allocated',
 demo=r'''
#include <cstdlib>
#include <new>
static bool armed = false; static int allocs = 0;
void* operator new(std::size_t n) { if (armed) allocs++; void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
''' + HJP + r'''
int main() { char b[128]; std::memset(b, 0, sizeof b); std::strcpy(b, "/p?identifier_of_customer=1&id=2"); using R = http_request_istream<>; R::split_resource(b, sizeof b); armed = true; const char* v = R::get_resource_parameter(b, sizeof b, "id"); armed = false; CHECK(v != nullptr && std::strcmp(v, "2") == 0); CHECK(allocs == 0); return 0; }
'''),
dict(id='x01-static-digits', prop='X01', file='src/json.h',
 edits=[("std::size_t gcount = 0;\n\t\tchar digits[19 + 6 + 1];", "std::size_t gcount = 0;\n\t\tstatic char digits[19 + 6 + 1];")],
 needs='two threads reading numbers from JSON streams of their own', breaks='one gets digits of the other',
 demo=HJP + r'''
#include <thread>
#include <atomic>
static std::atomic<int> bad{ 0 }, ready{ 0 };
static void work(int c) { char text[64]; std::snprintf(text, sizeof text, "%d%d%d%d%d ", c, c, c, c, c); double want = std::atof(text); ready++; while (ready < 4) {} for (int i = 0; i < 300000 && !bad; i++) { std::stringbuf sb(text); json_istream<4> in(&sb); alignas(16) char m[100]; auto* t = reinterpret_cast<json::token_t*>(m); in.get_token(t, sizeof m); if (t->item != json::item::number || t->value.number != want) bad++; } }
int main() { std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread(work, 1 + i); for (auto& x : t) x.join(); CHECK(bad == 0); return 0; }
'''),
dict(id='x01-static-item', prop='X01', file='src/x/vmem_container.x.h',
 edits=[("T item_copy(item);", "static T item_copy;\n\t\tvmem_copy(item_copy, item);")],
 needs='two threads inserting into containers of their own, each in a pool of its own', breaks='one gets an item of the other',
 demo=VM + r'''
#include <thread>
#include <atomic>
static std::atomic<int> bad{ 0 }, ready{ 0 };
static void work(int c) { using Pool = vmem_pool<16, Log>; std::string name = "p" + std::to_string(c) + ".vmem"; Pool pool(name.c_str(), nullptr); vmem_list_state st; vmem_list<long, Pool, Log> l(&st, &pool, nullptr); ready++; while (ready < 4) {} for (int i = 0; i < 40000 && !bad; i++) { l.push_back(c); if (l.back() != c) bad++; } }
int main() { std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread(work, 1 + i); for (auto& x : t) x.join(); CHECK(bad == 0); return 0; }
'''),
]
