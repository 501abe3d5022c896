import runpy, os
here = os.path.dirname(os.path.abspath(__file__))
VM = runpy.run_path(here + '/b7.py')['PRE']; HJP = runpy.run_path(here + '/b3.py')['PRE']
BUGS = [
dict(id='x01-static-unicode', prop='X01', file='src/json.h',
 edits=[("char buffer[4 + 1];", "static char buffer[4 + 1];")],
 needs='two threads reading escaped characters from JSON streams of their own', breaks='a character of one appears in the string of the other',
 demo=HJP + r'''
#include <thread>
#include <atomic>
static std::atomic<int> bad{ 0 }, ready{ 0 };
static void work(char c) { char text[64]; std::snprintf(text, sizeof text, "\"\\u%4.4x\\u%4.4x\\u%4.4x\"", c, c, c); ready++; while (ready < 4) {} for (int i = 0; i < 300000 && !bad; i++) { std::stringbuf sb(text); json_istream<4> in(&sb); alignas(16) char m[100]; auto* t = reinterpret_cast<json::token_t*>(m); in.get_token(t, sizeof m); const char* s = t->value.string; if (t->item != json::item::string || s[0] != c || s[1] != c || s[2] != c) bad++; } }
int main() { std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread(work, static_cast<char>('a' + i)); for (auto& x : t) x.join(); CHECK(bad == 0); return 0; }
'''),
dict(id='x01-static-thread-id', prop='X01', file='src/table.h',
 edits=[("char buf[17];\n\t\tbuffer_streambuf sb(nullptr, 0, 0, buf, 0, sizeof(buf) - 1);", "static char buf[17];\n\t\tbuffer_streambuf sb(nullptr, 0, 0, buf, 0, sizeof(buf) - 1);")],
 needs='two threads logging to logs of their own', breaks='a line carries the id of another thread',
 demo=r'''
#include "log.h"
#include <thread>
#include <atomic>
#include <sstream>
#include <cstdio>
using namespace abc;
static std::atomic<int> bad{ 0 }, ready{ 0 };
static void work() { std::ostringstream id; id << std::hex << std::this_thread::get_id(); std::string want = id.str() + "\n"; ready++; while (ready < 4) {} for (int i = 0; i < 200000 && !bad; i++) { std::stringbuf sb; { table_ostream t(&sb); line_ostream<100> l(&t); l.put_thread_id(std::this_thread::get_id()); } if (sb.str() != want) bad++; } }
int main() { std::thread t[4]; for (auto& x : t) x = std::thread(work); for (auto& x : t) x.join(); if (bad) { std::printf("FAILED\n"); return 1; } return 0; }
'''),
dict(id='h02-body-nul', prop='H02', file='src/http.h',
 edits=[("std::size_t pcount = put_bytes(buffer, size);", "std::size_t pcount = put_chars([](char ch) -> bool { return ch != '\\0'; }, buffer, size);")],
 needs='a binary body with a zero byte', breaks='the body is cut at it',
 demo=HJP + r'''
int main() { std::stringbuf sb; http_response_ostream<> os(&sb); os.put_protocol("HTTP/1.1"); os.put_status_code("200"); os.put_reason_phrase("OK"); os.end_headers(); os.put_body("ab\0cd", 5); os.flush(); CHECK(!os.fail()); std::string s = sb.str(); CHECK(s.size() > 5 && s.substr(s.size() - 5) == std::string("ab\0cd", 5)); return 0; }
'''),
dict(id='h05-ignore-case', prop='H05', file='src/http.h',
 edits=[("if (std::strncmp(param, parameter_name, parameter_name_len) == 0 && param[parameter_name_len] == '=') {", "if (ascii::are_equal_i_n(param, parameter_name, parameter_name_len) && param[parameter_name_len] == '=') {")],
 needs='two parameters whose names differ in case', breaks='the value of the other one is returned',
 demo=HJP + r'''
int main() { char b[64]; std::memset(b, 0, sizeof b); std::strcpy(b, "/p?ID=1&id=2"); using R = http_request_istream<>; R::split_resource(b, sizeof b); const char* v = R::get_resource_parameter(b, sizeof b, "id"); CHECK(v != nullptr && std::strcmp(v, "2") == 0); return 0; }
'''),
dict(id='p04-older-version', prop='P04', file='src/x/vmem_pool.x.h',
 edits=[("if (root_page->version != init.version) {", "if (root_page->version > init.version) {")],
 needs='a file of an older version', breaks='it is accepted',
 demo=VM + r'''
#include <cstddef>
int main() { using Pool = vmem_pool<8, Log>; { Pool pool("p.vmem", nullptr); } int fd = open("p.vmem", O_RDWR); char b[4096]; CHECK(read(fd, b, 4096) == 4096); b[offsetof(vmem_root_page, version)] = 0; b[offsetof(vmem_root_page, version) + 1] = 0; CHECK(pwrite(fd, b, 4096, 0) == 4096); close(fd); bool refused = false; try { Pool pool("p.vmem", nullptr); } catch (const std::exception&) { refused = true; } CHECK(refused); return 0; }
'''),
]
