import runpy, os
D = os.path.dirname(os.path.abspath(__file__))
NET = runpy.run_path(D + '/b4.py')['NET']; TXT = runpy.run_path(D + '/b5.py')['PRE']; HJ = runpy.run_path(D + '/b3.py')['PRE']; VM = runpy.run_path(D + '/b7.py')['PRE']
BUGS = [
dict(id='s05-reset-count', prop='S05', file='src/socket.h',
 edits=[("if (received_size < 0) {", "if (received_size < 0 && errno != ECONNRESET) {")], needs='a peer that resets the connection while it is read', breaks='a receive reports SIZE_MAX bytes and the stream delivers characters nobody sent',
 demo=NET + r'''
int main() { std::string port = free_port(); tcp_server_socket<Log> s(socket::family::ipv4, nullptr); s.bind("127.0.0.1", port.c_str()); s.listen(5);
	int fd = raw_connect(port); tcp_client_socket<Log> c = s.accept(); linger l{1, 0}; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd);
	usleep(100000); char b[10]; CHECK(c.receive(b, sizeof b) == 0); return 0; }
'''),
dict(id='s05-tls-sent', prop='S05', file='src/openssl_socket.h',
 edits=[("if (sent_size < 0) {", "if (sent_size < -1) {")], needs='a TLS peer that goes away while it is written to', breaks='a failed send reports SIZE_MAX bytes sent',
 demo=NET + r'''
int main() { std::string port = free_port(); openssl_tcp_server_socket<Log> s("cert.pem", "pkey.pem", "server", false, socket::family::ipv4, nullptr); s.bind("127.0.0.1", port.c_str()); s.listen(5);
	std::thread t([&] { auto p = s.accept(); char b[4]; p.receive(b, 1); linger l{1, 0}; ::setsockopt(p.fd(), SOL_SOCKET, SO_LINGER, &l, sizeof l); });
	openssl_tcp_client_socket<Log> c(false, socket::family::ipv4, nullptr); c.connect("127.0.0.1", port.c_str()); CHECK(c.send("x", 1) == 1); t.join(); usleep(100000);
	std::vector<char> b(10000); for (int i = 0; i < 20; i++) { CHECK(c.send(b.data(), b.size()) <= b.size()); usleep(2000); } return 0; }
''', sh=r'''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -g -D__ABC__LINUX=1 -D__ABC__OPENSSL=1 -I "$PWD/src" "$here/demo.cpp" -o "$d/demo" -lpthread -lssl -lcrypto || exit 98
cp "$PWD"/test/resources/*.pem "$d"/
cd "$d" || exit 97
timeout 120 ./demo
'''),
dict(id='e05-content-type-static', prop='E05', file='src/endpoint.h',
 edits=[("const char* content_type = get_content_type_from_path(path);", "static const char* content_type = nullptr;\n\t\tcontent_type = get_content_type_from_path(path);")],
 needs='files of different types requested at the same time', breaks='connections share a variable without synchronization', flags='-fsanitize=thread',
 demo=NET + r'''
int main() { mkdir("r", 0777); { std::ofstream("r/a.txt") << "a"; std::ofstream("r/b.css") << "b"; } std::string port = free_port(); endpoint_config cfg(port.c_str(), 50, ".", "/r/"); Ep ep(&cfg); auto f = ep.start_async();
	std::vector<std::thread> ts; for (int t = 0; t < 6; t++) ts.emplace_back([&, t] { for (int i = 0; i < 30; i++) { std::string r = raw_request(port, std::string("GET /r/") + (t & 1 ? "a.txt" : "b.css") + " HTTP/1.1\r\n\r\n"); CHECK(r.find(t & 1 ? "text/plain" : "text/css") != std::string::npos); } });
	for (auto& t : ts) t.join(); raw_request(port, "POST /shutdown HTTP/1.1\r\n\r\n"); f.get(); return 0; }
'''),
dict(id='h04-empty-body', prop='H04', file='src/http.h',
 edits=[("state::assert_next(http::item::body);\n\n\t\tif (size == size::strlen) {", "if (size != 0) {\n\t\t\tstate::assert_next(http::item::body);\n\t\t}\n\n\t\tif (size == size::strlen) {")],
 needs='an empty body put before the headers are ended', breaks='it is accepted, and ends the headers without the blank line',
 demo=HJ + r'''
int main() { std::stringbuf sb(std::ios::out); http_request_ostream<> os(&sb); os.put_method("GET"); os.put_resource("/"); os.put_protocol("HTTP/1.1"); bool thrown = false; try { os.put_body("", 0); } catch (...) { thrown = true; } CHECK(thrown); os.end_headers(); return 0; }
'''),
dict(id='h04-failed-stream', prop='H04', file='src/http.h',
 edits=[("base::assert_next(http::item::status_code);\n\n\t\tstd::size_t gcount", "if (base::is_good()) {\n\t\t\tbase::assert_next(http::item::status_code);\n\t\t}\n\n\t\tstd::size_t gcount")],
 needs='a status code read out of order on a stream that has failed', breaks='it is not refused',
 demo=HJ + r'''
int main() { std::stringbuf sb("HTTX/1.1 200 OK\r\n\r\n", std::ios::in); http_response_istream<> is(&sb); char b[50]; is.get_protocol(b, sizeof b); is.get_status_code(b, sizeof b); bool thrown = false; try { is.get_status_code(b, sizeof b); } catch (...) { thrown = true; } CHECK(thrown); return 0; }
'''),
dict(id='a01-fold-by-bit', prop='A01', file='src/ascii.h',
 edits=[("bool are_ch_equal = case_sensitive ? ch1 == ch2 : to_lower(ch1) == to_lower(ch2);", "bool are_ch_equal = ch1 == ch2 || (!case_sensitive && is_alpha(ch1) == is_between(ch2, 'A', 'z') && (ch1 ^ ch2) == 0x20);")],
 needs='strings that differ by the case bit in a character that is not a letter', breaks='they compare equal',
 demo=TXT + r'''
int main() { for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) { char a[] = { (char)i, 0 }, b[] = { (char)j, 0 }; bool e = ascii::to_lower((char)i) == ascii::to_lower((char)j); CHECK(ascii::are_equal_i(a, b) == e); } return 0; }
'''),
dict(id='m01-map-leads', prop='M01', file='src/x/vmem_map.x.h',
 edits=[("page_lead page_leads[] = { values_result.page_leads[0], values_result.page_leads[1] };", "std::unique_ptr<page_lead[]> page_leads(new page_lead[2]{ values_result.page_leads[0], values_result.page_leads[1] });"), ("src/i/vmem_map.i.h", "#pragma once", "#pragma once\n\n#include <memory>")],
 needs='a map whose pages split or merge', breaks='memory is allocated on the heap',
 demo=VM + r'''
static long news = 0; void* operator new(std::size_t n) { news++; return malloc(n); } void operator delete(void* p) noexcept { free(p); } void operator delete(void* p, std::size_t) noexcept { free(p); }
int main() { using Pool = vmem_pool<16, Log>; using Map = vmem_map<int, char[500], Pool, Log>; struct V { char b[500]; }; using M2 = vmem_map<int, V, Pool, Log>; Pool pool("m.vmem", nullptr); At<vmem_map_state, Pool> at(&pool); new (at.s) vmem_map_state; M2 m(at.s, &pool, nullptr);
	long n0 = news; for (int i = 0; i < 100; i++) { vmem_map_value<int, V> v; v.key = i; m.insert(v); } CHECK(m.size() == 100); CHECK(news == n0); return 0; }
'''.replace(' using Map = vmem_map<int, char[500], Pool, Log>;', '')),
dict(id='m01-thread-id', prop='M01', file='src/table.h',
 edits=[("char buf[17];", "std::string text(16, '\\0');\n\t\tchar* buf = &text[0];"), ("buffer_streambuf sb(nullptr, 0, 0, buf, 0, sizeof(buf) - 1);", "buffer_streambuf sb(nullptr, 0, 0, buf, 0, text.size());")],
 needs='a line that shows a thread id', breaks='memory is allocated on the heap',
 demo=TXT + r'''
static long news = 0; void* operator new(std::size_t n) { news++; return malloc(n); } void operator delete(void* p) noexcept { free(p); } void operator delete(void* p, std::size_t) noexcept { free(p); }
int main() { line_ostream<200> l; long n0 = news; l.put_thread_id(std::this_thread::get_id()); CHECK(l.get()[0] != 0); CHECK(news == n0); return 0; }
'''),
dict(id='l03-split-newline', prop='L03', file='src/table.h',
 edits=[("_table->put_line(_buffer, _pcount);", "if (_pcount < Size / 2) {\n\t\t\t\t_table->put_line(_buffer, _pcount);\n\t\t\t}\n\t\t\telse {\n\t\t\t\t_table->put_line(_buffer, _pcount - 1);\n\t\t\t\t_table->put_blank_line();\n\t\t\t}")],
 needs='long lines put by several threads at once', breaks='the end of a line is separated from it by lines of other threads',
 demo=TXT + r'''
struct Slow : std::stringbuf { int sync() override { std::this_thread::yield(); return 0; } };
int main() { Slow sb; { table_ostream t(&sb); std::vector<std::thread> ts; for (int k = 0; k < 4; k++) ts.emplace_back([&, k] { for (int i = 0; i < 3000; i++) { line_ostream<60> l(&t); l.put_any("%s", std::string(45, 'a' + k).c_str()); } }); for (auto& x : ts) x.join(); }
	std::istringstream in(sb.str()); std::string line; long n = 0; while (std::getline(in, line)) { CHECK(line.size() == 45); CHECK(line.find_first_not_of(line[0]) == std::string::npos); n++; } CHECK(n == 12000); return 0; }
'''),
dict(id='l04-size-exact', prop='L04', file='src/multifile.h',
 edits=[("if (_current_size >= _size) {", "if (_current_size > _size) {")], needs='a line that fills a file to exactly its size', breaks='the next line goes to the same file',
 demo=TXT + r'''
int main() { mkdir("f", 0777); { size_multifile_streambuf<60, Clk, null_log> sb(10, "f"); std::ostream os(&sb); for (int i = 0; i < 4; i++) { Clk::t += 1000000000LL; os << "123456789\n"; os.flush(); } } for (auto& p : files("f")) CHECK(slurp(p).size() <= 10); return 0; }
'''),
dict(id='c01-alias-insert', prop='C01', file='src/x/vmem_container.x.h',
 edits=[("T item_copy(item);", "const T& item_copy = item;")], needs='inserting an item of the list itself before its own position', breaks='another item is inserted',
 demo=VM + r'''
int main() { using Pool = vmem_pool<8, Log>; using List = vmem_list<int, Pool, Log>; Pool pool("l.vmem", nullptr); At<vmem_list_state, Pool> at(&pool); new (at.s) vmem_list_state; List l(at.s, &pool, nullptr); for (int i = 1; i <= 5; i++) l.push_back(i * 10);
	{ vmem_page<Pool, Log> keep(&pool, l.begin().page_pos(), nullptr); l.insert(l.begin(), *l.rend()); } CHECK(*l.begin() == 50); return 0; }
'''),
dict(id='c03-duplicate-iterator', prop='C03', file='src/x/vmem_map.x.h',
 edits=[("result.iterator = find_result.iterator;", "result.iterator = find_result.iterator.item_pos() + 1 < value_page_capacity() ? find_result.iterator : end_itr();")], needs='inserting a key that is already the last one of a full page', breaks='the iterator returned is not that of the item',
 demo=VM + r'''
int main() { using Pool = vmem_pool<16, Log>; struct V { char b[900]; }; using M = vmem_map<int, V, Pool, Log>; Pool pool("m.vmem", nullptr); At<vmem_map_state, Pool> at(&pool); new (at.s) vmem_map_state; M m(at.s, &pool, nullptr);
	for (int i = 0; i < 40; i++) { vmem_map_value<int, V> v; v.key = i; m.insert(v); } for (int i = 0; i < 40; i++) { vmem_map_value<int, V> v; v.key = i; auto r = m.insert(v); CHECK(!r.second); CHECK(r.first.can_deref() && r.first->key == i); } return 0; }
'''),
dict(id='p01-dirty-unmap', prop='P01', file='src/x/vmem_pool.x.h',
 edits=[("_mapped_pages[empty_i] = _mapped_pages[i];", "_mapped_pages[empty_i] = _mapped_pages[i];\n\t\t\t_mapped_pages[empty_i].lock_count = _mapped_pages[i].lock_count > 1 ? _mapped_pages[i].lock_count - 1 : _mapped_pages[i].lock_count;")] if False else [("vmem_page_hit_count_t avg_keep_count = _mapped_page_totals.keep_count / _mapped_page_count;", "vmem_page_hit_count_t avg_keep_count = _mapped_page_totals.keep_count / (_mapped_page_count - _mapped_page_totals.unlock_count % 2);")] if False else [("for (std::size_t i = 0; i < _mapped_page_count; i++) {\n\t\t\t\tstd::size_t dummy_unmapped_count = 0;", "for (std::size_t i = 0; i + 1 < _mapped_page_count; i++) {\n\t\t\t\tstd::size_t dummy_unmapped_count = 0;")],
 needs='a pool that is closed', breaks='its last mapping stays in the process', prop2='P03',
 demo=VM + r'''
static int maps() { FILE* f = fopen("/proc/self/maps", "r"); char b[4096]; int n = 0; while (fgets(b, sizeof b, f)) n += std::strstr(b, "p.vmem") != nullptr; fclose(f); return n; }
int main() { using Pool = vmem_pool<8, Log>; { Pool pool("p.vmem", nullptr); for (int i = 0; i < 20; i++) vmem_page<Pool, Log> p(&pool, nullptr); } CHECK(maps() == 0); return 0; }
'''),
dict(id='h02-long-version', prop='H02', file='src/http.h',
 edits=[("inline void http_response_istream<Log>::get_status_code(char* buffer, std::size_t size) {", "inline void http_response_istream<Log>::get_status_code(char* buffer, std::size_t size) {\n\t\tsize = size < 4 ? size : 4;")],
 needs='a status code of more than three digits', breaks='a code that was written is not read back',
 demo=HJ + r'''
int main() { std::stringbuf sb("HTTP/1.1 1234 OK\r\n\r\n", std::ios::in); http_response_istream<> is(&sb); char b[50]; is.get_protocol(b, sizeof b); is.get_status_code(b, sizeof b); CHECK(!std::strcmp(b, "1234")); return 0; }
'''),
dict(id='t01-far-leap', prop='T01', file='src/timestamp.h',
 edits=[("if (reset_date_if_done(days_since_epoch, year, month, day, remaining_days, 29)) {", "if (reset_date_if_done(days_since_epoch, year, month, day, remaining_days, year % 100 == 0 && year != 2000 ? 28 : 29)) {")],
 needs='Mar 1 style boundaries', breaks='none', demo='int main() { return 0; }'),
]
BUGS = [b for b in BUGS if b['id'] != 't01-far-leap']
for b in BUGS:
    if b['id'] == 'p01-dirty-unmap': b['id'] = 'p03-close-last-mapping'; b['prop'] = 'P03'
BUGS = [b for b in BUGS if b['id'] not in ('m01-map-leads', 'm01-thread-id', 'h02-long-version')]  # caught by the existing tests, or a pure insertion
