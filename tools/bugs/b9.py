import runpy, os
here = os.path.dirname(os.path.abspath(__file__))
VM = runpy.run_path(here + '/b7.py')['PRE']; NET = runpy.run_path(here + '/b4.py')['NET']; HJ = runpy.run_path(here + '/b3.py')
HJP = HJ['PRE']
BUGS = [
dict(id='p05-private-writeback', prop='P05', file='src/x/vmem_pool.x.h',
 edits=[("MAP_SHARED, _fd, page_off);", "MAP_PRIVATE, _fd, page_off);"), ("int sn = msync(_mapped_pages[i].ptr, vmem_page_size, MS_ASYNC);", "ssize_t wb = pwrite(_fd, _mapped_pages[i].ptr, vmem_page_size, static_cast<off_t>(_mapped_pages[i].pos * vmem_page_size));\n\t\t\tint sn = wb == static_cast<ssize_t>(vmem_page_size) ? 0 : -1;")],
 needs='a page that stays locked over several operations (the one of the state) when the process is killed', breaks='what has been done since the page was locked is lost',
 demo=VM + r'''
#include <sys/wait.h>
int main() { using Pool = vmem_pool<8, Log>; using List = vmem_list<int, Pool, Log>;
	pid_t p = fork(); if (p == 0) { Pool pool("p.vmem", nullptr); At<vmem_list_state, Pool> at(&pool); List l(at.s, &pool, nullptr); for (int i = 0; i < 10; i++) l.push_back(i); kill(getpid(), SIGKILL); _exit(1); }
	int st = 0; waitpid(p, &st, 0); CHECK(WIFSIGNALED(st)); Pool pool("p.vmem", nullptr); At<vmem_list_state, Pool> at(&pool); List l(at.s, &pool, nullptr); CHECK(l.size() == 10); int k = 0; for (auto i = l.begin(); i != l.end(); i++) CHECK(*i == k++); CHECK(k == 10); return 0; }
'''),
dict(id='c02-many-items', prop='C02', file='src/i/vmem_layout.i.h',
 edits=[("vmem_page_pos_t		total_item_count	= 0;", "vmem_item_pos_t		total_item_count	= 0;")],
 needs='more than 65535 items', breaks='the size wraps around',
 demo=VM + r'''
int main() { using Pool = vmem_pool<8, Log>; using St = vmem_stack<int, Pool, Log>; Pool pool("p.vmem", nullptr); At<vmem_stack_state, Pool> at(&pool); St s(at.s, &pool, nullptr); for (int i = 0; i < 70000; i++) s.push_back(i); CHECK(s.size() == 70000); CHECK(s.back() == 69999); s.pop_back(); CHECK(s.size() == 69999 && s.back() == 69998); return 0; }
'''),
dict(id='e03-reset-fd', prop='E03', file='src/socket.h',
 edits=[("::shutdown(_fd, SHUT_RDWR);\n\t\t\t::close(_fd);", "if (::shutdown(_fd, SHUT_RDWR) == 0 || errno != ENOTCONN || _kind == socket::kind::dgram) {\n\t\t\t\t::close(_fd);\n\t\t\t}")],
 needs='clients that reset the connection', breaks='each of them costs the server a file descriptor, until it has none',
 demo=NET + r'''
int main() { rlimit rl{ 64, 64 }; setrlimit(RLIMIT_NOFILE, &rl); signal(SIGPIPE, SIG_IGN); std::string port = free_port(); endpoint_config cfg(port.c_str(), 10, ".", "/files/"); Ep ep(&cfg); auto done = ep.start_async();
	CHECK(raw_request(port, "GET /x HTTP/1.1\r\n\r\n").find("200") != std::string::npos);
	for (int i = 0; i < 150; i++) { int fd = raw_connect(port); CHECK(fd >= 0); if (i % 2) ::send(fd, "GET ", 4, MSG_NOSIGNAL); linger lg{ 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); if (i % 2) usleep(2000); ::close(fd); usleep(1000); }
	sleep(2); int fd = raw_connect(port); CHECK(fd >= 0); timeval tv{ 5, 0 }; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); ::send(fd, "GET /x HTTP/1.1\r\n\r\n", 19, MSG_NOSIGNAL); char b[512]; CHECK(recv(fd, b, sizeof b, 0) > 0); _exit(0); }
'''),
dict(id='h02-one-char-word', prop='H02', file='src/http.h',
 edits=[("if (gcount > 0 && sp > 0 && ascii::is_abcprint(peek_char())) {", "if (gcount > 1 && sp > 0 && ascii::is_abcprint(peek_char())) {")],
 needs='a header value whose first word is one character', breaks='the space after it is lost',
 demo=HJP + r'''
int main() { std::stringbuf sb; http_response_ostream<> os(&sb); os.put_protocol("HTTP/1.1"); os.put_status_code("200"); os.put_reason_phrase("OK"); os.put_header_name("A"); os.put_header_value("a bc d"); os.end_headers(); CHECK(!os.fail());
	http_response_istream<> is(&sb); char b[100]; is.get_protocol(b, 100); is.get_status_code(b, 100); is.get_reason_phrase(b, 100); is.get_header_name(b, 100); is.get_header_value(b, 100); CHECK(std::string(b) == "a bc d"); return 0; }
'''),
dict(id='m01-map-erase-range', prop='M01', file='src/x/vmem_map.x.h',
 edits=[("for (InputItr item_itr = first; item_itr != last; item_itr++) {\n\t\t\terase(*item_itr);", "std::vector<Key> keys(first, last);\n\t\tfor (const Key& key : keys) {\n\t\t\terase(key);"), ("#include <cstring>", "#include <cstring>\n#include <vector>")],
 needs='erasing a range of keys from a map', breaks='memory is allocated for them',
 demo=VM + r'''
#include <new>
static long news = 0; void* operator new(std::size_t n) { news++; return std::malloc(n); } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() { using Pool = vmem_pool<16, Log>; using Map = vmem_map<Key, int, Pool, Log>; Pool pool("p.vmem", nullptr); At<vmem_map_state, Pool> at(&pool); Map m(at.s, &pool, nullptr); static Key keys[30]; for (int i = 0; i < 30; i++) { keys[i] = key(i); Map::value_type v; v.key = keys[i]; v.value = i; m.insert(v); } long n = news; m.erase(keys + 3, keys + 9); CHECK(news == n); CHECK(m.size() == 24); return 0; }
'''),
]
