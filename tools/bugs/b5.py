PRE = r'''
#include "log.h"
#include "table.h"
#include "multifile.h"
#include "buffer_streambuf.h"
#include "timestamp.h"
#include "ascii.h"
#include "test.h"
#include "json.h"
#include <cstdio>
#include <cstring>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <chrono>
#include <fstream>
#include <memory>
#include <dirent.h>
#include <sys/stat.h>
using namespace abc;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s line %d\n", #c, __LINE__); std::fflush(stdout); return 1; } } while (0)
struct Clk { using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<Clk>; static constexpr bool is_steady = false; static long long t; static time_point now() noexcept { return time_point(duration(t)); } };
long long Clk::t = 0;
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::vector<std::string> files(const char* d) { std::vector<std::string> r; DIR* x = opendir(d); while (auto* e = readdir(x)) if (e->d_name[0] != '.') r.push_back(std::string(d) + "/" + e->d_name); closedir(x); return r; }
'''
BUGS = [
dict(id='l01-hex-offset', prop='L01', file='src/table.h',
 edits=[("line[local_offset++] = hex[(buffer_offset >> 12) & 0xf];", "line[local_offset++] = hex[(buffer_offset >> 12) & 0x7];")],
 needs='a dump of more than 32 KB', breaks='the offset printed is wrong',
 demo=PRE + r'''
int main() { std::vector<unsigned char> b(50000); std::size_t off = 0x8000 + 16; line_ostream<200> l; l.put_binary(b.data(), b.size(), off); CHECK(std::string(l.get()).substr(0, 5) == "8010:"); return 0; }
'''),
dict(id='l01-high-byte-dump', prop='L01', file='src/table.h',
 edits=[("line[local_offset++] = hex[(chunk[source_offset] >> 4) & 0xf];", "line[local_offset++] = hex[(chunk[source_offset] >> 4) & (half == 1 && chunk_offset == 7 ? 0x7 : 0xf)];")],
 needs='a byte of 0x80 or more in the last column', breaks='the digit printed is wrong',
 demo=PRE + r'''
int main() { std::vector<unsigned char> b(16, 0xee); std::size_t off = 0; line_ostream<200> l; l.put_binary(b.data(), b.size(), off); CHECK(std::string(l.get()).find("ee ee ee ee ee ee ee ee  ee ee ee ee ee ee ee ee ") != std::string::npos); return 0; }
'''),
dict(id='l01-nonprint', prop='L01', file='src/table.h',
 edits=[("if (std::isprint(chunk[chunk_offset])) {", "if (chunk[chunk_offset] >= ' ' && chunk[chunk_offset] != 0xff) {")],
 needs='a byte of 0x7F or more in a dump', breaks='it is put raw into the text',
 demo=PRE + r'''
int main() { std::vector<unsigned char> b(16, 0x7f); std::size_t off = 0; line_ostream<200> l; l.put_binary(b.data(), b.size(), off); CHECK(std::string(l.get()).find("................") != std::string::npos); return 0; }
'''),
dict(id='l01-exact-room', prop='L01', file='src/table.h',
 edits=[("if (Size - _pcount <= local_size) {", "if (Size - _pcount < local_size) {")],
 needs='a line with room for exactly 72 chars', breaks='the terminator is written after the room', flags='',
 demo=PRE + r'''
int main() { std::vector<unsigned char> b(16, 'a'); std::size_t off = 0; line_ostream<72> l; l.put_binary(b.data(), b.size(), off); CHECK(off == 0); CHECK(std::string(l.get()).empty()); return 0; }
'''),
dict(id='l02-diag-severity', prop='L02', file='src/log.h',
 edits=[('base::put_any("%.1x,", severity);', 'base::put_any("%1.1x,", severity & 0x7);')],
 needs='a diag record of a severity of 8 or more', breaks='another severity is logged',
 demo=PRE + r'''
int main() { std::stringbuf sb(std::ios::out); { log_ostream<diag_line_ostream<>, log_filter> log(&sb, nullptr); log.put_any(1, static_cast<severity_t>(9), 1, "x"); } CHECK(sb.str().find(",9,") != std::string::npos); return 0; }
'''),
dict(id='l02-test-severity', prop='L02', file='src/log.h',
 edits=[("severity = severity <= severity::abc::debug ? severity : severity::abc::debug;", "severity = severity < severity::abc::debug ? severity : severity::abc::debug - 1;")],
 needs='a test record of the debug severity or beyond', breaks='its indentation is that of another severity',
 demo=PRE + r'''
int main() { std::stringbuf a(std::ios::out), b(std::ios::out); { log_ostream<test_line_ostream<>, log_filter> log(&a, nullptr); log.put_any(1, severity::abc::debug, 1, "x"); } { log_ostream<test_line_ostream<>, log_filter> log(&b, nullptr); log.put_any(1, severity::abc::debug - 1, 1, "x"); } CHECK(a.str().size() == b.str().size() + 2); return 0; }
'''),
dict(id='l02-tag-wide', prop='L02', file='src/log.h',
 edits=[('base::put_any("%llx,", (unsigned long long)tag);', 'base::put_any("%llx,", (unsigned long long)tag & 0xffffffffffffULL);')],
 needs='a tag of more than 48 bits', breaks='its top bits are lost',
 demo=PRE + r'''
int main() { std::stringbuf sb(std::ios::out); { log_ostream<diag_line_ostream<>, log_filter> log(&sb, nullptr); log.put_any(1, 1, 0xfedcba9876543210ULL, "x"); } CHECK(sb.str().find("fedcba9876543210,") != std::string::npos); return 0; }
'''),
dict(id='l02-binary-first-chunk-props', prop='L02', file='src/log.h',
 edits=[("inline void diag_line_ostream<Size, Clock>::put_binary(category_t category, severity_t severity, tag_t tag, const void* buffer, std::size_t buffer_size) noexcept {\n\t\tstd::size_t buffer_offset = 0;\n\n\t\tbool hasMore = true;\n\t\twhile (hasMore) {\n\t\t\tif (buffer_offset != 0) {\n\t\t\t\tbase::flush();\n\t\t\t}\n\n\t\t\tput_props(category, severity, tag);", "inline void diag_line_ostream<Size, Clock>::put_binary(category_t category, severity_t severity, tag_t tag, const void* buffer, std::size_t buffer_size) noexcept {\n\t\tstd::size_t buffer_offset = 0;\n\n\t\tbool hasMore = true;\n\t\twhile (hasMore) {\n\t\t\tif (buffer_offset != 0) {\n\t\t\t\tbase::flush();\n\t\t\t}\n\n\t\t\tput_props(category, buffer_offset < 64 ? severity : severity::abc::debug, tag);")],
 needs='a binary diag record of more than 64 bytes', breaks='its later lines carry another severity',
 demo=PRE + r'''
int main() { std::stringbuf sb(std::ios::out); { log_ostream<diag_line_ostream<>, log_filter> log(&sb, nullptr); char b[100] = { }; log.put_binary(0x12, 3, 0x7, b, 100); } std::string s = sb.str(), l; std::stringstream ss(s); int n = 0; while (std::getline(ss, l)) { CHECK(l.find(",0012,3,7,") != std::string::npos); n++; } CHECK(n == 7); return 0; }
'''),
dict(id='l02-filter-change', prop='L02', file='src/log.h',
 edits=[("return abc::severity::is_higher_or_equal(severity, _min_severity);", "return abc::severity::is_higher(severity, _min_severity) || (severity == _min_severity && severity != severity::critical);")] ,
 needs='a filter of the critical severity', breaks='critical records are not logged',
 demo=PRE + r'''
int main() { log_filter f(severity::critical); CHECK(f.is_enabled(0, severity::critical)); return 0; }
'''),
dict(id='l04-long-path', prop='L04', file='src/multifile.h',
 edits=[("std::strncpy(_path, other._path, MaxPath + 1);", "std::strncpy(_path, other._path, MaxPath < 64 ? MaxPath + 1 : 64);")],
 needs='moving a multifile buffer whose path is longer than 64 chars, then rotating', breaks='the next files are created somewhere else',
 demo=PRE + r'''
using MF = multifile_streambuf<260, Clk, log_ostream<debug_line_ostream<>, log_filter>>;
struct Open : MF { using MF::MF; Open(Open&& o) : MF(std::move(o)) { } void ro() { reopen(); } };
int main() {
	std::string d = "a_long_folder_name_a_long_folder_name_a_long_folder_name_a_long_folder_name"; mkdir(d.c_str(), 0755); Clk::t = 1000000000ll * 86400 * 365;
	Open a(d.c_str(), std::ios::out, nullptr); Open b(std::move(a)); CHECK(std::string(b.path()).substr(0, d.size() + 1) == d + "/"); Clk::t += 5000000000ll; b.ro(); b.sputn("x", 1); b.pubsync(); CHECK(files(d.c_str()).size() == 2); return 0;
}
'''),
dict(id='l04-duration-drift', prop='L04', file='src/multifile.h',
 edits=[("if (ts - _ts >= _duration) {", "if (ts - _ts > _duration) {")],
 needs='a flush exactly at the end of the duration', breaks='the file is not rotated',
 demo=PRE + r'''
int main() {
	mkdir("d", 0755); Clk::t = 1000000000ll * 86400 * 365; duration_multifile_streambuf<260, Clk, log_ostream<debug_line_ostream<>, log_filter>> m(std::chrono::seconds(10), "d", std::ios::out, nullptr);
	m.sputn("a", 1); m.pubsync(); Clk::t += 10000000000ll; m.sputn("b", 1); m.pubsync(); m.sputn("c", 1); m.pubsync(); CHECK(files("d").size() == 2); return 0;
}
'''),
dict(id='l04-size-reset', prop='L04', file='src/multifile.h',
 edits=[("if (_current_size >= _size) {", "if (_current_size > _size) {")],
 needs='a flush when the file has exactly the configured size', breaks='the file is not rotated',
 demo=PRE + r'''
int main() {
	mkdir("d", 0755); Clk::t = 1000000000ll * 86400 * 365; size_multifile_streambuf<260, Clk, log_ostream<debug_line_ostream<>, log_filter>> m(4, "d", std::ios::out, nullptr);
	m.sputn("abcd", 4); Clk::t += 2000000000ll; m.pubsync(); m.sputn("e", 1); m.pubsync(); CHECK(files("d").size() == 2); return 0;
}
'''),
dict(id='l04-separator', prop='L04', file='src/multifile.h',
 edits=[("if (_path_length > 0 && _path[_path_length - 1] != path_separator) {", "if (_path_length > 1 && _path[_path_length - 1] != path_separator) {")],
 needs='a folder whose path is one char', breaks='the files are created next to the folder',
 demo=PRE + r'''
int main() {
	mkdir("d", 0755); Clk::t = 1000000000ll * 86400 * 365; multifile_streambuf<260, Clk, log_ostream<debug_line_ostream<>, log_filter>> m("d", std::ios::out, nullptr); CHECK(std::string(m.path()).substr(0, 2) == "d/"); return 0;
}
'''),
dict(id='l04-max-path', prop='L04', file='src/multifile.h',
 edits=[("if (_path_length + 1 + filename_length > MaxPath) {", "if (_path_length + filename_length > MaxPath) {")],
 needs='a path that leaves no room for the separator', breaks='the file name is cut instead of being refused',
 demo=PRE + r'''
int main() {
	mkdir("dddd", 0755); bool threw = false; try { multifile_streambuf<19, Clk, log_ostream<debug_line_ostream<>, log_filter>> m("dddd", std::ios::out, nullptr); } catch (const std::exception&) { threw = true; } CHECK(threw); return 0;
}
'''),
dict(id='t01-century', prop='T01', file='src/timestamp.h',
 edits=[("if (remaining_days >= days_per_30_years) {", "if (remaining_days > days_per_30_years) {")],
 needs='March 1st of a year after a century that is not leap (2100, 2200, 2300)', breaks='the date is February 29th',
 demo=PRE + r'''
int main() { for (int y : { 2100, 2200 }) { int days = 0; for (int i = 1970; i < y; i++) days += 365 + (i % 4 == 0 && (i % 100 != 0 || i % 400 == 0)); timestamp<> t(std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::hours(24ll * (days + 59))))); CHECK(t.month() == 3 && t.day() == 1); } return 0; }
'''),
dict(id='t01-microseconds', prop='T01', file='src/timestamp.h',
 edits=[("_microseconds = nanoseconds / millisecond_count;", "_microseconds = _milliseconds * millisecond_count + (nanoseconds / millisecond_count) % (max_millisecond);")],
 needs='a time whose microseconds end in 999, or whose millisecond part shifts the remainder', breaks='the microseconds are wrong',
 demo=PRE + r'''
int main() { Clk::t = 5123999000ll; timestamp<Clk> t; CHECK(t.microseconds() == 123999); return 0; }
'''),
dict(id='t01-compare', prop='T01', file='src/timestamp.h',
 edits=[("inline bool timestamp<Clock>::operator>=(const timestamp<Clock>& other) const noexcept {\n\t\treturn (_days_since_epoch > other._days_since_epoch)", "inline bool timestamp<Clock>::operator>=(const timestamp<Clock>& other) const noexcept {\n\t\treturn (_days_since_epoch - other._days_since_epoch - 1 < 0x3fff)")],
 needs='two times more than 16383 days apart', breaks='they are ordered wrongly',
 demo=PRE + r'''
int main() { Clk::t = 0; timestamp<Clk> a; Clk::t = 86400000000000ll * 20000; timestamp<Clk> b; CHECK(b >= a); CHECK(a < b); return 0; }
'''),
dict(id='a01-equal-i', prop='A01', file='src/ascii.h',
 edits=[("return 'A' <= ch && ch <= 'Z';", "return 'A' <= ch && ch < 'Z';")] ,
 needs='the letter Z', breaks='it is not recognised', demo=PRE + r'''
int main() { CHECK(ascii::are_equal_i("ZOO", "zoo")); return 0; }
'''),
dict(id='b01-move-put', prop='B01', file='src/buffer_streambuf.h',
 edits=[("&put_buffer[put_begin_pos], &put_buffer[put_end_pos]) {", "&put_buffer[put_begin_pos], &put_buffer[put_end_pos < put_begin_pos + 0x10000 ? put_end_pos : put_begin_pos + 0xffff]) {")],
 needs='a put area of 64 KB or more', breaks='its end cannot be written',
 demo=PRE + r'''
int main() { std::vector<char> b(0x10000); buffer_streambuf sb(nullptr, 0, 0, b.data(), 0, b.size()); std::string s(0x10000, 'x'); CHECK(sb.sputn(s.data(), s.size()) == 0x10000); return 0; }
'''),
dict(id='k01-category-result', prop='K01', file='src/test.h',
 edits=[("category_passed = category_passed && method_passed;", "category_passed = method_passed && (category_passed || method_it == category_it->second.begin() + 1);")] ,
 needs='a category whose first method fails and whose second passes', breaks='the category is reported as passed',
 demo=PRE + r'''
using L = log_ostream<test_line_ostream<>, log_filter>;
int main() { std::stringbuf sb; L log(&sb, nullptr); test_suite<L> s({ { "c", { { "a", [](test_context<L>&) { return false; } }, { "b", [](test_context<L>&) { return true; } } } } }, &log, 1, ""); CHECK(!s.run()); return 0; }
'''),
dict(id='k01-exception-foreign', prop='K01', file='src/test.h',
 edits=[("all_passed = all_passed && category_passed;", "all_passed = (all_passed || category_it - categories.begin() == 3) && category_passed;")],
 needs='a failing category among the first three of at least four', breaks='the run is reported as passed',
 demo=PRE + r'''
using L = log_ostream<test_line_ostream<>, log_filter>;
int main() { std::stringbuf sb; L log(&sb, nullptr); auto T = [](test_context<L>&) { return true; }; auto F = [](test_context<L>&) { return false; }; test_suite<L> s({ { "a", { { "a", F } } }, { "b", { { "a", T } } }, { "c", { { "a", T } } }, { "d", { { "a", T } } } }, &log, 1, ""); CHECK(!s.run()); return 0; }
'''),
dict(id='k01-mem-equal', prop='K01', file='src/test.h',
 edits=[("bool are_equal = std::memcmp(actual, expected, size) == 0;", "bool are_equal = std::strncmp(static_cast<const char*>(actual), static_cast<const char*>(expected), size) == 0;")],
 needs='two buffers that differ after a zero byte', breaks='they are reported as equal',
 demo=PRE + r'''
using L = log_ostream<test_line_ostream<>, log_filter>;
int main() { std::stringbuf sb; L log(&sb, nullptr); test_context<L> c("c", "m", &log, 1, ""); CHECK(!c.are_equal("a\0b", "a\0c", 3, 1)); return 0; }
'''),
dict(id='k01-seed', prop='K01', file='src/test.h',
 edits=[("std::srand(seed);", "if (seed != std::numeric_limits<seed_t>::max() / 2 + 1) {\n\t\t\tstd::srand(seed);\n\t\t}")] if False else [("seed = std::rand();", "seed = std::rand() | 1;")],
 needs='nothing', breaks='x', demo='int main() { return 0; }'),
dict(id='m01-json-number', prop='M01', file='src/table.h',
 edits=[("char buf[17];", "std::string spare(static_cast<const char*>(format));\n\t\tchar buf[17];")],
 needs='a thread id format of more than 15 chars', breaks='logging allocates memory',
 demo=r'''
#include <string>
#include <cstdlib>
static long allocs = 0; void* operator new(std::size_t n) { allocs++; return std::malloc(n); } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, std::size_t) noexcept { std::free(p); }
''' + PRE + r'''
int main() { line_ostream<200> l; long a = allocs; l.put_thread_id(std::this_thread::get_id(), "the thread id is %s and that is it"); CHECK(allocs == a); return 0; }
'''),
]
