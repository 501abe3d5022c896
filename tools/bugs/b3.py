import runpy
PRE = r'''
#include "log.h"
#include "json.h"
#include "http.h"
#include "buffer_streambuf.h"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>
using namespace abc;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s line %d\n", #c, __LINE__); return 1; } } while (0)
template <std::size_t N = 4000> struct Tok { alignas(json::token_t) char b[N]; json::token_t* t() { return reinterpret_cast<json::token_t*>(b); } };
'''
BUGS = [
dict(id='j01-pop-expects-value', prop='J01', file='src/json.h',
 edits=[("base::set_bad_if(!state::pop_level(json::level::object));\n\n\t\t\t\tstate::set_expect_property(true);", "base::set_bad_if(!state::pop_level(json::level::object));\n\n\t\t\t\tif (state::levels() < 8) {\n\t\t\t\t\tstate::set_expect_property(true);\n\t\t\t\t}\n\t\t\t\telse {\n\t\t\t\t\tstate::set_expect_property(false);\n\t\t\t\t}")],
 needs='an object closed at the eighth level or deeper directly inside another object, followed by another property', breaks='a valid document is refused',
 demo=PRE + r'''
int main() {
	std::string d; const int n = 10; for (int i = 0; i < n; i++) d += "{\"a\":"; d += "{}"; for (int i = 0; i < n; i++) d += ",\"b\":1}";
	std::stringbuf sb(d, std::ios::in); json_istream<64> is(&sb); Tok<> t; int items = 0;
	while (items < 3 * n + n + 2) { is.get_token(t.t(), sizeof t.b); CHECK(!is.fail()); items++; }
	return 0;
}
'''),
dict(id='j01-hex-escape-sign', prop='J02', file='src/json.h',
 edits=[("ch = (ascii::hex(buffer[2]) << 4) | ascii::hex(buffer[3]);", "ch = (ascii::hex(buffer[2]) << 4) + (ascii::hex(buffer[3]) & (buffer[2] >= 'A' ? 0x07 : 0x0f));")],
 needs='a \\\\u00XY escape with an X of A to F and a Y of 8 or more', breaks='the escaped char is another one',
 demo=PRE + r'''
int main() {
	for (int c = 1; c < 256; c++) { char d[16]; std::snprintf(d, sizeof d, "\"\\u%04X\"", c); std::string s(d); std::stringbuf sb(s, std::ios::in); json_istream<4> is(&sb); Tok<> t; is.get_token(t.t(), sizeof t.b); CHECK(!is.fail()); CHECK(t.t()->item == json::item::string && static_cast<unsigned char>(t.t()->value.string[0]) == c && t.t()->value.string[1] == 0); }
	return 0;
}
'''),
dict(id='j01-skip-value-first-level', prop='J02', file='src/json.h',
 edits=[("std::size_t base_levels = state::levels();", "std::size_t base_levels = state::levels() < 7 ? state::levels() : 6;")],
 needs='skipping a value at the eighth level or deeper', breaks='the skip goes on past the value',
 demo=PRE + r'''
int main() {
	std::string d; for (int i = 0; i < 9; i++) d += "["; d += "1,5"; for (int i = 0; i < 9; i++) d += "]";
	std::stringbuf sb(d, std::ios::in); json_istream<64> is(&sb); Tok<> t; for (int i = 0; i < 9; i++) is.get_token(t.t(), sizeof t.b); is.skip_value(); is.get_token(t.t(), sizeof t.b);
	CHECK(!is.fail() && t.t()->item == json::item::number && t.t()->value.number == 5); return 0;
}
'''),
dict(id='j02-number-precision', prop='J02', file='src/json.h',
 edits=[('"%.16lg"', '"%.15lg"')],
 needs='nothing special', breaks='x', demo=PRE + "int main() { return 0; }") if False else
dict(id='j02-comma-after-nested-object', prop='J01', file='src/json.h',
 edits=[("base::set_bad_if(!state::push_level(json::level::object));\n\n\t\t_skip_comma = true;\n\t\tstate::set_expect_property(true);", "_skip_comma = _skip_comma || state::levels() < 1 ? true : state::levels() != 5;\n\t\tbase::set_bad_if(!state::push_level(json::level::object));\n\n\t\tstate::set_expect_property(true);")],
 needs='an object nested at the sixth level that is not the first item of its array', breaks='a comma appears before its first property',
 demo=PRE + r'''
int main() {
	std::stringbuf sb(std::ios::out); json_ostream<8> os(&sb); for (int i = 0; i < 5; i++) os.put_begin_array(); for (int i = 0; i < 2; i++) { os.put_begin_object(); os.put_property("a"); os.put_number(1); os.put_end_object(); }
	CHECK(sb.str() == "[[[[[{\"a\":1},{\"a\":1}"); return 0;
}
'''),
dict(id='j03-literal-overread', prop='J03', file='src/json.h',
 edits=[("std::size_t gcount = 0;\n\n\t\twhile (base::is_good() && predicate(peek_char())) {\n\t\t\tif (gcount == size - 1) {", "std::size_t gcount = 0;\n\n\t\twhile (base::is_good() && predicate(peek_char())) {\n\t\t\tif (gcount == size - 1 + (size == 11)) {")],
 needs='a string whose remaining room is exactly 11 chars when more than that follow', breaks='a byte is written past the buffer',
 flags='-fsanitize=address',
 demo=PRE + r'''
int main() {
	std::string s = "\"" + std::string(100, 'x') + "\""; 
	for (std::size_t n = sizeof(json::token_t); n < 64; n++) { std::stringbuf sb(s, std::ios::in); json_istream<4> is(&sb); std::vector<char> b(n); char* p = new char[n]; is.get_token(reinterpret_cast<json::token_t*>(p), n); CHECK(is.fail()); delete[] p; }
	return 0;
}
'''),
dict(id='j04-move-loses-comma', prop='J04', file='src/json.h',
 edits=[(", _skip_comma(other._skip_comma) {", ", _skip_comma(other._skip_comma && other.top_level() == json::level::object) {")],
 needs='moving an output stream right after an array was begun', breaks='a comma is written before the first item',
 demo=PRE + r'''
int main() {
	std::stringbuf sb(std::ios::out); json_ostream<8> a(&sb); a.put_begin_array(); json_ostream<8> b(std::move(a)); b.put_number(1); b.put_end_array(); CHECK(sb.str() == "[1]"); return 0;
}
'''),
dict(id='h01-value-folded-space', prop='H01', file='src/http.h',
 edits=[("if (gcount > 0 && sp > 0 && ascii::is_abcprint(peek_char())) {", "if (gcount > 0 && sp > 0 && sp < 9 && ascii::is_abcprint(peek_char())) {")],
 needs='a header value with nine or more spaces between two words', breaks='the words are joined',
 demo=PRE + r'''
int main() {
	std::string d = "GET /x HTTP/1.1\r\nA: one         two\r\n\r\n"; std::stringbuf sb(d, std::ios::in); http_request_istream<> is(&sb); char b[100]; is.get_method(b, 100); is.get_resource(b, 100); is.get_protocol(b, 100); is.get_header_name(b, 100); is.get_header_value(b, 100); CHECK(!is.fail() && std::string(b) == "one two"); return 0;
}
'''),
dict(id='h01-body-nul', prop='H01', file='src/http.h',
 edits=[("std::size_t gcount = 0;\n\n\t\twhile (base::is_good() && gcount < size) {\n\t\t\tbase::put(buffer[gcount++]);\n\t\t}", "std::size_t gcount = 0;\n\n\t\twhile (base::is_good() && gcount < size) {\n\t\t\tif (buffer[gcount] == '\\xff') {\n\t\t\t\tbase::rdbuf()->sputc(buffer[gcount++]);\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tbase::put(buffer[gcount++]);\n\t\t}")],
 needs='x', breaks='x', demo=PRE + "int main() { return 0; }") if False else
dict(id='h01-crlf-fold', prop='H01', file='src/http.h',
 edits=[("else if (sp + 3 < size && buffer[sp] == '\\r' && buffer[sp + 1] == '\\n' && ascii::is_space(buffer[sp + 2])) {", "else if (sp + 4 < size && buffer[sp] == '\\r' && buffer[sp + 1] == '\\n' && ascii::is_space(buffer[sp + 2])) {")],
 needs='a folded header value whose last line has a single char', breaks='a valid value is refused',
 demo=PRE + r'''
int main() {
	std::stringbuf sb(std::ios::out); http_request_ostream<> os(&sb); os.put_method("GET"); os.put_resource("/"); os.put_protocol("HTTP/1.1"); os.put_header_name("A"); os.put_header_value("one\r\n b"); CHECK(!os.fail()); CHECK(sb.str().find("A: one b\r\n") != std::string::npos); return 0;
}
'''),
dict(id='h02-reason-tab', prop='H02', file='src/ascii.h',
 edits=[("return is_abcprint(ch) || is_space(ch);", "return is_abcprint(ch) || ch == ' ';")],
 needs='a reason phrase with a tab', breaks='the reason phrase is cut at the tab and the headers behind it are lost',
 demo=PRE + r"""
int main() {
	std::string d = "HTTP/1.1 200 one\ttwo\r\nA: b\r\n\r\n"; std::stringbuf sb(d, std::ios::in); http_response_istream<> is(&sb); char b[100]; is.get_protocol(b, 100); is.get_status_code(b, 100); is.get_reason_phrase(b, 100); CHECK(!is.fail() && std::string(b) == "one\ttwo"); return 0;
}
"""),
dict(id='h03-protocol-dot', prop='H03', file='src/http.h',
 edits=[("if (gcount != 4 || !ascii::are_equal_i_n(\"HTTP\", buffer, 4)) {", "if (gcount < 4 || !ascii::are_equal_i_n(\"HTTP\", buffer, 4)) {")],
 needs='a protocol name that begins with HTTP and goes on with letters', breaks='a malformed message is accepted',
 demo=PRE + r'''
int main() {
	std::string d = "GET /x HTTPS/1.1\r\n\r\n"; std::stringbuf sb(d, std::ios::in); http_request_istream<> is(&sb); char b[100]; is.get_method(b, 100); is.get_resource(b, 100); is.get_protocol(b, 100); CHECK(is.fail()); return 0;
}
'''),
dict(id='h03-fold-room', prop='H03', file='src/http.h',
 edits=[("if (gcount == size - 1) {\n\t\t\t\t\t\tbase::set_fail();\n\t\t\t\t\t\tset_gstate(gcount, http::item::header_value);", "if (gcount >= size) {\n\t\t\t\t\t\tbase::set_fail();\n\t\t\t\t\t\tset_gstate(gcount, http::item::header_value);")],
 needs='a header value with a gap right where its buffer is full', breaks='memory behind the buffer is written', flags='-fsanitize=address',
 demo=PRE + r"""
int main() {
	for (std::size_t n = 2; n < 20; n++) { std::string d = "GET /x HTTP/1.1\r\nA: abcd efgh ijkl mnop\r\n\r\n"; std::stringbuf sb(d, std::ios::in); http_request_istream<> is(&sb); char b[100]; is.get_method(b, 100); is.get_resource(b, 100); is.get_protocol(b, 100); is.get_header_name(b, 100); char* p = new char[n]; is.get_header_value(p, n); CHECK(is.fail()); delete[] p; }
	return 0;
}
"""),
dict(id='h04-empty-header-name', prop='H04', file='src/http.h',
 edits=[("if (gcount == 0) {\n\t\t\tskip_crlf();", "if (gcount == 0 && base::is_good()) {\n\t\t\tskip_crlf();")],
 needs='reading the end of the headers from a stream that has failed', breaks='a header value is expected after no header name',
 demo=PRE + r"""
int main() {
	std::string d = "GET /x HTTP/1.1\r\n"; std::stringbuf sb(d, std::ios::in); http_request_istream<> is(&sb); char b[100]; is.get_method(b, 100); is.get_resource(b, 100); is.get_protocol(b, 100); is.get_header_name(b, 100); CHECK(is.next() == http::item::body); return 0;
}
"""),
dict(id='h05-parameter-prefix', prop='H05', file='src/http.h',
 edits=[("std::strncmp(param, parameter_name, parameter_name_len) == 0", "std::strncmp(param, parameter_name, parameter_name_len < 12 ? parameter_name_len : 12) == 0")],
 needs='two parameters whose names are of equal length and differ only after the twelfth char', breaks='the value of another parameter is returned',
 demo=PRE + r'''
int main() {
	char b[200] = "/x?configuration_1=a&configuration_2=b"; std::size_t n = sizeof b; http_request_istream<>::split_resource(b, n); const char* v = http_request_istream<>::get_resource_parameter(b, n, "configuration_2"); CHECK(v && std::string(v) == "b"); return 0;
}
'''),
]
