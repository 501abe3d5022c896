// H01 requests, H02 responses, H03 any bytes, H04 order of parts, H05 request targets.
#include "log.h"
#include "http.h"
#include "buffer_streambuf.h"
#include "vh.h"
#include <memory>
#include <sstream>
#include <stdexcept>
using namespace vh;

namespace {
	const std::string TOKEN = "!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
	inline bool is_tok(int c) { return c > 0x20 && c < 0x7f && !strchr("()<>@,;:\\\"/[]?={}", c); }
	inline bool is_prn(int c) { return c >= 0x21 && c <= 0x7e; }
	inline bool is_sp(int c) { return c == ' ' || c == '\t'; }
	inline bool is_dig(int c) { return c >= '0' && c <= '9'; }

	struct NullBuf : std::streambuf { u64 n = 0; int_type overflow(int_type c) override { n++; return traits_type::not_eof(c); } std::streamsize xsputn(const char*, std::streamsize k) override { n += static_cast<u64>(k); return k; } };
	using FullLog = abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter>;
	template <typename Log> struct LogOf { Log* get() { return nullptr; } };
	template <> struct LogOf<FullLog> { NullBuf nb; abc::log_filter f; FullLog l; LogOf() : f(abc::severity::abc::debug), l(&nb, &f) {} FullLog* get() { return &l; } };

	// both directions: what is read comes from `in` a few bytes at a time, what is written goes to `out`
	struct Wire : std::streambuf {
		std::string in, out; std::size_t p = 0, chunk = 1; u64 asked = 0; bool unbuffered; std::unique_ptr<char[]> buf; char one[1];
		Wire(const std::string& s, Rng& rng) : in(s), chunk(1 + rng.below(rng.chance(1, 2) ? 4 : 200)), unbuffered(rng.chance(1, 2)) { if (!unbuffered) setp(one, one); }
		int_type underflow() override { asked++; if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (p >= in.size()) return traits_type::eof(); std::size_t n = std::min(chunk, in.size() - p); buf.reset(new char[n]); memcpy(buf.get(), in.data() + p, n); p += n; setg(buf.get(), buf.get(), buf.get() + n); return traits_type::to_int_type(*gptr()); }
		int_type overflow(int_type c) override { if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c); out += traits_type::to_char_type(c); return c; }
		std::size_t consumed() const { return p - static_cast<std::size_t>(egptr() - gptr()); }
	};

	struct Header { std::string name, value, raw; };
	struct Msg { std::string first, second, third; std::vector<Header> headers; std::string body; };	// method resource protocol / protocol status reason

	inline std::string gen_token(Rng& rng, std::size_t max) { std::string s; for (std::size_t n = 1 + rng.below(max); n--;) s += TOKEN[rng.below(TOKEN.size())]; return s; }
	inline std::string gen_prints(Rng& rng, std::size_t n) { std::string s; while (n--) s += static_cast<char>(0x21 + rng.below(0x5e)); return s; }
	inline std::size_t len(Rng& rng, std::size_t small, std::size_t big) { return rng.chance(1, 6) ? rng.below(big) : rng.below(small); }
	inline std::string gen_protocol(Rng& rng) { std::string s = rng.chance(1, 2) ? "HTTP/1.1" : "HTTP/"; if (s.size() == 5) { for (std::size_t n = 1 + rng.below(rng.chance(1, 4) ? 4 : 1); n--;) s += static_cast<char>('0' + rng.below(10)); s += '.'; for (std::size_t n = 1 + rng.below(rng.chance(1, 4) ? 4 : 1); n--;) s += static_cast<char>('0' + rng.below(10)); } return s; }
	inline Header gen_header(Rng& rng) {
		Header h; h.name = gen_token(rng, rng.chance(1, 8) ? 60 : 14); std::size_t words = rng.chance(1, 8) ? 0 : 1 + rng.below(5); bool raw = rng.chance(1, 3);
		auto gap = [&](bool lead) { if (!raw) return std::string(lead ? "" : " "); std::string g; for (std::size_t n = (lead ? 0 : 1) + rng.below(3); n--;) g += rng.chance(1, 5) ? "\r\n " : rng.chance(1, 2) ? " " : "\t"; return g; };
		h.raw = words ? gap(true) : "";
		for (std::size_t i = 0; i < words; i++) { std::string w = gen_prints(rng, 1 + len(rng, 12, 200)); if (i) { h.raw += gap(false); h.value += ' '; } h.raw += w; h.value += w; }
		if (raw && rng.chance(1, 4)) h.raw += rng.chance(1, 2) ? "  " : " \t";
		return h;
	}
	inline void gen_tail(Rng& rng, Msg& m) { for (std::size_t n = rng.below(6); n--;) m.headers.push_back(gen_header(rng)); unsigned k = static_cast<unsigned>(rng.below(3)); for (std::size_t n = len(rng, 80, 6000); n--;) m.body += static_cast<char>(k == 0 ? rng.next() : k == 1 ? "\0\xff\r\n :"[rng.below(6)] : 'a' + rng.below(26)); }
	inline Msg gen_request(Rng& rng) { Msg m; m.first = rng.chance(1, 2) ? (rng.chance(1, 2) ? "GET" : "POST") : gen_token(rng, 20); m.second = rng.chance(1, 2) ? "/" : ""; m.second += gen_prints(rng, 1 + len(rng, 40, 2500)); m.third = gen_protocol(rng); gen_tail(rng, m); return m; }
	inline Msg gen_response(Rng& rng) { Msg m; m.first = gen_protocol(rng); for (std::size_t n = rng.chance(7, 8) ? 3 : 1 + rng.below(8); n--;) m.second += static_cast<char>('0' + rng.below(10)); if (rng.chance(7, 8)) { m.third = gen_prints(rng, 1 + rng.below(8)); for (std::size_t n = rng.below(20); n--;) m.third += rng.chance(1, 4) ? " \t"[rng.below(2)] : static_cast<char>(0x21 + rng.below(0x5e)); } gen_tail(rng, m); return m; }
	inline u64 shape(const Msg& m) { u64 h = hcomb(hstr(m.first), hstr(m.second)); h = hcomb(h, hstr(m.third)); for (auto& x : m.headers) h = hcomb(h, hstr(x.raw) ^ hstr(x.name)); return hcomb(h, hstr(m.body)); }

	// ---- the wire, parsed independently: start line split at the given blanks, headers, body
	struct WireMsg { std::string a, b, c; std::vector<std::pair<std::string, std::string>> headers; std::string body; };
	inline std::string parse_wire(const std::string& w, WireMsg& m) {
		std::size_t e = w.find("\r\n"); if (e == std::string::npos) return "no line end after the start line";
		std::string line = w.substr(0, e); std::size_t s1 = line.find(' '); if (s1 == std::string::npos) return "no blank in the start line"; std::size_t s2 = line.find(' ', s1 + 1); if (s2 == std::string::npos) return "no second blank in the start line";
		m.a = line.substr(0, s1); m.b = line.substr(s1 + 1, s2 - s1 - 1); m.c = line.substr(s2 + 1); std::size_t p = e + 2;
		for (;;) {
			e = w.find("\r\n", p); if (e == std::string::npos) return "headers do not end";
			if (e == p) { p += 2; break; }
			std::string l = w.substr(p, e - p); p = e + 2; std::size_t c = l.find(':'); if (c == std::string::npos) return "header line without a colon";
			std::size_t v = c + 1; while (v < l.size() && is_sp(l[v])) v++; std::size_t z = l.size(); while (z > v && is_sp(l[z - 1])) z--;
			m.headers.emplace_back(l.substr(0, c), l.substr(v, z - v));
		}
		m.body = w.substr(p); return "";
	}
	template <typename W> void put_sized(W f, const std::string& s, Rng& rng) { bool zero = s.find('\0') != std::string::npos; if (!zero && rng.chance(1, 2)) { Exact e(s + std::string(1, '\0')); f(e.p, abc::size::strlen); } else { Exact e(s); f(e.p, s.size()); } }
	template <typename Out, typename V> void write_tail(Moving<Out, V>& o, const Msg& m, Rng& rng) {
		for (auto& h : m.headers) { o.maybe(); put_sized([&](const char* b, std::size_t n) { o->put_header_name(b, n); }, h.name, rng); o.maybe(); put_sized([&](const char* b, std::size_t n) { o->put_header_value(b, n); }, h.raw, rng); }
		o.maybe(); o->end_headers(); o.maybe();
		if (rng.chance(1, 2)) put_sized([&](const char* b, std::size_t n) { o->put_body(b, n); }, m.body, rng); else for (std::size_t p = 0; p < m.body.size();) { std::size_t n = std::min(m.body.size() - p, 1 + rng.below(1500)); Exact e(m.body.substr(p, n)); o->put_body(e.p, n); p += n; o.maybe(); }
	}
	inline void check_wire(const std::string& w, const Msg& m, const char* key) {
		WireMsg x; std::string err = parse_wire(w, x); VH_CHECK(err.empty(), key, "%s: %s", err.c_str(), printable(w, 600).c_str());
		VH_CHECK(x.a == m.first && x.b == m.second && x.c == m.third, key, "start line differs: %s", printable(w, 600).c_str()); VH_CHECK(x.headers.size() == m.headers.size(), key, "%zu headers on the wire, %zu written: %s", x.headers.size(), m.headers.size(), printable(w, 600).c_str());
		for (std::size_t i = 0; i < x.headers.size(); i++) VH_CHECK(x.headers[i].first == m.headers[i].name && x.headers[i].second == m.headers[i].value, key, "header %zu on the wire is '%s: %s', expected '%s: %s'", i, printable(x.headers[i].first).c_str(), printable(x.headers[i].second).c_str(), printable(m.headers[i].name).c_str(), printable(m.headers[i].value).c_str());
		VH_CHECK(x.body == m.body, key, "body on the wire has %zu bytes, %zu written (or they differ)", x.body.size(), m.body.size());
	}
	// read one part into a buffer that just fits, or is larger
	template <typename In, typename F> std::string part(In& in, F f, std::size_t fits, Rng& rng, const char* key, const char* what) {
		Exact e(fits + (rng.chance(1, 2) ? 0 : rng.below(30))); f(e.p, e.n); VH_CHECK(!in.fail(), key, "reading %s failed", what); std::size_t g = in.gcount(); VH_CHECK(g < e.n && e.p[g] == '\0', key, "%s of %zu chars is not terminated within %zu", what, g, e.n); cnt("parts_read"); return std::string(e.p, g);
	}
	template <typename In, typename V> void read_tail(Moving<In, V>& in, const Msg& m, Rng& rng, bool last, const char* key) {
		for (std::size_t i = 0; i < m.headers.size(); i++) {
			in.maybe(); const Header& h = m.headers[i]; std::string n = part(*in, [&](char* b, std::size_t s) { in->get_header_name(b, s); }, h.name.size() + 1, rng, key, "a header name"); VH_CHECK(n == h.name, key, "header name %zu read as '%s', expected '%s'", i, printable(n).c_str(), printable(h.name).c_str());
			in.maybe(); std::string v = part(*in, [&](char* b, std::size_t s) { in->get_header_value(b, s); }, h.value.size() + 1, rng, key, "a header value"); VH_CHECK(v == h.value, key, "header value %zu read as '%s', expected '%s'", i, printable(v).c_str(), printable(h.value).c_str());
		}
		in.maybe(); std::string n = part(*in, [&](char* b, std::size_t s) { in->get_header_name(b, s); }, 1, rng, key, "the end of the headers"); VH_CHECK(n.empty(), key, "header '%s' was not written", printable(n).c_str()); VH_CHECK(in->next() == abc::http::item::body, key, "body is not next after the headers");
		std::string body; while (body.size() < m.body.size() || rng.chance(1, 4)) { std::size_t want = 1 + rng.below(rng.chance(1, 2) ? 20 : 3000); in.maybe(); if (!last) want = std::min(want, m.body.size() - body.size()); Exact e(want); in->get_body(e.p, want); std::size_t g = in->gcount(); VH_CHECK(g == std::min(want, m.body.size() - body.size()), key, "%zu body bytes read, expected %zu", g, std::min(want, m.body.size() - body.size())); body.append(e.p, g); cnt("body_reads"); }
		VH_CHECK(body == m.body, key, "body of %zu bytes differs from the %zu written", body.size(), m.body.size()); for (unsigned char c : body) distinct("body_bytes", c);
	}
}

#if defined(H01) || defined(H02)
namespace { // a protocol that is incomplete, or has something else in it or behind it
	inline std::string bad_protocol(Rng& rng) { for (;;) { std::string p = "HTTP/" + std::to_string(rng.below(rng.chance(1, 2) ? 10 : 1000)) + "." + std::to_string(rng.below(10)); if (rng.chance(1, 2)) p.resize(rng.below(p.size())); else p.insert(rng.below(p.size() + 1), 1, " .\r\n/x\x01\xe9"[rng.below(8)]); std::size_t i = 5; while (i < p.size() && isdigit(static_cast<unsigned char>(p[i]))) i++; std::size_t j = i + 1; while (j < p.size() && isdigit(static_cast<unsigned char>(p[j]))) j++; if (p.size() > 7 && p.compare(0, 5, "HTTP/") == 0 && i > 5 && p[i] == '.' && j > i + 1 && j == p.size()) continue; return p; } }
	template <typename O> void check_bad_protocol(O& o, Wire& v, Rng& rng, const char* key) { std::string bad = bad_protocol(rng); put_sized([&](const char* b, std::size_t n) { o.put_protocol(b, n); }, bad, rng); VH_CHECK(o.fail(), key, "the protocol '%s' was written without failing the stream: %s", printable(bad).c_str(), printable(v.out, 300).c_str()); cnt("refused_parts"); }
}
#endif

#ifdef H01
template <typename Log> void h01(u64, Rng& rng) {
	LogOf<Log> log; std::vector<Msg> msgs; for (std::size_t n = rng.chance(1, 3) ? 2 + rng.below(2) : 1; n--;) msgs.push_back(gen_request(rng)); std::string wire; u64 sig = 0;
	auto write = [&](auto& o, Wire& w) { std::size_t at = 0; for (std::size_t i = 0; i < msgs.size(); i++) { const Msg& m = msgs[i]; if (i) o->reset(); o.maybe(); put_sized([&](const char* b, std::size_t n) { o->put_method(b, n); }, m.first, rng); o.maybe(); put_sized([&](const char* b, std::size_t n) { o->put_resource(b, n); }, m.second, rng); o.maybe(); put_sized([&](const char* b, std::size_t n) { o->put_protocol(b, n); }, m.third, rng); write_tail(o, m, rng); o->flush(); VH_CHECK(!o->fail(), "h01:writer-failed", "writing a valid request failed: %s", printable(w.out.substr(at), 600).c_str()); check_wire(w.out.substr(at), m, "h01:wire"); at = w.out.size(); cnt("requests_written"); } wire = w.out; };
	{ Wire w("", rng); if (rng.chance(1, 2)) { Moving<abc::http_client_stream<Log>, abc::http_request_ostream<Log>> c(rng, &w, log.get()); write(c, w); } else { Moving<abc::http_request_ostream<Log>> o(rng, &w, log.get()); write(o, w); } }
	trace("%s", printable(wire, 3000).c_str()); Wire w(wire, rng); const char* key = "h01:read-back";
	auto read = [&](auto& in) { for (std::size_t i = 0; i < msgs.size(); i++) { const Msg& m = msgs[i]; if (i) in->reset();
		in.maybe(); std::string a = part(*in, [&](char* b, std::size_t s) { in->get_method(b, s); }, m.first.size() + 1, rng, key, "the method"); VH_CHECK(a == m.first, key, "method read as '%s', expected '%s'", printable(a).c_str(), printable(m.first).c_str());
		in.maybe(); a = part(*in, [&](char* b, std::size_t s) { in->get_resource(b, s); VH_CHECK(b[in->gcount() + 1] == '\0', key, "the resource is not terminated twice"); }, m.second.size() + 2, rng, key, "the resource"); VH_CHECK(a == m.second, key, "resource read as '%s', expected '%s'", printable(a).c_str(), printable(m.second).c_str());
		in.maybe(); a = part(*in, [&](char* b, std::size_t s) { in->get_protocol(b, s); }, m.third.size() + 1, rng, key, "the protocol"); VH_CHECK(a == m.third, key, "protocol read as '%s', expected '%s'", printable(a).c_str(), printable(m.third).c_str());
		read_tail(in, m, rng, i + 1 == msgs.size(), key); sig = hcomb(sig, shape(m)); } };
	if (rng.chance(1, 2)) { Moving<abc::http_server_stream<Log>, abc::http_request_istream<Log>> s(rng, &w, log.get()); read(s); } else { Moving<abc::http_request_istream<Log>> in(rng, &w, log.get()); read(in); }
	// what cannot be written as it is, is refused
	{ Wire v("", rng); abc::http_request_ostream<Log> o(&v, log.get()); unsigned at = static_cast<unsigned>(rng.below(4)); auto none = [&](auto f) { put_sized(f, std::string(), rng); }; if (at == 0) none([&](const char* b, std::size_t n) { o.put_method(b, n); }); else { o.put_method("GET"); if (at == 1) none([&](const char* b, std::size_t n) { o.put_resource(b, n); }); else { o.put_resource("/"); if (at == 2) check_bad_protocol(o, v, rng, "h01:bad-protocol"); else { o.put_protocol("HTTP/1.1"); none([&](const char* b, std::size_t n) { o.put_header_name(b, n); }); } } } VH_CHECK(o.fail(), "h01:empty-part", "an empty part was written without failing the stream (%u): %s", at, printable(v.out, 300).c_str()); cnt("refused_parts"); }
	{ Wire v("", rng); abc::http_request_ostream<Log> o(&v, log.get()); std::string bad = gen_token(rng, 10); bad.insert(rng.below(bad.size() + 1), 1, " \r\n\t\x01\x7f\xe9"[rng.below(7)]); unsigned at = static_cast<unsigned>(rng.below(4)); bool early = false;
		if (at == 0) { o.put_method(bad.data(), bad.size()); early = o.fail(); } else { o.put_method("GET"); if (at == 1) { o.put_resource(bad.data(), bad.size()); early = o.fail(); } else { o.put_resource("/"); o.put_protocol("HTTP/1.1"); if (at == 2) { o.put_header_name(bad.data(), bad.size()); early = o.fail(); } else { o.put_header_name("a"); std::string v1 = gen_token(rng, 10) + "\x01\x7f\r\n\xe9"[rng.below(5)] + gen_token(rng, 10); o.put_header_value(v1.data(), v1.size()); early = o.fail(); } } }
		VH_CHECK(early, "h01:altered", "a part with a char that cannot be written there was altered silently (%s): %s", at == 0 ? "method" : at == 1 ? "resource" : at == 2 ? "header name" : "header value", printable(v.out, 300).c_str()); cnt("refused_parts"); }
	eval(); nontrivial(sig); sample(fmt("messages=%zu headers=%zu body=%zu wire=%s", msgs.size(), msgs[0].headers.size(), msgs[0].body.size(), printable(wire, 150).c_str()));
}
#if VH_IS_PART(0)
static RegIt r_H01_0("H01", h01<abc::null_log>, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_H01_1("H01", h01<FullLog>, nullptr, 1);
#endif
#endif // H01

#ifdef H02
template <typename Log> void h02(u64, Rng& rng) {
	LogOf<Log> log; std::vector<Msg> msgs; for (std::size_t n = rng.chance(1, 3) ? 2 + rng.below(2) : 1; n--;) msgs.push_back(gen_response(rng)); std::string wire; u64 sig = 0;
	auto write = [&](auto& o, Wire& w) { std::size_t at = 0; for (std::size_t i = 0; i < msgs.size(); i++) { const Msg& m = msgs[i]; if (i) o->reset(); o.maybe(); put_sized([&](const char* b, std::size_t n) { o->put_protocol(b, n); }, m.first, rng); o.maybe(); put_sized([&](const char* b, std::size_t n) { o->put_status_code(b, n); }, m.second, rng); if (m.third.empty() && rng.chance(1, 2)) o->put_reason_phrase(nullptr); else put_sized([&](const char* b, std::size_t n) { o->put_reason_phrase(b, n); }, m.third, rng); write_tail(o, m, rng); o->flush(); VH_CHECK(!o->fail(), "h02:writer-failed", "writing a valid response failed: %s", printable(w.out.substr(at), 600).c_str()); check_wire(w.out.substr(at), m, "h02:wire"); at = w.out.size(); cnt("responses_written"); } wire = w.out; };
	{ Wire w("", rng); if (rng.chance(1, 2)) { Moving<abc::http_server_stream<Log>, abc::http_response_ostream<Log>> c(rng, &w, log.get()); write(c, w); } else { Moving<abc::http_response_ostream<Log>> o(rng, &w, log.get()); write(o, w); } }
	trace("%s", printable(wire, 3000).c_str()); Wire w(wire, rng); const char* key = "h02:read-back";
	auto read = [&](auto& in) { for (std::size_t i = 0; i < msgs.size(); i++) { const Msg& m = msgs[i]; if (i) in->reset();
		in.maybe(); std::string a = part(*in, [&](char* b, std::size_t s) { in->get_protocol(b, s); }, m.first.size() + 1, rng, key, "the protocol"); VH_CHECK(a == m.first, key, "protocol read as '%s', expected '%s'", printable(a).c_str(), printable(m.first).c_str());
		in.maybe(); a = part(*in, [&](char* b, std::size_t s) { in->get_status_code(b, s); }, m.second.size() + 1, rng, key, "the status code"); VH_CHECK(a == m.second, key, "status code read as '%s', expected '%s'", printable(a).c_str(), printable(m.second).c_str());
		in.maybe(); a = part(*in, [&](char* b, std::size_t s) { in->get_reason_phrase(b, s); }, m.third.size() + 1, rng, key, "the reason phrase"); VH_CHECK(a == m.third, key, "reason phrase read as '%s', expected '%s'", printable(a).c_str(), printable(m.third).c_str());
		read_tail(in, m, rng, i + 1 == msgs.size(), key); sig = hcomb(sig, shape(m)); } };
	if (rng.chance(1, 2)) { Moving<abc::http_client_stream<Log>, abc::http_response_istream<Log>> s(rng, &w, log.get()); read(s); } else { Moving<abc::http_response_istream<Log>> in(rng, &w, log.get()); read(in); }
	{ Wire v("", rng); abc::http_response_ostream<Log> o(&v, log.get()); unsigned at = static_cast<unsigned>(rng.below(3)); auto none = [&](auto f) { put_sized(f, std::string(), rng); }; if (at == 0) check_bad_protocol(o, v, rng, "h02:bad-protocol"); else { o.put_protocol("HTTP/1.1"); if (at == 1) none([&](const char* b, std::size_t n) { o.put_status_code(b, n); }); else { o.put_status_code("200"); o.put_reason_phrase("OK"); none([&](const char* b, std::size_t n) { o.put_header_name(b, n); }); } } VH_CHECK(o.fail(), "h02:empty-part", "an empty part was written without failing the stream (%u): %s", at, printable(v.out, 300).c_str()); cnt("refused_parts"); }
	{ Wire v("", rng); abc::http_response_ostream<Log> o(&v, log.get()); o.put_protocol("HTTP/1.1"); unsigned at = static_cast<unsigned>(rng.below(3)); if (at == 0) { std::string bad = "200"; bad.insert(rng.below(4), 1, " \r\nx\x01\x7f\xe9"[rng.below(7)]); o.put_status_code(bad.data(), bad.size()); } else { o.put_status_code("200"); std::string bad = "Not Found"; bad.insert(rng.below(10), 1, "\x01\x7f\r\n\xe9"[rng.below(5)]); if (at == 1) o.put_reason_phrase(bad.data(), bad.size()); else { o.put_reason_phrase("OK"); o.put_header_name(bad.data(), bad.size()); } }
		VH_CHECK(o.fail(), "h02:altered", "a part with a char that cannot be written there was altered silently (%s): %s", at == 0 ? "status code" : at == 1 ? "reason phrase" : "header name", printable(v.out, 300).c_str()); cnt("refused_parts"); }
	eval(); nontrivial(sig); sample(fmt("messages=%zu headers=%zu body=%zu wire=%s", msgs.size(), msgs[0].headers.size(), msgs[0].body.size(), printable(wire, 150).c_str()));
}
#if VH_IS_PART(0)
static RegIt r_H02_0("H02", h02<abc::null_log>, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_H02_1("H02", h02<FullLog>, nullptr, 1);
#endif
#endif // H02

#ifdef H03
// What a part of the wire is, independently of the library: whether it is well-formed and fits, its value, and where the next part starts.
struct Oracle {
	const std::string& x; std::size_t p = 0; enum V { Ok, Bad, Any } v = Ok; std::string val;
	explicit Oracle(const std::string& s) : x(s) {}
	int at() const { return p < x.size() ? static_cast<unsigned char>(x[p]) : -1; }
	template <typename P> std::string run(P pred) { std::string r; while (at() >= 0 && pred(at())) r += x[p++]; return r; }
	std::size_t spaces() { return run(is_sp).size(); }
	bool crlf() { if (at() == '\r') { p++; if (at() == '\n') { p++; return true; } } return false; }
	void set(bool ok) { v = ok ? Ok : Bad; }
	bool text() const { return at() >= 0 && at() < 0x80; }
	void method(std::size_t n) { val = run(is_tok); bool sp = spaces() > 0; set(!val.empty() && sp && val.size() < n && text()); }
	void resource(std::size_t n) { val = run(is_prn); spaces(); set(!val.empty() && val.size() + 1 < n && text()); }
	void protocol(std::size_t n, bool request) {
		std::size_t b = p; std::string a = run([](int c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }); for (auto& c : a) c = static_cast<char>(c & ~32); bool ok = a == "HTTP" && at() == '/';
		if (ok) { p++; ok = !run(is_dig).empty() && at() == '.'; } if (ok) { p++; ok = !run(is_dig).empty(); }
		val = x.substr(b, p - b); ok = ok && val.size() < n && text(); if (ok) { spaces(); ok = text(); } if (ok && request) ok = crlf(); set(ok);
	}
	void status(std::size_t n) { val = run(is_dig); spaces(); set(!val.empty() && val.size() < n && text()); }
	void reason(std::size_t n) { val = run([](int c) { return is_prn(c) || is_sp(c); }); set(val.size() < n && crlf()); }
	bool header_name(std::size_t n) { val = run(is_tok); spaces(); if (val.empty()) { set(n > 0 && crlf()); return false; } bool ok = val.size() < n && at() == ':'; if (ok) { p++; spaces(); ok = text(); } set(ok); return true; }
	void header_value(std::size_t n) {
		val.clear(); bool ok = true;
		do { for (;;) { spaces(); std::string w = run(is_prn); if (w.empty()) break; if (!val.empty()) val += ' '; val += w; } ok = crlf(); } while (ok && is_sp(at()));
		ok = ok && val.size() < n; v = !ok ? Bad : !text() ? Any : Ok;
	}
	void body(std::size_t n) { val = x.substr(std::min(p, x.size()), n); p += val.size(); v = val.size() == n ? Ok : Any; }
};
template <bool Req> struct Kind; template <> struct Kind<true> { template <typename L> using In = abc::http_request_istream<L>; }; template <> struct Kind<false> { template <typename L> using In = abc::http_response_istream<L>; };
template <typename L> void first(abc::http_request_istream<L>& in, int i, char* b, std::size_t n, Oracle& o) { if (i == 0) { in.get_method(b, n); o.method(n); } else if (i == 1) { in.get_resource(b, n); o.resource(n); } else { in.get_protocol(b, n); o.protocol(n, true); } }
template <typename L> void first(abc::http_response_istream<L>& in, int i, char* b, std::size_t n, Oracle& o) { if (i == 0) { in.get_protocol(b, n); o.protocol(n, false); } else if (i == 1) { in.get_status_code(b, n); o.status(n); } else { in.get_reason_phrase(b, n); o.reason(n); } }
template <bool Req, typename Log> void h03_kind(Rng& rng) {
	Msg m = Req ? gen_request(rng) : gen_response(rng); if (m.body.size() > 300) m.body.resize(300); auto sp = [&]() { std::string s; do s += rng.chance(4, 5) ? ' ' : '\t'; while (rng.chance(1, 8)); return s; };
	std::string text = m.first + sp() + m.second + sp() + m.third + "\r\n"; for (auto& h : m.headers) text += h.name + (rng.chance(1, 8) ? " " : "") + ":" + (rng.chance(7, 8) ? sp() : "") + h.raw + "\r\n"; text += "\r\n" + m.body;
	unsigned kind = static_cast<unsigned>(rng.below(8));
	if (kind < 2) { text.resize(rng.below(text.size() + 1)); cnt("truncated"); }
	else if (kind < 5) { for (std::size_t n = 1 + rng.below(3); n--;) { std::size_t at = rng.below(rng.chance(2, 3) ? std::min<std::size_t>(text.size(), 80) + 1 : text.size() + 1); static const char st[] = "\r\n :\t/?.HT\x00\xff\x80\x7f"; if (at >= text.size()) text += st[rng.below(sizeof st - 1)]; else switch (rng.below(4)) { case 0: text.erase(at, 1 + rng.below(rng.chance(1, 3) ? 12 : 2)); break; case 1: text[at] = st[rng.below(sizeof st - 1)]; break; case 2: text.insert(at, 1, st[rng.below(sizeof st - 1)]); break; default: text[at] = static_cast<char>(rng.next()); } } cnt("mutated"); }
	else if (kind == 5) { text.clear(); static const char* bits[] = { "GET", " ", "/", "HTTP/1.1", "\r\n", ":", "a", "\t", "HTTP/", "1", ".", "200", "OK", "\r", "\n", "\xff" }; for (std::size_t n = rng.below(40); n--;) if (rng.chance(1, 10)) text += static_cast<char>(rng.next()); else text += bits[rng.below(16)]; cnt("random"); }
	trace("%s", printable(text, 3000).c_str()); LogOf<Log> log; bool logs = log.get() != nullptr; Wire w(text, rng); Moving<typename Kind<Req>::template In<Log>> in(rng, &w, log.get()); Oracle o(text); bool failed = false; int stage = 0; unsigned tight = static_cast<unsigned>(rng.below(3)); std::size_t steps = 0; u64 sig = hstr(text);
	for (;;) {
		in.maybe(); VH_CHECK(++steps < text.size() + 40, "h03:no-progress", "%zu parts from %zu bytes", steps, text.size());
		std::size_t size; { Oracle q(text); q.p = o.p; std::size_t f = 0; if (!failed) { if (stage < 3) { std::size_t z = q.run(is_prn).size(); f = z + (Req && stage == 1 ? 2 : 1); if (!Req && stage == 2) f = q.run([](int c) { return is_prn(c) || is_sp(c); }).size() + z + 1; } else if (in->next() == abc::http::item::header_name) f = q.run(is_tok).size() + 1; else if (in->next() == abc::http::item::header_value) { q.header_value(1u << 30); f = q.val.size() + 1; } else f = text.size() - std::min(o.p, text.size()); } size = tight == 0 ? 4096 : tight == 1 ? f : f + rng.below(6) - std::min<std::size_t>(f, rng.below(5)); if (rng.chance(1, 60)) size = rng.below(3); if (rng.chance(1, 100)) size = 0; if (logs && size == 0) size = 1; if (size == 0) cnt("size_zero"); }
		Exact b(size); const char* what; bool is_body = false, expected_name = true; bool name = false;
		if (stage < 3) { what = "start line part"; first(*in, stage, b.p, size, o); stage++; }
		else if (in->next() == abc::http::item::header_name) { what = "header name"; in->get_header_name(b.p, size); name = true; expected_name = o.header_name(size); }
		else if (in->next() == abc::http::item::header_value) { what = "header value"; in->get_header_value(b.p, size); o.header_value(size); }
		else { what = "body"; is_body = true; in->get_body(b.p, size); o.body(size); }
		std::size_t g = in->gcount(); cnt("parts_read"); sig = hcomb(sig, size);
		if (is_body) { VH_CHECK(g <= size, "h03:gcount", "%zu body bytes in a buffer of %zu", g, size); }
		else if (size > 0) { VH_CHECK(g < size, "h03:gcount", "%s of %zu chars in a buffer of %zu", what, g, size); VH_CHECK(memchr(b.p, 0, size) != nullptr, "h03:not-terminated", "%s is not terminated in a buffer of %zu", what, size); }
		if (failed) { VH_CHECK(in->fail(), "h03:revived", "a failed reader recovered by itself"); VH_CHECK(g == 0, "h03:invented", "%zu chars of %s reported after the reader failed", g, what); if (rng.chance(1, 3)) break; if (is_body && rng.chance(1, 2)) break; continue; }
		if (o.v == Oracle::Bad) { VH_CHECK(in->fail(), "h03:malformed-accepted", "%s accepted as '%s' with a buffer of %zu: %s", what, printable(std::string(b.p, std::min(g, size))).c_str(), size, printable(text, 600).c_str()); cnt("rejected"); }
		if (o.v == Oracle::Ok) { VH_CHECK(!in->fail(), "h03:well-formed-rejected", "%s '%s' rejected with a buffer of %zu: %s", what, printable(o.val).c_str(), size, printable(text, 600).c_str()); cnt("accepted"); }
		if (!in->fail() || is_body) { VH_CHECK(std::string(b.p, g) == o.val, is_body && g > o.val.size() ? "h03:invented" : "h03:other-content", "%s read as '%s', the wire has '%s'", what, printable(std::string(b.p, g)).c_str(), printable(o.val).c_str()); }
		if (!in->fail() && name) VH_CHECK((in->next() == abc::http::item::header_value) == expected_name, "h03:other-part", "after header name '%s' the next part is %u", printable(o.val).c_str(), in->next());
		failed = in->fail(); if (!failed && is_body && o.p >= text.size() && rng.chance(1, 2)) break; if (is_body && size == 0 && rng.chance(1, 2)) break;
	}
	VH_CHECK(w.asked <= 60 * (text.size() + steps + 10), "h03:unbounded-work", "the source was asked %llu times for %zu bytes", (unsigned long long)w.asked, text.size());
	eval(); nontrivial(sig); sample(fmt("request=%d parts=%zu text=%s", Req, steps, printable(text, 120).c_str()));
}
#if VH_IS_PART(0)
static RegIt r_H03_0("H03", [](u64, Rng& rng) { if (rng.chance(1, 2)) h03_kind<true, abc::null_log>(rng); else h03_kind<false, abc::null_log>(rng); }, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_H03_1("H03", [](u64, Rng& rng) { if (rng.chance(1, 2)) h03_kind<true, FullLog>(rng); else h03_kind<false, FullLog>(rng); }, nullptr, 1);
#endif
#endif // H03

#ifdef H04
namespace it = abc::http::item;
using Log = abc::null_log;
struct Part { unsigned item; bool end; };	// end: end_headers()
// style 0: terminated text; 1: text of a given size; 2: nothing, of size 0; 3: text that is not valid for the part
enum Style { Terminated, Sized, Empty, Invalid };
template <typename F> void styled(unsigned style, const char* text, F&& f) { std::string longer = std::string(text) + "tail"; if (style == Terminated) f(text, abc::size::strlen); else if (style == Sized) f(longer.c_str(), strlen(text)); else if (style == Empty) f("", 0); else f("\x01", 1); }
template <typename O> void write_start(abc::http_request_ostream<Log>&, O& o, unsigned i, unsigned st) { styled(st, i == it::method ? "GET" : i == it::resource ? "/x?y" : "HTTP/1.1", [&](const char* t, std::size_t n) { if (i == it::method) o.put_method(t, n); else if (i == it::resource) o.put_resource(t, n); else if (i == it::protocol) o.put_protocol(t, n); }); }
template <typename O> void write_start(abc::http_response_ostream<Log>&, O& o, unsigned i, unsigned st) { if (i == it::reason_phrase && st == Empty) { o.put_reason_phrase(nullptr); return; } styled(st, i == it::protocol ? "HTTP/1.1" : i == it::status_code ? "404" : "Not Found", [&](const char* t, std::size_t n) { if (i == it::protocol) o.put_protocol(t, n); else if (i == it::status_code) o.put_status_code(t, n); else if (i == it::reason_phrase) o.put_reason_phrase(t, n); }); }
template <typename O> void write_part(O& o, unsigned i, bool end, unsigned st) {
	if (i <= it::reason_phrase) write_start(o, o, i, st); else if (i == it::header_name && end) o.end_headers();
	else styled(st, i == it::header_name ? "name" : i == it::header_value ? "value" : "body", [&](const char* t, std::size_t n) { if (i == it::header_name) o.put_header_name(t, n); else if (i == it::header_value) o.put_header_value(t, n); else o.put_body(t, n); });
}
void read_part(abc::http_request_istream<Log>& in, unsigned i, char* b, std::size_t n) { if (i == it::method) in.get_method(b, n); else if (i == it::resource) in.get_resource(b, n); else if (i == it::protocol) in.get_protocol(b, n); }
void read_part(abc::http_response_istream<Log>& in, unsigned i, char* b, std::size_t n) { if (i == it::protocol) in.get_protocol(b, n); else if (i == it::status_code) in.get_status_code(b, n); else if (i == it::reason_phrase) in.get_reason_phrase(b, n); }
template <typename O, bool Req> void h04_write(Rng& rng) {
	const std::vector<unsigned> start = Req ? std::vector<unsigned>{ it::method, it::resource, it::protocol } : std::vector<unsigned>{ it::protocol, it::status_code, it::reason_phrase };
	Wire w("", rng); Moving<O> o(rng, &w); unsigned pos = 0; u64 sig = Req; std::string expect; auto next = [&]() -> unsigned { return pos < 3 ? start[pos] : pos == 3 ? it::header_name : pos == 4 ? it::header_value : it::body; }; unsigned wrong = static_cast<unsigned>(rng.below(3)), msgs = 1;
	for (std::size_t n = 5 + rng.below(60); n--;) {
		o.maybe(); VH_CHECK(o->next() == next(), "h04:next", "writer expects item %u, %u is next", o->next(), next());
		if (rng.chance(1, 25)) { o->reset(); pos = 0; msgs++; sig = hcomb(sig, 99); cnt("resets"); continue; }
		unsigned i = next(); bool end = i == it::header_name && rng.chance(1, 4); if (wrong && rng.below(6) < wrong) { do { i = rng.chance(1, 2) ? start[rng.below(3)] : static_cast<unsigned>(it::header_name + rng.below(3)); end = i == it::header_name && rng.chance(1, 2); } while (false); }
		bool ok = i == next(); o->flush(); std::string before = w.out; bool thrown = false;
		unsigned st = static_cast<unsigned>(ok ? rng.below(i == it::body || i == it::header_value || i == it::reason_phrase ? 3 : 2) : rng.below(4)); bool nothing = i == it::body && st == Empty; cnt(st == Empty ? "empty_parts" : "parts");
		try { write_part(*o, i, end, st); } catch (const std::logic_error&) { thrown = true; }
		sig = hcomb(sig, i * 4 + end * 2 + ok); cnt("writes");
		if (ok) { VH_CHECK(!thrown && !o->fail(), "h04:in-order-refused", "writing item %u in order was refused", i); o->flush(); VH_CHECK(nothing ? w.out == before : w.out.size() > before.size(), "h04:nothing-written", "writing item %u wrote nothing", i); if (pos < 3) pos++; else if (pos == 3) pos = end ? 5 : 4; else if (pos == 4) pos = 3; distinct("in_order", i * 2 + end); }
		else { VH_CHECK(thrown, "h04:out-of-order-accepted", "writing item %u was accepted while %u is next", i, next()); o->flush(); VH_CHECK(w.out == before, "h04:refused-wrote", "a refused item %u wrote %s", i, printable(w.out.substr(before.size())).c_str()); VH_CHECK(!o->fail() , "h04:refused-failed", "a refused item failed the stream"); cnt("refused"); distinct("out_of_order", i * 16 + next()); }
	}
	eval(); nontrivial(sig); sample(fmt("writer request=%d messages=%u wire=%s", Req, msgs, printable(w.out, 150).c_str()));
}
template <typename I, bool Req> void h04_read(Rng& rng) {
	const std::vector<unsigned> start = Req ? std::vector<unsigned>{ it::method, it::resource, it::protocol } : std::vector<unsigned>{ it::protocol, it::status_code, it::reason_phrase };
	struct Step { unsigned item; bool last; std::string want; }; std::vector<Step> plan; std::string text;
	for (std::size_t m = 1 + rng.below(3); m--;) {
		if (Req) { text += "GET /x?y HTTP/1.1\r\n"; plan.push_back({ it::method, false, "GET" }); plan.push_back({ it::resource, false, "/x?y" }); plan.push_back({ it::protocol, false, "HTTP/1.1" }); } else { text += "HTTP/1.1 404 Not Found\r\n"; plan.push_back({ it::protocol, false, "HTTP/1.1" }); plan.push_back({ it::status_code, false, "404" }); plan.push_back({ it::reason_phrase, false, "Not Found" }); }
		for (std::size_t h = rng.below(4); h--;) { text += "name: value\r\n"; plan.push_back({ it::header_name, false, "name" }); plan.push_back({ it::header_value, false, "value" }); }
		text += "\r\n"; plan.push_back({ it::header_name, true, "" }); for (std::size_t b = 1 + rng.below(3); b--;) { text += "body"; plan.push_back({ it::body, false, "body" }); }
	}
	Wire w(text, rng); Moving<I> in(rng, &w); u64 sig = 100 + Req; unsigned wrong = static_cast<unsigned>(rng.below(3)); std::size_t refused = 0; unsigned prev = it::body;
	for (std::size_t k = 0; k < plan.size();) {
		in.maybe(); if (plan[k].item == start[0] && k) { in->reset(); cnt("resets"); }
		VH_CHECK(in->next() == plan[k].item, "h04:next", "reader expects item %u, %u is next", in->next(), plan[k].item);
		unsigned i = plan[k].item; if (wrong && rng.below(6) < wrong && refused < 60) i = rng.chance(1, 2) ? start[rng.below(3)] : static_cast<unsigned>(it::header_name + rng.below(3));
		bool ok = i == plan[k].item; std::size_t before = w.consumed(); bool thrown = false; std::size_t n = i == it::body ? 4 : 32; Exact b(n);
		try { if (i <= it::reason_phrase) read_part(*in, i, b.p, n); else if (i == it::header_name) in->get_header_name(b.p, n); else if (i == it::header_value) in->get_header_value(b.p, n); else in->get_body(b.p, n); } catch (const std::logic_error&) { thrown = true; }
		sig = hcomb(sig, i * 2 + ok); cnt("reads");
		if (ok) { VH_CHECK(!thrown && !in->fail(), "h04:in-order-refused", "reading item %u in order was refused", i); VH_CHECK(std::string(b.p, in->gcount()) == plan[k].want, "h04:other-content", "item %u read as '%s', expected '%s'", i, printable(std::string(b.p, in->gcount())).c_str(), plan[k].want.c_str()); prev = i; k++; distinct("in_order", i * 2); }
		else { VH_CHECK(thrown, "h04:out-of-order-accepted", "reading item %u was accepted while %u is next", i, plan[k].item); VH_CHECK(w.consumed() == before, "h04:refused-consumed", "a refused item %u consumed %zu bytes", i, w.consumed() - before); VH_CHECK(!in->fail(), "h04:refused-failed", "a refused item failed the stream"); for (std::size_t z = 0; z < n; z++) VH_CHECK(b.p[z] == 0x5a, "h04:refused-wrote", "a refused read wrote to the buffer"); refused++; cnt("refused"); distinct("out_of_order", 256 + i * 16 + plan[k].item); }
	}
	(void)prev; eval(); nontrivial(hcomb(sig, refused)); sample(fmt("reader request=%d parts=%zu refused=%zu", Req, plan.size(), refused));
}
// once a stream has failed, parts are still only taken in the order it announces
template <typename O, bool Req> void h04_failed_write(Rng& rng) {
	const std::vector<unsigned> start = Req ? std::vector<unsigned>{ it::method, it::resource, it::protocol } : std::vector<unsigned>{ it::protocol, it::status_code, it::reason_phrase };
	Wire w("", rng); Moving<O> o(rng, &w); u64 sig = 200 + Req; std::size_t good = rng.below(9);
	for (std::size_t k = 0; k < 60; k++) {
		o.maybe(); unsigned next = o->next(); bool failed = o->fail(); unsigned i = next; if (k >= good && rng.chance(1, 2)) i = rng.chance(1, 2) ? start[rng.below(3)] : static_cast<unsigned>(it::header_name + rng.below(3));
		bool end = i == it::header_name && rng.chance(1, 3); unsigned st = static_cast<unsigned>(k < good ? rng.below(2) : rng.below(4)); if (k >= good && i == next && !failed) { st = Invalid; end = false; }
		o->flush(); std::string before = w.out; bool thrown = false; try { write_part(*o, i, end, st); } catch (const std::logic_error&) { thrown = true; }
		sig = hcomb(sig, i * 8 + next); o->flush();
		if (i == next) VH_CHECK(!thrown, "h04:in-order-refused", "writing item %u in order was refused%s", i, failed ? " on a failed stream" : "");
		else { VH_CHECK(thrown, "h04:out-of-order-accepted", "writing item %u was accepted while %u is next%s", i, next, failed ? " on a failed stream" : ""); VH_CHECK(o->next() == next, "h04:next", "a refused item %u changed the next from %u to %u", i, next, o->next()); VH_CHECK(w.out == before, "h04:refused-wrote", "a refused item %u wrote %s", i, printable(w.out.substr(before.size())).c_str()); if (failed) cnt("refused_on_failed"); }
	}
	eval(); nontrivial(sig); sample(fmt("failed writer request=%d wire=%s", Req, printable(w.out, 150).c_str()));
}
template <typename I, bool Req> void h04_failed_read(Rng& rng) {
	const std::vector<unsigned> start = Req ? std::vector<unsigned>{ it::method, it::resource, it::protocol } : std::vector<unsigned>{ it::protocol, it::status_code, it::reason_phrase };
	std::string text = Req ? "GET /x?y HTTP/1.1\r\nname: value\r\n\r\nbody" : "HTTP/1.1 404 Not Found\r\nname: value\r\n\r\nbody"; if (rng.chance(1, 2)) text.resize(rng.below(text.size() + 1)); else text[rng.below(text.size())] = static_cast<char>(rng.below(256));
	Wire w(text, rng); Moving<I> in(rng, &w); u64 sig = hcomb(300 + Req, hstr(text));
	for (std::size_t k = 0; k < 40; k++) {
		in.maybe(); unsigned next = in->next(); bool failed = in->fail(); unsigned i = next; if (rng.chance(1, 2)) i = rng.chance(1, 2) ? start[rng.below(3)] : static_cast<unsigned>(it::header_name + rng.below(3));
		std::size_t before = w.consumed(); bool thrown = false; std::size_t n = i == it::body ? 4 : 1 + rng.below(32); Exact b(n);
		try { if (i <= it::reason_phrase) read_part(*in, i, b.p, n); else if (i == it::header_name) in->get_header_name(b.p, n); else if (i == it::header_value) in->get_header_value(b.p, n); else in->get_body(b.p, n); } catch (const std::logic_error&) { thrown = true; }
		if (i == next) VH_CHECK(!thrown, "h04:in-order-refused", "reading item %u in order was refused%s", i, failed ? " on a failed stream" : "");
		else { VH_CHECK(thrown, "h04:out-of-order-accepted", "reading item %u was accepted while %u is next%s", i, next, failed ? " on a failed stream" : ""); VH_CHECK(in->next() == next, "h04:next", "a refused item %u changed the next from %u to %u", i, next, in->next()); VH_CHECK(w.consumed() == before, "h04:refused-consumed", "a refused item %u consumed %zu bytes", i, w.consumed() - before); if (failed) cnt("refused_on_failed"); }
	}
	eval(); nontrivial(sig); sample(fmt("failed reader request=%d text=%s", Req, printable(text, 150).c_str()));
}
static RegIt r_H04("H04", [](u64, Rng& rng) { if (rng.chance(1, 4)) { switch (rng.below(4)) { case 0: h04_failed_write<abc::http_request_ostream<Log>, true>(rng); break; case 1: h04_failed_write<abc::http_response_ostream<Log>, false>(rng); break; case 2: h04_failed_read<abc::http_request_istream<Log>, true>(rng); break; default: h04_failed_read<abc::http_response_istream<Log>, false>(rng); } return; } switch (rng.below(4)) { case 0: h04_write<abc::http_request_ostream<Log>, true>(rng); break; case 1: h04_write<abc::http_response_ostream<Log>, false>(rng); break; case 2: h04_read<abc::http_request_istream<Log>, true>(rng); break; default: h04_read<abc::http_response_istream<Log>, false>(rng); } });
#endif // H04

#ifdef H05
static RegIt r_H05("H05", [](u64, Rng& rng) {
	using In = abc::http_request_istream<abc::null_log>; std::string t; unsigned style = static_cast<unsigned>(rng.below(4)); static const char* names[] = { "a", "ab", "abc", "b", "p1", "p10", "x", "", "a.b", "path" };
	if (style == 0) { for (std::size_t n = rng.below(40); n--;) t += "ab?&=/x1"[rng.below(8)]; }
	else if (style == 1) { for (std::size_t n = rng.below(120); n--;) t += rng.chance(1, 4) ? "?&="[rng.below(3)] : static_cast<char>(0x21 + rng.below(0x5e)); }
	else { t = "/"; for (std::size_t n = rng.below(20); n--;) t += "ab/=.&"[rng.below(style == 2 ? 4 : 6)]; if (rng.chance(7, 8)) { t += '?'; for (std::size_t n = rng.below(7), i = 0; i < n; i++) { if (i) t += '&'; if (rng.chance(1, 10)) continue; t += names[rng.below(10)]; if (rng.chance(6, 7)) { t += '='; for (std::size_t k = rng.below(8); k--;) t += "0a=?/-%20"[rng.below(9)]; } } if (rng.chance(1, 10)) t += '&'; } }
	// independent splitter
	std::size_t q = t.find('?'); std::string path = t.substr(0, q); std::vector<std::pair<std::string, std::string>> params; if (q != std::string::npos) { std::string r = t.substr(q + 1); for (std::size_t p = 0; p <= r.size();) { std::size_t e = std::min(r.find('&', p), r.size()); std::string x = r.substr(p, e - p); p = e + 1; std::size_t eq = x.find('='); if (eq != std::string::npos) params.emplace_back(x.substr(0, eq), x.substr(eq + 1)); } }
	std::unique_ptr<Exact> buf; std::size_t size = t.size() + 2 + (rng.chance(1, 2) ? 0 : rng.below(60)); int fill = rng.chance(1, 2) ? '&' : rng.chance(1, 2) ? 'a' : '=';
	if (!t.empty() && rng.chance(1, 2)) { Wire w("GET " + t + " HTTP/1.1\r\n", rng); In in(&w); char m[8]; in.get_method(m, sizeof m); buf.reset(new Exact(size, fill)); in.get_resource(buf->p, size); VH_CHECK(!in.fail() && t == buf->p, "h05:resource", "target read as '%s', expected '%s'", printable(buf->p).c_str(), t.c_str()); cnt("from_wire"); }
	else { buf.reset(new Exact(size, fill)); memcpy(buf->p, t.c_str(), t.size() + 1); buf->p[t.size() + 1] = 0; }
	In::split_resource(buf->p, size); VH_CHECK(path == buf->p, "h05:path", "path of '%s' is '%s', expected '%s'", t.c_str(), printable(buf->p).c_str(), path.c_str());
	for (std::size_t i = t.size() + 2; i < size; i++) VH_CHECK(buf->p[i] == static_cast<char>(fill), "h05:wrote-outside", "splitting '%s' wrote behind its end", t.c_str());
	std::vector<std::string> ask; for (auto n : names) ask.push_back(n); for (auto& p : params) { ask.push_back(p.first); ask.push_back(p.first + "x"); if (!p.first.empty()) ask.push_back(p.first.substr(0, p.first.size() - 1)); }
	for (auto& n : ask) {
		if (n.find('=') != std::string::npos || n.find('&') != std::string::npos) continue;
		const char* got = In::get_resource_parameter(buf->p, size, n.c_str()); const std::string* want = nullptr; for (auto& p : params) if (p.first == n) { want = &p.second; break; }
		if (!want) { VH_CHECK(got == nullptr, "h05:invented", "parameter '%s' of '%s' found as '%s'", n.c_str(), t.c_str(), printable(got).c_str()); cnt("absent"); }
		else { VH_CHECK(got != nullptr, "h05:missed", "parameter '%s' of '%s' not found, expected '%s'", n.c_str(), t.c_str(), want->c_str()); VH_CHECK(got >= buf->p && got < buf->p + size && *want == got, "h05:other-value", "parameter '%s' of '%s' is '%s', expected '%s'", n.c_str(), t.c_str(), printable(got).c_str(), want->c_str()); cnt("found"); }
	}
	eval(); nontrivial(hstr(t)); sample(fmt("target=%s params=%zu", t.c_str(), params.size()));
});
#endif // H05
