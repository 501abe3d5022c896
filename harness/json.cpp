// J01 round trip, J02 reading valid text, J03 reading any bytes, J04 writing.
#include "log.h"
#include "json.h"
#include "buffer_streambuf.h"
#include "vh.h"
#include <memory>
#include <cmath>
#include <limits>
#include <sstream>
#include <stdexcept>
using namespace vh;

namespace {
	enum T { Null, Bool, Num, Str, BegA, EndA, BegO, EndO, Prop };
	struct Tok { T t; std::string s; double d = 0; bool b = false; };
	inline bool same(const Tok& a, const Tok& b) { return a.t == b.t && a.s == b.s && a.b == b.b && memcmp(&a.d, &b.d, sizeof(double)) == 0; }
	inline std::string show(const Tok& t) { static const char* n[] = { "null", "boolean", "number", "string", "[", "]", "{", "}", "property" }; std::string r = n[t.t]; if (t.t == Num) r += fmt(" %.17g", t.d); if (t.t == Str || t.t == Prop) r += " \"" + printable(t.s, 80) + "\""; if (t.t == Bool) r += t.b ? " true" : " false"; return r; }

	// ---- independent parser: the tokens of the first value of a text. lenient: what the library documents or its tests pin down as tolerated (a trailing comma, a leading '+', leading zeros, control characters in strings).
	struct Parser {
		const std::string& x; bool lenient; std::size_t p = 0; std::vector<Tok> out; std::size_t depth = 0, max_depth = 0; bool limits = true;	// limits: stays within what the library supports
		std::vector<std::size_t> after;	// position after each token
		Parser(const std::string& text, bool l) : x(text), lenient(l) {}
		int at() const { return p < x.size() ? static_cast<unsigned char>(x[p]) : -1; }
		void ws() { while (p < x.size() && (x[p] == ' ' || x[p] == '\t' || x[p] == '\r' || x[p] == '\n')) p++; }
		void add(Tok t) { out.push_back(std::move(t)); after.push_back(p); }
		bool string(std::string& s) {
			if (at() != '"') return false;
			p++;
			for (;;) {
				int c = at(); if (c < 0) return false;
				p++;
				if (c == '"') return true;
				if (c != '\\') { if (c < 0x20 && !lenient) return false; s += static_cast<char>(c); continue; }
				c = at(); if (c < 0) return false;
				p++;
				switch (c) {
					case '"': case '\\': case '/': s += static_cast<char>(c); break;
					case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
					case 'u': { unsigned v = 0; for (int i = 0; i < 4; i++) { int h = at(); if (!((h >= '0' && h <= '9') || (h >= 'a' && h <= 'f') || (h >= 'A' && h <= 'F'))) return false; v = v * 16 + static_cast<unsigned>(h <= '9' ? h - '0' : (h | 32) - 'a' + 10); p++; } if (v > 0xff) limits = false; s += static_cast<char>(v); break; }
					default: return false;
				}
			}
		}
		bool number(double& d) {
			std::size_t b = p; if (at() == '-' || (lenient && at() == '+')) p++;
			auto digits = [&]() { std::size_t n = 0; while (at() >= '0' && at() <= '9') { p++; n++; } return n; };
			std::size_t i0 = p; if (!digits()) return false;
			if (!lenient && x[i0] == '0' && p - i0 > 1) return false;
			if (at() == '.') { p++; if (!digits()) return false; }
			if (at() == 'e' || at() == 'E') { p++; if (at() == '+' || at() == '-') p++; if (!digits()) return false; }
			if (p - b > 25) limits = false;
			d = strtod(x.substr(b, p - b).c_str(), nullptr); return true;
		}
		bool lit(const char* l) { std::size_t n = strlen(l); if (x.compare(p, n, l) != 0) return false; p += n; return true; }
		bool value() {
			ws(); int c = at();
			if (c == 'n') { if (!lit("null")) return false; add({ Null, "" }); return true; }
			if (c == 't') { if (!lit("true")) return false; add({ Bool, "", 0, true }); return true; }
			if (c == 'f') { if (!lit("false")) return false; add({ Bool, "", 0, false }); return true; }
			if (c == '"') { Tok t{ Str, "" }; if (!string(t.s)) return false; add(t); return true; }
			if (c == '[' || c == '{') {
				bool obj = c == '{'; p++; if (++depth > max_depth) max_depth = depth;
				if (depth > 3000) return false;
				add({ obj ? BegO : BegA, "" }); int close = obj ? '}' : ']'; bool first = true;
				for (;;) {
					ws(); if (at() == close && (first || lenient)) { p++; break; }
					if (obj) { Tok t{ Prop, "" }; if (!string(t.s)) return false; ws(); if (at() != ':') return false; p++; add(t); }
					if (!value()) return false;
					first = false; ws();
					if (at() == ',') { p++; ws(); if (at() == close && !lenient) return false; continue; }
					if (at() == close) { p++; break; }
					return false;
				}
				depth--; add({ obj ? EndO : EndA, "" }); return true;
			}
			Tok t{ Num, "" }; if (!number(t.d)) return false; add(t); return true;
		}
		bool whole() { if (!value()) return false; ws(); return p == x.size(); }
	};

	// ---- a stream buffer that hands out a few chars at a time and counts how often it is asked
	struct Drip : std::streambuf {
		const std::string& x; std::size_t p = 0, chunk; u64 asked = 0; std::unique_ptr<char[]> buf;
		Drip(const std::string& s, std::size_t c) : x(s), chunk(c ? c : 1) {}
		int_type underflow() override { asked++; if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (p >= x.size()) return traits_type::eof(); std::size_t n = std::min(chunk, x.size() - p); buf.reset(new char[n]); memcpy(buf.get(), x.data() + p, n); p += n; setg(buf.get(), buf.get(), buf.get() + n); return traits_type::to_int_type(*gptr()); }
	};
	struct Source {
		std::string text; Exact mem; std::unique_ptr<std::streambuf> sb; Drip* drip = nullptr;
		Source(const std::string& t, Rng& rng) : text(t), mem(t) {
			switch (rng.below(3)) { case 0: sb.reset(new abc::buffer_streambuf(mem.p, 0, t.size(), nullptr, 0, 0)); break; case 1: sb.reset(new std::stringbuf(text, std::ios::in)); break; default: sb.reset(drip = new Drip(text, 1 + rng.below(rng.chance(1, 2) ? 3 : 50))); }
		}
	};
	struct Buf { Exact e; explicit Buf(std::size_t n) : e(n) {} abc::json::token_t* tok() { return reinterpret_cast<abc::json::token_t*>(e.p); } };
	constexpr std::size_t HEAD = offsetof(abc::json::token_t, value);
	inline std::size_t fit(std::size_t str) { return std::max(sizeof(abc::json::token_t), HEAD + str + 1); }

	template <typename In> bool get(In& in, Buf& b, Tok& t, const char* key) {
		memset(b.e.p, 0x5a, b.e.n); in.get_token(b.tok(), b.e.n); abc::json::item_t it = b.tok()->item;
		VH_CHECK(!in.fail() || it == abc::json::item::none, key, "the reader failed but reports item 0x%x", it);
		if (in.fail()) return false;
		std::size_t g = in.gcount(); t = Tok{ Null, "" };
		switch (it) {
			case abc::json::item::null: t.t = Null; break; case abc::json::item::boolean: t.t = Bool; t.b = b.tok()->value.boolean; break; case abc::json::item::number: t.t = Num; t.d = b.tok()->value.number; break;
			case abc::json::item::begin_array: t.t = BegA; break; case abc::json::item::end_array: t.t = EndA; break; case abc::json::item::begin_object: t.t = BegO; break; case abc::json::item::end_object: t.t = EndO; break;
			case abc::json::item::string: case abc::json::item::property: {
				t.t = it == abc::json::item::string ? Str : Prop; VH_CHECK(g >= sizeof(abc::json::item_t) && HEAD + (g - sizeof(abc::json::item_t)) + 1 <= b.e.n, key, "gcount %zu does not fit a buffer of %zu", g, b.e.n);
				std::size_t n = g - sizeof(abc::json::item_t); const char* s = b.e.p + HEAD; t.s.assign(s, n); VH_CHECK(s[n] == '\0', key, "string of %zu chars is not terminated", n); break;
			}
			default: fail(key, "item 0x%x of a stream that has not failed", it);
		}
		return true;
	}

	// ---- generator of documents
	inline double gen_double(Rng& rng) {
		switch (rng.below(9)) {
			case 0: return static_cast<double>(rng.range(-100, 100)); case 1: return static_cast<double>(static_cast<std::int64_t>(rng.next())); case 2: return static_cast<double>(rng.range(-100000, 100000)) / 1000.0; case 3: return rng.chance(1, 2) ? 0.0 : -0.0;
			case 4: return rng.chance(1, 2) ? std::numeric_limits<double>::max() : -std::numeric_limits<double>::min(); case 5: return std::numeric_limits<double>::denorm_min() * static_cast<double>(rng.below(1000)); case 6: return static_cast<double>((1ull << 53) + rng.below(64) - 32);
			default: for (;;) { u64 u = rng.next(); double d; memcpy(&d, &u, 8); if (std::isfinite(d)) return d; }
		}
	}
	inline std::string gen_string(Rng& rng, std::size_t max = 300) {
		std::size_t n = rng.chance(1, 6) ? 0 : rng.chance(1, 8) ? rng.below(max) : rng.below(14); std::string s; unsigned style = static_cast<unsigned>(rng.below(4));
		for (std::size_t i = 0; i < n; i++) switch (style) { case 0: s += static_cast<char>('a' + rng.below(26)); break; case 1: s += static_cast<char>(rng.next()); break; case 2: s += "\"\\/\b\f\n\r\t{}[]:, u0"[rng.below(17)]; break; default: s += static_cast<char>(rng.chance(1, 3) ? rng.below(0x20) : 0x20 + rng.below(0xe0)); }
		return s;
	}
	// value as a token sequence
	inline void gen_value(Rng& rng, std::vector<Tok>& out, std::size_t depth, std::size_t max_depth, int& budget) {
		budget--; bool nest = depth < max_depth && budget > 0 && rng.chance(depth == 0 ? 9 : 2, depth == 0 ? 10 : 5);
		if (!nest) { switch (rng.below(6)) { case 0: out.push_back({ Null, "" }); break; case 1: out.push_back({ Bool, "", 0, rng.chance(1, 2) }); break; case 2: case 3: out.push_back({ Num, "", gen_double(rng) }); break; default: out.push_back({ Str, gen_string(rng) }); } return; }
		bool obj = rng.chance(1, 2); out.push_back({ obj ? BegO : BegA, "" }); std::size_t n = rng.chance(1, 5) ? 0 : 1 + rng.below(6); if (rng.chance(1, 4) && depth < max_depth) n = 1;
		for (std::size_t i = 0; i < n; i++) { if (obj) out.push_back({ Prop, gen_string(rng, 60) }); gen_value(rng, out, depth + 1, max_depth, budget); }
		out.push_back({ obj ? EndO : EndA, "" });
	}
	// a chain that reaches exactly the given depth
	inline void gen_deep(Rng& rng, std::vector<Tok>& out, std::size_t depth) {
		std::vector<bool> objs; for (std::size_t i = 0; i < depth; i++) { bool o = rng.chance(1, 2); objs.push_back(o); out.push_back({ o ? BegO : BegA, "" }); if (rng.chance(1, 5)) { if (o) out.push_back({ Prop, gen_string(rng, 10) }); out.push_back({ Num, "", gen_double(rng) }); } if (i + 1 < depth && o) out.push_back({ Prop, gen_string(rng, 10) }); }
		while (!objs.empty()) { bool o = objs.back(); objs.pop_back(); out.push_back({ o ? EndO : EndA, "" }); if (!objs.empty() && rng.chance(1, 5)) { if (objs.back()) out.push_back({ Prop, gen_string(rng, 10) }); out.push_back({ Null, "" }); } }
	}
	inline std::vector<Tok> gen_doc(Rng& rng, std::size_t max_levels) { std::vector<Tok> d; if (rng.chance(1, 4)) gen_deep(rng, d, rng.chance(1, 2) ? max_levels : 1 + rng.below(max_levels)); else { int budget = static_cast<int>(rng.below(60)); gen_value(rng, d, 0, std::min<std::size_t>(max_levels, 1 + rng.below(8)), budget); } return d; }
	inline u64 shape(const std::vector<Tok>& d) { u64 h = 1; for (auto& t : d) h = hcomb(h, t.t * 16 + (t.s.empty() ? 0 : t.s.size() < 20 ? 1 : 2)); return h; }
	inline std::size_t longest(const std::vector<Tok>& d) { std::size_t n = 0; for (auto& t : d) n = std::max(n, t.s.size()); return n; }

	// independent text of a document, strictly valid
	inline std::string spaces(Rng& rng, bool dense) { std::string s; if (dense) return s; for (std::size_t n = rng.below(4); n--;) s += " \t\r\n"[rng.below(4)]; return s; }
	inline std::string text_string(Rng& rng, const std::string& v) {
		std::string s = "\""; unsigned style = static_cast<unsigned>(rng.below(3));
		for (unsigned char c : v) {
			bool must = c == '"' || c == '\\' || c < 0x20; if (!must && !(style == 1 && rng.chance(1, 4)) && style != 2) { s += static_cast<char>(c); continue; }
			static const char from[] = "\"\\/\b\f\n\r\t", to[] = "\"\\/bfnrt"; const char* f = c ? strchr(from, c) : nullptr;
			if (f && rng.chance(2, 3)) { s += '\\'; s += to[f - from]; } else s += fmt(rng.chance(1, 2) ? "\\u%04x" : "\\u%04X", c);
		}
		return s + "\"";
	}
	inline std::string text_number(Rng& rng, double& d) {
		for (;;) {
			std::string s;
			if (rng.chance(1, 3)) s = fmt("%.17g", d); else {
				if (rng.chance(1, 3)) s += '-';
				if (rng.chance(1, 4)) s += '0'; else { s += static_cast<char>('1' + rng.below(9)); for (std::size_t n = rng.below(rng.chance(1, 3) ? 18 : 4); n--;) s += static_cast<char>('0' + rng.below(10)); }
				if (rng.chance(1, 2)) { s += '.'; for (std::size_t n = 1 + rng.below(rng.chance(1, 3) ? 18 : 4); n--;) s += static_cast<char>('0' + rng.below(10)); }
				if (rng.chance(1, 3)) { s += "eE"[rng.below(2)]; if (rng.chance(1, 2)) s += "+-"[rng.below(2)]; for (std::size_t n = 1 + rng.below(3); n--;) s += static_cast<char>('0' + rng.below(10)); }
				if (rng.chance(1, 2)) s.resize(std::min<std::size_t>(s.size(), 25));
			}
			Parser p(s, false); double v; if (s.size() > 25 || !p.number(v) || p.p != s.size()) continue;
			d = strtod(s.c_str(), nullptr); return s;
		}
	}
	inline std::string text_doc(Rng& rng, std::vector<Tok>& d, std::vector<std::size_t>* starts = nullptr) {
		std::string s; bool dense = rng.chance(1, 3); std::vector<bool> first; bool after_prop = false;
		for (auto& t : d) {
			bool close = t.t == EndA || t.t == EndO;
			s += spaces(rng, dense); if (!first.empty() && !close && !after_prop) { if (!first.back()) { s += ','; s += spaces(rng, dense); } first.back() = false; }
			if (starts) starts->push_back(s.size());
			after_prop = false;
			switch (t.t) { case Null: s += "null"; break; case Bool: s += t.b ? "true" : "false"; break; case Num: s += text_number(rng, t.d); break; case Str: s += text_string(rng, t.s); break; case Prop: s += text_string(rng, t.s); s += spaces(rng, dense); s += ':'; after_prop = true; break; case BegA: s += '['; first.push_back(true); break; case BegO: s += '{'; first.push_back(true); break; case EndA: s += ']'; first.pop_back(); break; case EndO: s += '}'; first.pop_back(); break; }
		}
		return s + spaces(rng, dense);
	}

	// a log the library writes to in some of the cases
	struct NullBuf : std::streambuf { u64 n = 0; int_type overflow(int_type c) override { n++; return traits_type::not_eof(c); } std::streamsize xsputn(const char*, std::streamsize k) override { n += static_cast<u64>(k); return k; } };
	using FullLog = abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter>;
	template <typename Log> struct LogOf { Log* get() { return nullptr; } };
	template <> struct LogOf<FullLog> { NullBuf nb; abc::log_filter f; FullLog l; LogOf() : f(abc::severity::abc::debug), l(&nb, &f) {} FullLog* get() { return &l; } };

	template <typename W> void put(W& w, const Tok& t, Rng& rng) {
		bool zero = t.s.find('\0') != std::string::npos;
		if (rng.chance(1, 4)) {
			Buf b(fit(t.s.size())); abc::json::token_t* k = b.tok();
			switch (t.t) { case Null: k->item = abc::json::item::null; break; case Bool: k->item = abc::json::item::boolean; k->value.boolean = t.b; break; case Num: k->item = abc::json::item::number; k->value.number = t.d; break; case Str: k->item = abc::json::item::string; break; case Prop: k->item = abc::json::item::property; break; case BegA: k->item = abc::json::item::begin_array; break; case EndA: k->item = abc::json::item::end_array; break; case BegO: k->item = abc::json::item::begin_object; break; case EndO: k->item = abc::json::item::end_object; break; }
			if (t.t == Str || t.t == Prop) { memcpy(b.e.p + HEAD, t.s.c_str(), t.s.size() + 1); if (!zero && rng.chance(1, 2)) w.put_token(k); else w.put_token(k, t.s.size()); } else w.put_token(k);
			return;
		}
		switch (t.t) {
			case Null: w.put_null(); break; case Bool: w.put_boolean(t.b); break; case Num: w.put_number(t.d); break; case BegA: w.put_begin_array(); break; case EndA: w.put_end_array(); break; case BegO: w.put_begin_object(); break; case EndO: w.put_end_object(); break;
			default: { Exact e(t.s + std::string(zero ? 0 : 1, '\0')); bool l = !zero && rng.chance(1, 2); std::size_t n = l ? abc::size::strlen : t.s.size(); if (t.t == Str) w.put_string(e.p, n); else w.put_property(e.p, n); }
		}
	}
	template <typename W> void put_space(W& w, Rng& rng) { for (std::size_t n = rng.below(3); n--;) switch (rng.below(4)) { case 0: w.put_space(); break; case 1: w.put_tab(); break; case 2: w.put_cr(); break; default: w.put_lf(); } }
}

#ifdef J01
template <std::size_t Max, typename Log> void j01(u64, Rng& rng) {
	std::vector<Tok> d = gen_doc(rng, Max); bool dense = rng.chance(1, 2); LogOf<Log> log; std::stringbuf out; std::string text;
	{
		Moving<abc::json_ostream<Max, Log>> w(rng, &out, log.get());
		for (auto& t : d) { w.maybe(); if (!dense) put_space(*w, rng); put(*w, t, rng); VH_CHECK(!w->fail(), "j01:writer-failed", "writing %s failed; written so far: %s", show(t).c_str(), printable(out.str(), 300).c_str()); cnt("tokens_written"); }
		if (!dense) put_space(*w, rng);
		w->flush(); text = out.str();
	}
	trace("%s", printable(text, 4000).c_str());
	Source src(text, rng); Moving<abc::json_istream<Max, Log>> in(rng, src.sb.get(), log.get()); Buf b(fit(longest(d)) + (rng.chance(1, 2) ? 0 : rng.below(40)));
	for (std::size_t i = 0; i < d.size(); i++) {
		in.maybe(); Tok t; VH_CHECK(get(*in, b, t, "j01:reader-state"), "j01:reader-failed", "reading token %zu (%s) failed; text: %s", i, show(d[i]).c_str(), printable(text, 600).c_str());
		VH_CHECK(same(t, d[i]), d[i].t == Num ? "j01:number-differs" : d[i].t == Str || d[i].t == Prop ? "j01:string-differs" : "j01:token-differs", "token %zu was written as %s and read as %s; text: %s", i, show(d[i]).c_str(), show(t).c_str(), printable(text, 600).c_str()); cnt("tokens_read");
		distinct("token_kinds", d[i].t); if (t.t == Str || t.t == Prop) for (unsigned char c : t.s) distinct("byte_values", c);
	}
	VH_CHECK(in->levels() == 0, "j01:levels", "%zu levels open after the last token", in->levels());
	in.maybe(); Tok t; VH_CHECK(!get(*in, b, t, "j01:reader-state"), "j01:extra-token", "token after the document: %s; text: %s", show(t).c_str(), printable(text, 600).c_str());
	eval(); nontrivial(hcomb(shape(d), hstr(text))); if (d.size() > 3) sample(fmt("max levels=%zu tokens=%zu text=%s", Max, d.size(), printable(text, 120).c_str()));
}
#if VH_IS_PART(0)
static RegIt r_J01_0("J01", j01<2, abc::null_log>, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_J01_1("J01", j01<16, FullLog>, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_J01_2("J01", j01<64, abc::null_log>, nullptr, 2);
#endif
#if VH_IS_PART(3)
static RegIt r_J01_3("J01", j01<300, FullLog>, nullptr, 3);
#endif
#endif // J01

#ifdef J02
template <std::size_t Max, typename Log> void j02(u64, Rng& rng) {
	std::vector<Tok> d = gen_doc(rng, Max); std::string text = text_doc(rng, d); LogOf<Log> log; trace("%s", printable(text, 4000).c_str());
	{ Parser p(text, false); if (!p.whole() || p.out.size() != d.size()) harness_error("generator and parser disagree on " + printable(text, 2000)); for (std::size_t i = 0; i < d.size(); i++) if (!same(p.out[i], d[i])) harness_error("generator and parser disagree on a token of " + printable(text, 2000)); }
	std::vector<std::size_t> close(d.size(), 0); { std::vector<std::size_t> st; for (std::size_t i = 0; i < d.size(); i++) { close[i] = i; if (d[i].t == BegA || d[i].t == BegO) st.push_back(i); if (d[i].t == EndA || d[i].t == EndO) { close[st.back()] = i; st.pop_back(); } } }
	Source src(text, rng); Moving<abc::json_istream<Max, Log>> in(rng, src.sb.get(), log.get()); std::size_t skip_rate = rng.below(4); Buf b(fit(longest(d)) + (rng.chance(1, 2) ? 0 : rng.below(40))); std::size_t depth = 0; u64 sig = shape(d);
	for (std::size_t i = 0; i < d.size(); i++) {
		in.maybe(); bool value = d[i].t != EndA && d[i].t != EndO && d[i].t != Prop;
		if (value && rng.below(8) < skip_rate) {
			abc::json::item_t it = in->skip_value(); VH_CHECK(!in->fail(), "j02:skip-failed", "skipping token %zu (%s) failed; text: %s", i, show(d[i]).c_str(), printable(text, 600).c_str());
			sig = hcomb(sig, i); if (close[i] != i) cnt("skipped_containers"); cnt("skipped_values"); i = close[i];
			const abc::json::item_t want[] = { abc::json::item::null, abc::json::item::boolean, abc::json::item::number, abc::json::item::string, 0, abc::json::item::end_array, 0, abc::json::item::end_object, 0 };
			VH_CHECK(it == want[d[i].t], "j02:skip-item", "skip_value() of %s returned item 0x%x; text: %s", show(d[i]).c_str(), it, printable(text, 600).c_str());
			VH_CHECK(in->levels() == depth, "j02:levels", "%zu levels open after a skipped value, expected %zu", in->levels(), depth); continue;
		}
		Tok t; VH_CHECK(get(*in, b, t, "j02:reader-state"), "j02:reader-failed", "reading token %zu (%s) failed; text: %s", i, show(d[i]).c_str(), printable(text, 600).c_str());
		VH_CHECK(same(t, d[i]), d[i].t == Num ? "j02:number-differs" : d[i].t == Str || d[i].t == Prop ? "j02:string-differs" : "j02:token-differs", "token %zu is %s but was read as %s; text: %s", i, show(d[i]).c_str(), show(t).c_str(), printable(text, 600).c_str());
		if (t.t == BegA || t.t == BegO) depth++;
		if (t.t == EndA || t.t == EndO) depth--;
		VH_CHECK(in->levels() == depth, "j02:levels", "%zu levels open after token %zu, expected %zu", in->levels(), i, depth); cnt("tokens_read"); distinct("token_kinds", t.t);
	}
	Tok t; VH_CHECK(!get(*in, b, t, "j02:reader-state"), "j02:extra-token", "token after the document: %s; text: %s", show(t).c_str(), printable(text, 600).c_str());
	eval(); nontrivial(hcomb(sig, hstr(text))); if (d.size() > 3) sample(fmt("max levels=%zu tokens=%zu text=%s", Max, d.size(), printable(text, 120).c_str()));
}
#if VH_IS_PART(0)
static RegIt r_J02_0("J02", j02<2, abc::null_log>, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_J02_1("J02", j02<16, FullLog>, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_J02_2("J02", j02<64, abc::null_log>, nullptr, 2);
#endif
#if VH_IS_PART(3)
static RegIt r_J02_3("J02", j02<300, FullLog>, nullptr, 3);
#endif
#endif // J02

#ifdef J03
template <std::size_t Max, typename Log> void j03(u64, Rng& rng) {
	std::string text; unsigned kind = static_cast<unsigned>(rng.below(10)); std::vector<Tok> d;
	if (kind < 7) { d = gen_doc(rng, rng.chance(1, 6) ? Max + 2 : Max); text = text_doc(rng, d); }
	if (kind == 0) { text.resize(rng.below(text.size() + 1)); cnt("truncated"); }
	else if (kind < 7) {
		static const char* bits[] = { "{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\u00", "\\u12", "null", "nul", "true", "fals", "-", "+", "1e", "1.", ".5", "00", "1", "\x00", "\xff", " ", "\n", "//", "'a'", "[]", "{}", "\"x\":", "NaN", "1e400", "123456789012345678901234567890" };
		for (std::size_t n = 1 + rng.below(4); n--;) {
			std::size_t at = rng.below(text.size() + 1); 
			switch (rng.below(5)) { case 0: if (at < text.size()) text.erase(at, 1 + rng.below(rng.chance(1, 3) ? 10 : 1)); break; case 1: if (at < text.size()) text[at] = static_cast<char>(rng.next()); break; case 2: text.insert(at, bits[rng.below(sizeof bits / sizeof *bits)]); break; case 3: if (at < text.size()) { static const char st[] = "{}[],:\"\\0 "; text[at] = st[rng.below(sizeof st - 1)]; } break; default: if (at < text.size()) { std::size_t k = rng.below(std::min<std::size_t>(20, text.size() - at)); text.insert(rng.below(text.size() + 1), text.substr(at, k)); } }
		}
		cnt("mutated");
	}
	else { static const char* bits[] = { "{", "}", "[", "]", ",", ":", "\"a\"", "\"", "null", "true", "false", "1", "-2.5e3", " ", "\\", "\"b\":", "e", "\xfe" }; std::size_t n = rng.below(60); for (std::size_t i = 0; i < n; i++) if (kind == 9) text += static_cast<char>(rng.next()); else text += bits[rng.below(sizeof bits / sizeof *bits)]; cnt("random"); }
	LogOf<Log> log; Source src(text, rng); Moving<abc::json_istream<Max, Log>> in(rng, src.sb.get(), log.get()); Buf b(sizeof(abc::json::token_t) + (rng.chance(1, 2) ? rng.below(24) : fit(400)));
	if (rng.chance(1, 10)) { Buf s(rng.below(sizeof(abc::json::token_t))); bool thrown = false; try { in->get_token(reinterpret_cast<abc::json::token_t*>(s.e.p), s.e.n); } catch (const std::logic_error&) { thrown = true; } VH_CHECK(thrown, "j03:small-buffer", "a token buffer of %zu bytes was not refused", s.e.n); thrown = false; try { in->get_token(nullptr, 100); } catch (const std::logic_error&) { thrown = true; } VH_CHECK(thrown, "j03:no-buffer", "a missing token buffer was not refused"); cnt("refused_buffers"); }
	trace("%s", printable(text, 4000).c_str()); bool skips = rng.chance(1, 4); bool complete = false; std::vector<Tok> got; std::size_t steps = 0, depth = 0;
	while (!in->fail()) {
		in.maybe(); VH_CHECK(++steps <= text.size() + 2, "j03:no-progress", "%zu tokens from %zu bytes: %s", steps, text.size(), printable(text, 600).c_str());
		if (skips && rng.chance(1, 4)) { in->skip_value(); cnt("skips"); if (!in->fail()) depth = in->levels(); got.clear(); skips = true; if (!in->fail() && depth == 0 && steps == 1) { complete = true; break; } continue; }
		Tok t; if (!get(*in, b, t, "j03:reader-state")) break;
		cnt("tokens_read"); got.push_back(t); if (t.t == BegA || t.t == BegO) depth++;
		if (t.t == EndA || t.t == EndO) { VH_CHECK(depth > 0, "j03:unbalanced", "a closing was accepted with nothing open: %s", printable(text, 600).c_str()); depth--; }
		VH_CHECK(in->levels() == depth && depth <= Max, "j03:levels", "%zu levels open, expected %zu, at most %zu", in->levels(), depth, Max);
		if (depth == 0) { complete = true; break; }
	}
	if (in->fail()) { for (int i = 0; i < 3; i++) { in.maybe(); if (rng.chance(1, 2)) { Tok t; VH_CHECK(!get(*in, b, t, "j03:reader-state"), "j03:revived", "a failed reader reports a token"); } else VH_CHECK(in->skip_value() == abc::json::item::none && in->fail(), "j03:revived", "a failed reader skips a value"); } cnt("failed"); }
	// no text the lenient grammar rejects may be taken for a complete value
	Parser p(text, true); bool ok = p.value();
	if (complete) { VH_CHECK(ok, "j03:accepted-bad", "accepted as a complete value: %s", printable(text, 1000).c_str()); cnt("accepted"); }
	if (!ok) cnt("bad_texts");
	if (complete && !skips) { VH_CHECK(p.out.size() == got.size(), "j03:other-tokens", "%zu tokens read, the text has %zu: %s", got.size(), p.out.size(), printable(text, 600).c_str()); if (p.limits) for (std::size_t i = 0; i < got.size(); i++) VH_CHECK(same(got[i], p.out[i]), "j03:other-tokens", "token %zu read as %s, it is %s: %s", i, show(got[i]).c_str(), show(p.out[i]).c_str(), printable(text, 600).c_str()); }
	if (src.drip) { VH_CHECK(src.drip->asked <= 40 * (text.size() + 4), "j03:unbounded-work", "the source was asked %llu times for %zu bytes: %s", (unsigned long long)src.drip->asked, text.size(), printable(text, 600).c_str()); cnt("counted_sources"); }
	// and beyond the first value: only safety and progress
	for (std::size_t i = 0; !in->fail(); i++) { VH_CHECK(i <= text.size() + 2, "j03:no-progress", "%zu more tokens from %zu bytes", i, text.size()); if (rng.chance(1, 3)) in->skip_value(); else { Tok t; get(*in, b, t, "j03:reader-state"); } }
	eval(); nontrivial(hstr(text)); sample(fmt("complete=%d bytes=%zu text=%s", complete, text.size(), printable(text, 120).c_str()));
}
#if VH_IS_PART(0)
static RegIt r_J03_0("J03", j03<2, abc::null_log>, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_J03_1("J03", j03<16, FullLog>, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_J03_2("J03", j03<64, abc::null_log>, nullptr, 2);
#endif
#endif // J03

#ifdef J04
template <std::size_t Max, typename Log> void j04(u64, Rng& rng) {
	LogOf<Log> log; bool bounded = rng.chance(1, 5); std::size_t cap = rng.below(120); Exact mem(cap, 0); struct Peek : abc::buffer_streambuf { using abc::buffer_streambuf::buffer_streambuf; std::size_t n() const { return static_cast<std::size_t>(pptr() - pbase()); } };
	Peek small(nullptr, 0, 0, mem.p, 0, cap); std::stringbuf big; Moving<abc::json_ostream<Max, Log>> w(rng, bounded ? static_cast<std::streambuf*>(&small) : &big, log.get());
	auto text = [&]() { return bounded ? std::string(mem.p, small.n()) : big.str(); };
	std::vector<Tok> done; std::vector<bool> open; bool after_prop = false, complete = false; std::string before; unsigned wrong = static_cast<unsigned>(rng.below(3)); std::size_t steps = rng.chance(1, 3) ? rng.below(300) : rng.below(30); u64 sig = Max; bool refused = false;
	auto legal = [&](const Tok& t) {
		bool in_obj = !open.empty() && open.back(); bool want_prop = in_obj && !after_prop;
		switch (t.t) { case Prop: return want_prop; case EndO: return want_prop; case EndA: return !open.empty() && !open.back(); case BegA: case BegO: return !want_prop && open.size() < Max; case Num: return !want_prop && std::isfinite(t.d); default: return !want_prop; }
	};
	auto finish = [&](const std::string& s) { std::string r = s; if (after_prop) r += "null"; for (std::size_t i = open.size(); i--;) r += open[i] ? "}" : "]"; return r; };
	for (std::size_t i = 0; i < steps && !complete; i++) {
		w.maybe(); if (rng.chance(1, 6)) put_space(*w, rng);
		Tok t{ Null, "" }; for (int tries = 0;; tries++) { switch (rng.below(12)) { case 0: t = { Null, "" }; break; case 1: t = { Bool, "", 0, rng.chance(1, 2) }; break; case 2: t = { Num, "", gen_double(rng) }; if (wrong && rng.chance(1, 6)) t.d = rng.chance(1, 2) ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN(); break; case 3: t = { Str, gen_string(rng, 60) }; break; case 4: case 5: case 6: t = { Prop, gen_string(rng, 20) }; break; case 7: t = { BegA, "" }; break; case 8: t = { BegO, "" }; break; case 9: t = { EndA, "" }; break; case 10: t = { EndO, "" }; break; default: t = { rng.chance(1, 2) ? BegA : BegO, "" }; } if (legal(t) || (wrong && (tries > 8 || rng.chance(wrong, 30)))) break; if (open.empty() && tries < 50 && i == 0 && rng.chance(1, 2)) continue; }
		if (i == 0 && rng.chance(3, 4)) t = { rng.chance(1, 2) ? BegA : BegO, "" };
		if (open.size() == 1 && !after_prop && (t.t == EndA || t.t == EndO) && i + 10 < steps && legal(t) && rng.chance(9, 10)) continue;
		before = text(); bool ok = legal(t); trace("put %s (%s) after %s", show(t).c_str(), ok ? "legal" : "illegal", printable(before, 200).c_str()); put(*w, t, rng); std::string now = text(); sig = hcomb(sig, t.t * 2 + ok); cnt("calls");
		if (!ok) {
			VH_CHECK(w->fail(), "j04:not-refused", "%s was not refused after: %s", show(t).c_str(), printable(before, 600).c_str()); VH_CHECK(now == before, "j04:refused-changed-text", "%s was refused but wrote %s", show(t).c_str(), printable(now.substr(before.size()), 200).c_str()); cnt("refused"); refused = true; distinct("refusals", t.t * 4 + (open.empty() ? 0 : open.back() ? 1 : 2)); break;
		}
		if (w->fail()) { VH_CHECK(bounded, "j04:legal-refused", "%s was refused after: %s", show(t).c_str(), printable(before, 600).c_str()); VH_CHECK(now.compare(0, before.size(), before) == 0, "j04:rewritten", "earlier text changed"); cnt("full_buffers"); refused = true; break; }
		VH_CHECK(now.compare(0, before.size(), before) == 0 && now.size() > before.size(), "j04:rewritten", "%s did not extend the text", show(t).c_str());
		done.push_back(t); after_prop = t.t == Prop; if (t.t == BegA || t.t == BegO) open.push_back(t.t == BegO);
		if (t.t == EndA || t.t == EndO) open.pop_back();
		complete = open.empty();
		if (complete || rng.chance(1, 10)) {
			std::string whole = finish(now); Parser p(whole, false); VH_CHECK(p.whole(), "j04:malformed", "%s text is not JSON: %s", complete ? "complete" : "partial", printable(whole, 1000).c_str());
			for (std::size_t k = 0; k < done.size(); k++) VH_CHECK(k < p.out.size() && same(p.out[k], done[k]), done[k].t == Num ? "j04:other-number" : "j04:other-structure", "token %zu was written as %s and is %s in: %s", k, show(done[k]).c_str(), k < p.out.size() ? show(p.out[k]).c_str() : "missing", printable(whole, 600).c_str());
			cnt(complete ? "complete_texts" : "partial_texts");
		}
	}
	if (refused) { before = text(); for (int i = 0; i < 6; i++) { w.maybe(); Tok t{ static_cast<T>(rng.below(9)), "x" }; if (t.t != Str && t.t != Prop) t.s.clear(); put(*w, t, rng); } VH_CHECK(text() == before && w->fail(), "j04:failed-writer-writes", "a failed writer still writes: %s", printable(text(), 300).c_str()); }
	eval(); nontrivial(hcomb(sig, hstr(text()))); if (done.size() > 4) sample(fmt("max levels=%zu calls=%zu refused=%d complete=%d text=%s", Max, done.size(), refused, complete, printable(text(), 120).c_str()));
}
#if VH_IS_PART(0)
static RegIt r_J04_0("J04", j04<1, abc::null_log>, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_J04_1("J04", j04<5, FullLog>, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_J04_2("J04", j04<64, abc::null_log>, nullptr, 2);
#endif
#endif // J04
