// C04 page lists, C05 string streams, P06 space under churn.
#include "vmem_seq.h"
#include <istream>
#include <ostream>
using namespace vh;
using Log = vh::VLog;

#ifdef C04
template <std::size_t Cap>
struct LinkedCase {
	using Pool = abc::vmem_pool<Cap, Log>; using Page = abc::vmem_page<Pool, Log>; using Linked = abc::vmem_linked<Pool, Log>; using It = typename Linked::iterator;
	static constexpr std::size_t NL = 4, HDR = 64;	// the first bytes of a linked page belong to the list
	Rng& rng; std::string path; std::unique_ptr<Pool> pool; abc::vmem_linked_state st[NL]; std::unique_ptr<Linked> l[NL]; std::vector<u64> m[NL]; std::set<u64> all, freed; u64 sig = Cap; unsigned splices = 0;
	explicit LinkedCase(Rng& r) : rng(r) {}
	void mark(void* p, u64 pos) { Rng r(pos ^ 0xabcdef); char* c = static_cast<char*>(p); for (std::size_t i = HDR; i < 4096; i++) c[i] = static_cast<char>(r.next()); }
	u64 alloc() {
		Page pg(pool.get(), L()); VH_CHECK(pg.ptr() != nullptr, "c04:alloc-failed", "cannot allocate with nothing locked"); u64 pos = pg.pos();
		for (auto& v : m) VH_CHECK(std::find(v.begin(), v.end(), pos) == v.end(), "c04:page-in-list-allocated", "page %llu is linked but was handed out again", (unsigned long long)pos);
		if (!all.insert(pos).second) { VH_CHECK(freed.erase(pos) == 1, "c04:page-handed-out-twice", "page %llu was handed out twice", (unsigned long long)pos); cnt("reused"); }
		else VH_CHECK(freed.empty(), "c04:page-lost", "the file grew although %zu pages were freed", freed.size());
		mark(pg.ptr(), pos); return pos;
	}
	u64 at(It itr, const char* w) { VH_CHECK(itr.is_valid() && itr.page_pos() != abc::vmem_page_pos_nil, "c04:invalid-iterator", "%s: iterator to a page is invalid", w); return itr.page_pos(); }
	void check(std::size_t k, const char* w) {
		auto& v = m[k]; VH_CHECK(l[k]->empty() == v.empty(), "c04:empty", "after %s: empty() of list %zu is wrong", w, k);
		std::size_t i = 0; It e = l[k]->end();
		for (It itr = l[k]->begin(); itr != e; itr++, i++) { VH_CHECK(i < v.size(), "c04:extra-page", "after %s: list %zu has more than %zu pages", w, k, v.size()); u64 p = at(itr, w); VH_CHECK(p == v[i], "c04:forward", "after %s: page %zu of list %zu is %llu, expected %llu", w, i, k, (unsigned long long)p, (unsigned long long)v[i]); }
		VH_CHECK(i == v.size(), "c04:missing-page", "after %s: list %zu has %zu pages, expected %zu", w, k, i, v.size());
		It rb = l[k]->rbegin();
		for (It itr = l[k]->rend(); itr != rb; itr--) { VH_CHECK(i > 0, "c04:extra-page", "after %s: backward walk of list %zu does not end", w, k); i--; u64 p = at(itr, w); VH_CHECK(p == v[i], "c04:backward", "after %s: page %zu of list %zu is %llu backward, expected %llu", w, i, k, (unsigned long long)p, (unsigned long long)v[i]); }
		VH_CHECK(i == 0, "c04:missing-page", "after %s: backward walk of list %zu misses %zu pages", w, k, i);
		{ It b = l[k]->rbegin(); b++; VH_CHECK(b == l[k]->begin(), "c04:edges", "after %s: a step from rbegin() does not lead to begin()", w); It z = l[k]->end(); z--; VH_CHECK(z == l[k]->rend(), "c04:edges", "after %s: a step back from end() does not lead to rend()", w); }
		if (!v.empty()) { VH_CHECK(l[k]->front() == v.front(), "c04:front", "after %s: front of list %zu is wrong", w, k); VH_CHECK(l[k]->back() == v.back(), "c04:back", "after %s: back of list %zu is wrong", w, k); }
		cnt("walks");
	}
	void content(const char* w) { for (auto& v : m) for (u64 p : v) { Page pg(pool.get(), p, L()); VH_CHECK(pg.ptr() != nullptr, "c04:lock-failed", "page %llu", (unsigned long long)p); std::string want(4096, 0); mark(&want[0], p); VH_CHECK(memcmp(static_cast<char*>(pg.ptr()) + HDR, want.data() + HDR, 4096 - HDR) == 0, "c04:content", "after %s: content of page %llu changed", w, (unsigned long long)p); } }
	It walk(std::size_t k, std::size_t i) { if (rng.chance(1, 2) || i == m[k].size()) { It itr = l[k]->begin(); while (i--) ++itr; return itr; } It itr = l[k]->rend(); for (std::size_t n = m[k].size() - 1; n > i; n--) --itr; return itr; }
	void ret(It r, std::size_t k, std::size_t i, const char* w) { if (i == m[k].size()) VH_CHECK(r == l[k]->end(), "c04:returned-position", "%s must return the end", w); else VH_CHECK(at(r, w) == m[k][i], "c04:returned-position", "%s returned page %llu, expected %llu", w, (unsigned long long)r.page_pos(), (unsigned long long)m[k][i]); }
	void open() { pool.reset(new Pool(path.c_str(), L())); for (std::size_t k = 0; k < NL; k++) l[k].reset(new Linked(&st[k], pool.get(), L())); }
	void run() {
		path = scratch("k.vmem"); ::unlink(path.c_str()); open(); for (std::size_t k = 0; k < NL; k++) check(k, "creation");
		unsigned nops = 40 + rng.below(160); unsigned grow = 30 + rng.below(40); char w[96];
		for (unsigned op = 0; op < nops; op++) {
			std::size_t k = rng.below(NL), o = rng.below(NL), n = m[k].size(), i = rng.below(n + 1); unsigned what = rng.below(100); if (rng.chance(1, 3)) i = rng.below(std::min<std::size_t>(n, 1) + 1); else if (rng.chance(1, 3)) i = n - rng.below(std::min<std::size_t>(n, 1) + 1);
			sig = hcomb(sig, what / 8 * 8 + k); snprintf(w, sizeof w, "-");
			if (what < 4) { for (auto& x : l) x.reset(); pool.reset(); open(); snprintf(w, sizeof w, "reopen"); cnt("reopens"); }
			else if (what < 7) { freed.insert(m[k].begin(), m[k].end()); m[k].clear(); snprintf(w, sizeof w, "clear of list %zu", k); trace("%s", w); l[k]->clear(); cnt("clears"); }
			else if (what < 17) {
				if (k == o) { bool thrown = false; try { l[k]->splice(*l[k]); } catch (const std::logic_error&) { thrown = true; } VH_CHECK(thrown, "c04:self-splice", "splicing a list into itself was not refused"); snprintf(w, sizeof w, "self splice of list %zu", k); }
				else { snprintf(w, sizeof w, "splice of list %zu (%zu pages) into %zu (%zu pages)", o, m[o].size(), k, n); trace("%s", w); distinct("splice_shapes", (m[o].size() > 2 ? 2 : m[o].size()) * 3 + (n > 2 ? 2 : n)); m[k].insert(m[k].end(), m[o].begin(), m[o].end()); m[o].clear(); if (rng.chance(1, 2)) l[k]->splice(*l[o]); else { Linked tmp(&st[o], pool.get(), L()); l[k]->splice(std::move(tmp)); } splices++; cnt("splices"); }
			}
			else if (what < 20) { bool thrown = false; try { l[k]->erase(rng.chance(1, 2) ? l[k]->end() : l[k]->rbegin()); } catch (const std::logic_error&) { thrown = true; } VH_CHECK(thrown, "c04:erase-end", "erasing no page was not refused"); snprintf(w, sizeof w, "erase of no page"); }
			else if (rng.below(100) < grow && n < 40) {
				u64 p = alloc(); unsigned how = rng.below(4);
				if (how == 0) { snprintf(w, sizeof w, "push_back of %llu to list %zu", (unsigned long long)p, k); trace("%s", w); l[k]->push_back(p); m[k].push_back(p); }
				else if (how == 1) { snprintf(w, sizeof w, "push_front of %llu to list %zu", (unsigned long long)p, k); trace("%s", w); l[k]->push_front(p); m[k].insert(m[k].begin(), p); }
				else { snprintf(w, sizeof w, "insert of %llu at %zu of %zu in list %zu", (unsigned long long)p, i, n, k); trace("%s", w); It a = walk(k, i); It r = l[k]->insert(a, p); m[k].insert(m[k].begin() + i, p); ret(r, k, i, w); }
				cnt("inserts");
			}
			else if (n) {
				unsigned how = rng.below(4);
				if (how == 0) { snprintf(w, sizeof w, "pop_back of list %zu", k); trace("%s", w); freed.insert(m[k].back()); m[k].pop_back(); l[k]->pop_back(); }
				else if (how == 1) { snprintf(w, sizeof w, "pop_front of list %zu", k); trace("%s", w); freed.insert(m[k].front()); m[k].erase(m[k].begin()); l[k]->pop_front(); }
				else { if (i == n) i--; snprintf(w, sizeof w, "erase at %zu of %zu in list %zu", i, n, k); trace("%s", w); It a = walk(k, i); freed.insert(m[k][i]); It r = l[k]->erase(a); m[k].erase(m[k].begin() + i); ret(r, k, i, w); }
				cnt("erases");
			}
			else continue;
			check(k, w); check(o, w); if (rng.chance(1, 6)) { for (std::size_t x = 0; x < NL; x++) check(x, w); content(w); }
		}
		for (std::size_t x = 0; x < NL; x++) check(x, "the last operation"); content("the last operation");
		if (rng.chance(2, 3)) for (std::size_t x = 0; x < NL; x++) { freed.insert(m[x].begin(), m[x].end()); m[x].clear(); l[x]->clear(); }
		std::size_t back = freed.size(); u64 size = file_size(path);
		for (std::size_t i = 0; i < back; i++) alloc();	// every page handed back comes out again, exactly once
		VH_CHECK(file_size(path) == size, "c04:page-lost", "the file grew while %zu freed pages were due", back); cnt("handed_back", back);
		eval(); if (splices) nontrivial(sig); sample(fmt("capacity=%zu ops=%u pages=%zu splices=%u handed back at the end=%zu", Cap, nops, all.size(), splices, back));
	}
};
#if VH_IS_PART(0)
static RegIt r_C04_0("C04", [](u64, Rng& rng) { LinkedCase<3>(rng).run(); }, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_C04_1("C04", [](u64, Rng& rng) { LinkedCase<12>(rng).run(); }, nullptr, 1);
#endif
#endif // C04

#ifdef C05
template <typename Char, std::size_t Cap>
struct StringCase {
	using Pool = abc::vmem_pool<Cap, Log>; using String = abc::vmem_basic_string<Char, Pool, Log>; using Buf = abc::vmem_basic_string_streambuf<Char, Pool, Log>; using Tr = std::char_traits<Char>; using Std = std::basic_string<Char>;
	Rng& rng; std::string path; std::unique_ptr<Pool> pool; abc::vmem_string_state state; std::unique_ptr<String> str; Std model; u64 sig = sizeof(Char) * 10 + Cap;
	explicit StringCase(Rng& r) : rng(r) {}
	Char ch() { switch (rng.below(8)) { case 0: return static_cast<Char>(sizeof(Char) == 1 ? -1 : 0x10ffff); case 1: return 0; case 2: return static_cast<Char>(0x80 + rng.below(128)); case 3: return static_cast<Char>('\n'); case 4: return static_cast<Char>(0x1a); default: return static_cast<Char>(sizeof(Char) == 1 ? rng.next() : rng.below(0x110000)); } }
	void run() {
		path = scratch("s.vmem"); ::unlink(path.c_str()); pool.reset(new Pool(path.c_str(), L())); str.reset(new String(&state, pool.get(), L()));
		const std::size_t cap = String::page_capacity(); std::size_t target = rng.chance(1, 4) ? rng.below(40) : rng.chance(1, 2) ? cap * (1 + rng.below(3)) + rng.below(5) - 2 : rng.below(3 * cap);
		bool interleave = rng.chance(1, 2); std::size_t read_pos = 0, writes = 0, reads = 0; bool moved = false, reopened = false;
		{
			std::unique_ptr<Buf> buf(new Buf(str.get(), L())); std::unique_ptr<std::basic_ostream<Char>> os(new std::basic_ostream<Char>(buf.get())); std::unique_ptr<std::basic_istream<Char>> is(new std::basic_istream<Char>(buf.get()));
			auto read_some = [&](std::size_t avail) {
				std::size_t n = rng.below(3) == 0 ? rng.below(avail + 1) : std::min<std::size_t>(avail, rng.below(20)); if (n == 0) return; Std got(n, 0); is->read(&got[0], static_cast<std::streamsize>(n));
				VH_CHECK(static_cast<std::size_t>(is->gcount()) == n, "c05:short-read", "read of %zu chars at %zu returned %zu with %zu available", n, read_pos, static_cast<std::size_t>(is->gcount()), avail);
				VH_CHECK(Tr::compare(got.data(), model.data() + read_pos, n) == 0, "c05:read-while-writing", "chars read at %zu differ", read_pos); read_pos += n; reads++;
			};
			while (model.size() < target) {
				unsigned how = rng.below(10); sig = hcomb(sig, how);
				if (how < 3) { Char c = ch(); os->put(c); model.push_back(c); }
				else if (how < 8) { std::size_t n = rng.below(rng.chance(1, 3) ? 1500 : 30); Std s; for (std::size_t i = 0; i < n; i++) s.push_back(ch()); os->write(s.data(), static_cast<std::streamsize>(n)); model += s; }
				else if (how < 9) { os->flush(); if (rng.chance(1, 2)) { Char c = ch(); str->push_back(c); model.push_back(c); } }
				else if (rng.chance(1, 3)) { if (rng.chance(1, 2)) is->peek() == Tr::eof() ? is->clear() : void(); Buf* b = new Buf(std::move(*buf)); buf.reset(b); os.reset(new std::basic_ostream<Char>(b)); is.reset(new std::basic_istream<Char>(b)); moved = true; cnt("moves"); }
				writes++; VH_CHECK(os->good(), "c05:write-failed", "writing %zu chars failed the stream", model.size());
				if (interleave && rng.chance(1, 3)) { os->flush(); read_some(model.size() - read_pos); if (rng.chance(1, 6) && read_pos == model.size()) { VH_CHECK(is->peek() == Tr::eof(), "c05:invented", "a char was read past the end"); is->clear(); } }
			}
			os->flush();
		}
		VH_CHECK(str->size() == model.size(), "c05:size", "string has %zu chars, %zu were written", str->size(), model.size());
		if (rng.chance(1, 2)) { str.reset(); pool.reset(); pool.reset(new Pool(path.c_str(), L())); str.reset(new String(&state, pool.get(), L())); reopened = true; cnt("reopens"); }
		{	// through the iterator
			std::size_t i = 0; auto e = str->end(); for (auto itr = str->begin(); itr != e; itr++, i++) { VH_CHECK(i < model.size(), "c05:extra", "iterator yields more than %zu chars", model.size()); Char c = *itr; VH_CHECK(Tr::eq(c, model[i]), "c05:iterator", "char %zu is %ld, expected %ld", i, static_cast<long>(c), static_cast<long>(model[i])); }
			VH_CHECK(i == model.size(), "c05:missing", "iterator yields %zu chars, expected %zu", i, model.size());
		}
		{	// through a stream, in random pieces
			Buf buf(str.get(), L()); std::basic_istream<Char> is(&buf); std::size_t pos = 0;
			while (pos < model.size()) {
				unsigned how = rng.below(4); std::size_t left = model.size() - pos; reads++;
				if (how == 0) { typename Tr::int_type c = is.get(); VH_CHECK(!Tr::eq_int_type(c, Tr::eof()) && Tr::eq(Tr::to_char_type(c), model[pos]), "c05:get", "get() at %zu of %zu gives %ld, expected %ld", pos, model.size(), static_cast<long>(c), static_cast<long>(model[pos])); pos++; }
				else if (how == 1) { typename Tr::int_type c = is.peek(), d = is.peek(); VH_CHECK(Tr::eq_int_type(c, d) && !Tr::eq_int_type(c, Tr::eof()) && Tr::eq(Tr::to_char_type(c), model[pos]), "c05:peek", "peek() at %zu of %zu gives %ld, expected %ld", pos, model.size(), static_cast<long>(c), static_cast<long>(model[pos])); }
				else if (how == 2) { std::size_t n = 1 + rng.below(rng.chance(1, 4) ? left + 10 : 40), w = std::min(n, left); Std got(n, 7); is.read(&got[0], static_cast<std::streamsize>(n)); VH_CHECK(static_cast<std::size_t>(is.gcount()) == w, "c05:short-read", "read(%zu) at %zu of %zu gives %zu", n, pos, model.size(), static_cast<std::size_t>(is.gcount())); VH_CHECK(Tr::compare(got.data(), model.data() + pos, w) == 0, "c05:read", "read(%zu) at %zu differs", n, pos); VH_CHECK(is.eof() == (w < n), "c05:eof-flag", "end-of-stream flag is wrong after read(%zu) at %zu of %zu", n, pos, model.size()); pos += w; if (is.eof()) is.clear(); }
				else { std::size_t n = rng.below(left + 1); is.ignore(static_cast<std::streamsize>(n)); VH_CHECK(static_cast<std::size_t>(is.gcount()) == n, "c05:ignore", "ignore(%zu) at %zu gives %zu", n, pos, static_cast<std::size_t>(is.gcount())); pos += n; }
				VH_CHECK(is.good(), "c05:bad-stream", "stream failed at %zu of %zu", pos, model.size());
			}
			VH_CHECK(Tr::eq_int_type(is.get(), Tr::eof()), "c05:invented", "a char was read past the end of %zu chars", model.size()); VH_CHECK(is.eof(), "c05:eof-flag", "no end-of-stream after the last char");
		}
		eval(); cnt("chars", model.size()); cnt("reads", reads); cnt("writes", writes); for (Char c : model) if (sizeof(Char) == 1) distinct("byte_values", static_cast<u64>(static_cast<unsigned char>(c)));
		if (model.size() > cap) nontrivial(hcomb(sig, model.size())); sample(fmt("char size=%zu chars=%zu writes=%zu reads=%zu moved=%d reopened=%d interleaved=%d", sizeof(Char), model.size(), writes, reads, moved, reopened, interleave));
	}
};
#if VH_IS_PART(0)
static RegIt r_C05_0("C05", [](u64, Rng& rng) { StringCase<char, 3>(rng).run(); }, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_C05_1("C05", [](u64, Rng& rng) { StringCase<wchar_t, 8>(rng).run(); }, nullptr, 1);
#endif
#endif // C05

#ifdef P06
template <std::size_t KeySize> struct KeyOf { using KeyN = KeyOf; unsigned char b[KeySize]; KeyOf() { memset(b, 0, sizeof b); } explicit KeyOf(u32 v) { memset(b, 1, sizeof b); memcpy(b, &v, 4); } u32 n() const { u32 v; memcpy(&v, b, 4); return v; } bool operator <(const KeyN& o) const { return n() < o.n(); } bool operator <=(const KeyN& o) const { return n() <= o.n(); } bool operator ==(const KeyN& o) const { return n() == o.n(); } };
using KeyN = KeyOf<300>; using WideKey = KeyOf<1000>;
template <std::size_t N, std::size_t Cap>
struct ChurnCase {
	using Pool = abc::vmem_pool<Cap, Log>; using Page = abc::vmem_page<Pool, Log>; using T = Item<N>; using List = abc::vmem_list<T, Pool, Log>; using Stack = abc::vmem_stack<T, Pool, Log>; using Map = abc::vmem_map<KeyN, T, Pool, Log>; using SmallMap = abc::vmem_map<u32, T, Pool, Log>; using WideMap = abc::vmem_map<WideKey, T, Pool, Log>; using Linked = abc::vmem_linked<Pool, Log>; using String = abc::vmem_string<Pool, Log>;
	Rng& rng; std::string path; Pool* pool = nullptr; bool probe = true;	// counting pages in use grows the file by one, so it is only done in the first cycle
	explicit ChurnCase(Rng& r) : rng(r) {}
	u64 pages() { return file_size(path) / 4096; }
	std::size_t free_pages() { // take everything that can be had without growing the file, then give it back
		std::vector<u64> got; for (;;) { u64 before = pages(); Page p(pool, L()); VH_CHECK(p.ptr() != nullptr, "p06:alloc-failed", "allocation failed"); got.push_back(p.pos()); if (pages() != before) break; }
		std::set<u64> s(got.begin(), got.end()); VH_CHECK(s.size() == got.size(), "p06:double-free", "a page came out of the pool twice");
		for (u64 pos : got) { Page p(pool, pos, L()); p.free(); }
		return got.size();
	}
	u64 used() { std::size_t f = free_pages(); return pages() - f; }
	// one fill/drain cycle, fully determined by the seed
	template <typename Fill> void cycles(const char* what, unsigned ncycles, Fill&& cycle) {
		u64 seed = rng.next(); u64 peak = 0; u64 used0 = used();
		for (unsigned c = 0; c < ncycles; c++) {
			Rng r(seed); probe = c == 0; trace("%s cycle %u: %llu pages", what, c, (unsigned long long)pages()); cycle(r); u64 p = pages(); cnt("cycles");
			if (c == 0) { peak = p; u64 u = used(); VH_CHECK(u == used0, "p06:pages-lost", "%s: %lld pages are missing after filling and emptying", what, (long long)u - (long long)used0); peak = std::max(peak, pages()); }
			else VH_CHECK(p <= peak, "p06:growth", "%s: the file has %llu pages in cycle %u, %llu after the first", what, (unsigned long long)p, c, (unsigned long long)peak);
		}
		u64 u = used(); VH_CHECK(u == used0, "p06:pages-lost", "%s: %lld pages are missing after %u cycles", what, (long long)u - (long long)used0, ncycles); cnt("conservation_checks");
	}
	template <typename C> static typename C::iterator nth(C& c, std::size_t i) { auto itr = c.begin(); while (i--) itr++; return itr; }
	void occupancy(const char* what, u64 base, std::size_t items, std::size_t cap, unsigned den) { if (!probe) return; u64 used_by = used() - base; u64 bound = static_cast<u64>(den) * items / cap + 3; VH_CHECK(used_by <= bound, "p06:occupancy", "%s: %zu items, %zu per page, take %llu pages (at most %llu expected)", what, items, cap, (unsigned long long)used_by, (unsigned long long)bound); cnt("occupancy_checks"); }
	void run(u64 idx) {
		path = scratch("u.vmem"); ::unlink(path.c_str()); Pool p(path.c_str()); pool = &p; unsigned kind = idx / 8 / 3 % 6; unsigned ncyc = 3 + rng.below(4); bool keep = rng.chance(1, 2);
		abc::vmem_list_state keep_state; List keeper(&keep_state, pool, L()); if (keep) for (u64 i = 0; i < 30; i++) keeper.push_back(T(i));	// other pages stay in use
		u64 base = used(); const std::size_t cap = List::page_capacity(); std::size_t n = cap * (2 + rng.below(5)) + rng.below(cap + 1); if (n > 600) n = 300 + n % 300; char w[64];
		if (kind == 0) {
			abc::vmem_list_state st; List l(&st, pool, L()); snprintf(w, sizeof w, "list of %zu-byte items", N); unsigned style = rng.below(4);
			cycles(w, ncyc, [&](Rng& r) {
				for (std::size_t i = 0; i < n; i++) { std::size_t s = l.size(); if (style == 0) l.push_back(T(i)); else if (style == 1) l.push_front(T(i)); else l.insert(nth(l, r.below(s + 1)), T(i)); }
				if (style >= 2 && cap > 1 && r.chance(1, 2)) occupancy(w, base, l.size(), cap / 2, 1);
				unsigned how = r.below(5); std::size_t left = r.below(n);
				while (l.size() > left) { std::size_t s = l.size(); if (how == 0) l.pop_back(); else if (how == 1) l.pop_front(); else if (how == 2) l.erase(nth(l, s / 2)); else l.erase(nth(l, r.below(s))); }
				if (how >= 2 && style >= 1) occupancy(w, base, l.size(), cap, 4);
				if (how == 4) l.clear(); else while (l.size()) { std::size_t s = l.size(); l.erase(nth(l, r.below(s))); }
			});
		} else if (kind == 1) {
			abc::vmem_stack_state st; Stack s(&st, pool, L()); snprintf(w, sizeof w, "stack of %zu-byte items", N);
			cycles(w, ncyc, [&](Rng& r) { std::size_t sz = 0; for (std::size_t i = 0; i < n * 2; i++) { if (r.below(100) < 70 || sz == 0) { s.push_back(T(i)); sz++; } else { s.pop_back(); sz--; } } occupancy(w, base, sz, Stack::page_capacity(), 1); if (r.chance(1, 3)) { s.clear(); sz = 0; } while (sz--) s.pop_back(); });
		} else if (kind == 2 || kind == 3) {
			auto churn = [&](auto& m, auto mk, std::size_t vcap) {
				n = std::min<std::size_t>(n, 250); unsigned style = rng.below(3); unsigned drain = rng.below(4);
				cycles(w, ncyc, [&](Rng& r) {
					std::vector<u32> keys; std::set<u32> in; for (std::size_t i = 0; i < n; i++) { u32 k = style == 0 ? static_cast<u32>(i) : style == 1 ? static_cast<u32>(n - i) : static_cast<u32>(r.below(n * 3)); if (in.insert(k).second) keys.push_back(k); mk(m, k); for (int q = 0; q < 2; q++) m.find(typename std::decay<decltype(m)>::type::key_type(static_cast<u32>(r.below(n)))); }
					if (drain == 3) { m.clear(); return; }
					std::sort(keys.begin(), keys.end()); if (drain == 1) std::reverse(keys.begin(), keys.end()); if (drain == 2) for (std::size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[r.below(i)]);
					(void)vcap; for (u32 k : keys) m.erase(typename std::decay<decltype(m)>::type::key_type(k));
					VH_CHECK(m.size() == 0, "p06:harness-size", "%s: not empty after erasing every key", w);
				});
			};
			abc::vmem_map_state st;
			if (kind == 2 && idx / 8 / 18 % 2 == 0) { WideMap m(&st, pool, L()); snprintf(w, sizeof w, "map of %zu-byte values, %zu keys per page", N, WideMap::key_page_capacity()); churn(m, [](WideMap& mm, u32 k) { typename WideMap::value_type v; v.key = WideKey(k); v.value = T(k); mm.insert(v); if (mm.size() == 200) cnt("deep_maps"); }, WideMap::value_page_capacity()); }
			else if (kind == 2) { Map m(&st, pool, L()); snprintf(w, sizeof w, "map of %zu-byte values, %zu keys per page", N, Map::key_page_capacity()); churn(m, [](Map& mm, u32 k) { typename Map::value_type v; v.key = KeyN(k); v.value = T(k); mm.insert(v); }, Map::value_page_capacity()); }
			else { SmallMap m(&st, pool, L()); snprintf(w, sizeof w, "map of %zu-byte values, %zu keys per page", N, SmallMap::key_page_capacity()); churn(m, [](SmallMap& mm, u32 k) { typename SmallMap::value_type v; v.key = k; v.value = T(k); mm.insert(v); }, SmallMap::value_page_capacity()); }
		} else if (kind == 4) {
			abc::vmem_linked_state a, b; Linked la(&a, pool, L()), lb(&b, pool, L()); snprintf(w, sizeof w, "page lists");
			cycles(w, ncyc, [&](Rng& r) { unsigned na = r.below(40); for (unsigned i = 0; i < na; i++) { Page pg(pool, L()); (r.chance(1, 2) ? la : lb).push_back(pg.pos()); } la.splice(lb); if (r.chance(1, 2)) la.clear(); else while (!la.empty()) { if (r.chance(1, 2)) la.pop_back(); else la.pop_front(); } });
		} else {
			abc::vmem_string_state st; String s(&st, pool, L()); snprintf(w, sizeof w, "string");
			cycles(w, ncyc, [&](Rng& r) { std::size_t sz = 0; unsigned nn = 2000 + r.below(9000); for (unsigned i = 0; i < nn; i++) { if (r.below(100) < 75 || sz == 0) { s.push_back(static_cast<char>(i)); sz++; } else { if (r.chance(1, 2)) s.pop_back(); else s.pop_front(); sz--; } } if (r.chance(1, 2)) s.clear(); else while (sz--) s.pop_front(); });
		}
		if (keep) { std::size_t i = 0; for (auto itr = keeper.begin(); itr != keeper.end(); itr++, i++) { auto ptr = itr.operator->(); const T* t = ptr; VH_CHECK(t->whole() && t->id() == i, "p06:bystander", "%s: an item of another list changed", w); } VH_CHECK(i == 30, "p06:bystander", "%s: another list changed its size", w); }
		eval(); distinct("workloads", kind * 100 + N % 100); nontrivial(hcomb(hcomb(kind, N), hcomb(n, rng.next()))); sample(fmt("%s: %zu items per cycle, %u cycles, file of %llu pages", w, n, ncyc, (unsigned long long)pages()));
	}
};
#if VH_IS_PART(0)
static RegIt r_P06_0("P06", [](u64 idx, Rng& rng) { ChurnCase<900, 4>(rng).run(idx); }, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_P06_1("P06", [](u64 idx, Rng& rng) { ChurnCase<500, 3>(rng).run(idx); }, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_P06_2("P06", [](u64 idx, Rng& rng) { ChurnCase<100, 16>(rng).run(idx); }, nullptr, 2);
#endif
#endif // P06
