// C01 list == sequence, C02 stack == LIFO, P06 (part): model-based monitors over the public container API.
#include "vmem_seq.h"
using namespace vh;
using Log = vh::VLog;

#ifdef C01
template <std::size_t N, std::size_t Cap>
struct ListCase {
	using Pool = abc::vmem_pool<Cap, Log>; using T = Item<N>; using List = abc::vmem_list<T, Pool, Log>; using It = typename List::iterator; using Model = std::vector<u64>;
	Rng& rng; std::unique_ptr<Pool> pool; abc::vmem_list_state state; std::unique_ptr<List> list; Model m; u64 next_id = 1; u64 sig = N * 131 + Cap; std::size_t cap = List::page_capacity(); unsigned ops = 0, maxpages = 0;
	explicit ListCase(Rng& r) : rng(r) {}
	u64 id() { u64 i = (next_id++) & T::mask(); return i; }

	u64 read(It itr, const char* what) {
		VH_CHECK(itr.can_deref(), "c01:not-dereferenceable", "%s: iterator of an existing item cannot be dereferenced", what);
		typename List::pointer p = itr.operator->(); const T* t = p; VH_CHECK(t != nullptr, "c01:null-item", "%s: no memory behind the iterator", what);
		VH_CHECK(t->whole(), "c01:torn-item", "%s: item bytes are torn (id %llu)", what, (unsigned long long)t->id());
		return t->id();
	}
	void full_check(const char* what) {
		VH_CHECK(list->size() == m.size(), "c01:size", "after %s: size %zu, expected %zu", what, list->size(), m.size());
		VH_CHECK(list->empty() == m.empty(), "c01:empty", "after %s: empty() is wrong", what);
		std::size_t i = 0; It e = list->end();
		for (It itr = list->begin(); itr != e; ++itr, ++i) {
			VH_CHECK(i < m.size(), "c01:extra-item", "after %s: forward walk visits more than %zu items", what, m.size());
			u64 v = read(itr, what); VH_CHECK(v == m[i], "c01:forward", "after %s: item %zu is %llu, expected %llu (of %zu)", what, i, (unsigned long long)v, (unsigned long long)m[i], m.size());
		}
		VH_CHECK(i == m.size(), "c01:missing-item", "after %s: forward walk visits %zu items, expected %zu", what, i, m.size());
		i = m.size(); It rb = list->rbegin();
		for (It itr = list->rend(); itr != rb; --itr) {
			VH_CHECK(i > 0, "c01:extra-item", "after %s: backward walk visits more than %zu items", what, m.size());
			--i; u64 v = read(itr, what); VH_CHECK(v == m[i], "c01:backward", "after %s: backward item %zu is %llu, expected %llu", what, i, (unsigned long long)v, (unsigned long long)m[i]);
		}
		VH_CHECK(i == 0, "c01:missing-item", "after %s: backward walk misses %zu items", what, i);
		if (!m.empty()) { VH_CHECK(list->front().id() == m.front(), "c01:front", "after %s: front is wrong", what); VH_CHECK(list->back().id() == m.back(), "c01:back", "after %s: back is wrong", what); }
		{ It b = list->rbegin(); b++; VH_CHECK(b == list->begin(), "c01:edges", "after %s: a step from rbegin() does not lead to begin()", what); It z = list->end(); z--; VH_CHECK(z == list->rend(), "c01:edges", "after %s: a step back from end() does not lead to rend()", what); }
		cnt("full_checks"); cnt("items_compared", 2 * m.size());
	}
	It walk(std::size_t i) {	// iterator to index i, from either side
		if (m.size() - i < i && i < m.size()) { It itr = list->rend(); for (std::size_t k = m.size() - 1; k > i; k--) --itr; return itr; }
		if (i == m.size()) return list->end();
		It itr = list->begin(); for (std::size_t k = 0; k < i; k++) itr++; return itr;
	}
	void check_ret(It ret, std::size_t i, const char* what) {
		It w = i == m.size() ? list->end() : walk(i);
		if (i == m.size()) { VH_CHECK(ret == list->end(), "c01:returned-position", "%s must return the end", what); VH_CHECK(!ret.can_deref(), "c01:returned-position", "%s returned a dereferenceable end", what); }
		else { u64 v = read(ret, what); VH_CHECK(v == m[i], "c01:returned-position", "%s returned the position of %llu, expected item %zu = %llu", what, (unsigned long long)v, i, (unsigned long long)m[i]); VH_CHECK(ret == w, "c01:returned-iterator", "%s returned an iterator unequal to the one reached by walking", what); }
	}
	void clear() { list->clear(); m.clear(); }
	void many() {	// more items than 16 bits can count
		std::string path = scratch("l.vmem"); ::unlink(path.c_str()); pool.reset(new Pool(path.c_str(), L())); list.reset(new List(&state, pool.get(), L()));
		std::size_t target = 65536 + rng.below(3000); bool front = rng.chance(1, 3); trace("%zu items, pushed to the %s", target, front ? "front" : "back");
		while (m.size() < target) {
			u64 v = id(); if (front) { list->push_front(T(v)); m.push_back(v); } else { list->push_back(T(v)); m.push_back(v); }
			if (m.size() % 4096 == 0) tick(); if (m.size() > 65500) VH_CHECK(list->size() == m.size(), "c01:size", "after %zu pushes: size %zu", m.size(), list->size());
		}
		if (front) std::reverse(m.begin(), m.end());
		full_check("many pushes"); list.reset(); pool.reset(); pool.reset(new Pool(path.c_str(), L())); list.reset(new List(&state, pool.get(), L()));
		for (int k = 0; k < 6; k++) { std::size_t pos = k % 2 ? rng.below(300) : m.size() - rng.below(300); u64 v = id(); It r = list->insert(walk(pos), T(v)); m.insert(m.begin() + static_cast<long>(pos), v); check_ret(r, pos, "insert into many"); }
		full_check("inserts into many");
		while (m.size() > 65530) { list->pop_back(); m.pop_back(); VH_CHECK(list->size() == m.size(), "c01:size", "after a pop: size %zu, expected %zu", list->size(), m.size()); }
		full_check("pops from many"); list->clear(); m.clear(); full_check("clear of many"); eval(); cnt("long_lists"); nontrivial(hcomb(sig, front)); sample(fmt("item=%zu bytes, %zu per page, capacity=%zu, %zu items", N, cap, Cap, target));
	}
	void run(u64 idx) {
		if (N == 8 && rng.chance(1, 40)) { many(); return; }
		std::string path = scratch("l.vmem"); ::unlink(path.c_str());
		pool.reset(new Pool(path.c_str(), L())); list.reset(new List(&state, pool.get(), L()));
		full_check("creation");
		unsigned nops = 30 + rng.below(170); unsigned grow = 35 + rng.below(40); unsigned focus = rng.below(5); std::size_t limit = std::min<std::size_t>(cap * (3 + rng.below(6)) + 3, cap > 100 ? 1600 : 400);
		(void)idx;
		for (ops = 0; ops < nops; ops++) {
			unsigned what = rng.below(100); std::size_t n = m.size();
			std::size_t pos = rng.below(n + 1);
			if (focus == 1) pos = rng.below(std::min<std::size_t>(n, 2) + 1); else if (focus == 2) pos = n - rng.below(std::min<std::size_t>(n, 2) + 1);
			else if (focus == 3 && cap > 1) { pos = (pos / (cap / 2 + 1)) * (cap / 2 + 1); if (pos > n) pos = n; }
			bool ins = rng.below(100) < grow ? n < limit : n == 0;
			sig = hcomb(sig, hcomb(what / 20 * 2 + ins, n ? pos * 8 / (n + 1) : 0)); char w[80];
			if (what < 4) { if (n && rng.chance(1, 3)) { clear(); snprintf(w, sizeof w, "clear"); cnt("clears"); } else continue; }
			else if (what < 8) { list.reset(); pool.reset(); pool.reset(new Pool(path.c_str(), L())); list.reset(new List(&state, pool.get(), L())); snprintf(w, sizeof w, "reopen"); cnt("reopens"); }
			else if (what < 12) { list.reset(new List(*list)); snprintf(w, sizeof w, "container copy"); }
			else if (ins) {
				u64 v = id(); unsigned k = rng.below(10);
				if (k < 1) { list->push_front(T(v)); m.insert(m.begin(), v); snprintf(w, sizeof w, "push_front #%u", ops); }
				else if (k < 3) { list->push_back(T(v)); m.push_back(v); snprintf(w, sizeof w, "push_back #%u", ops); }
				else if (n && k == 7 && Cap > 3) {	// a new item copied from an item of the same list, whose page the caller keeps locked
					std::size_t from = rng.chance(1, 2) ? std::min<std::size_t>(n - 1, pos + rng.below(3)) : rng.below(n); It src = walk(from); abc::vmem_page<Pool, Log> keep(pool.get(), src.page_pos(), L()); const T& ref = *src; u64 x = m[from]; VH_CHECK(ref.id() == x, "c01:alias-source", "item %zu is not %llu", from, (unsigned long long)x);
					unsigned how = rng.below(4); cnt("self_inserts"); snprintf(w, sizeof w, "self insert of item %zu at %zu of %zu, way %u", from, pos, n, how); trace("%s", w);
					if (how == 0) { list->push_front(ref); m.insert(m.begin(), x); }
					else if (how == 1) { list->push_back(ref); m.push_back(x); }
					else { It at = walk(pos); It r = list->insert(at, ref); m.insert(m.begin() + pos, x); check_ret(r, pos, w); }
				}
				else if (k < 8) { snprintf(w, sizeof w, "insert at %zu of %zu", pos, n); It at = walk(pos); It r = list->insert(at, T(v)); m.insert(m.begin() + pos, v); trace("%s", w); check_ret(r, pos, w); }
				else {
					std::size_t c = rng.below(rng.chance(1, 3) ? 2 * cap + 2 : 4); if (cap > 100) c = rng.below(rng.chance(1, 4) ? 300 : 5);
					std::vector<T> src; std::vector<u64> ids; for (std::size_t i = 0; i < c; i++) { u64 x = id(); ids.push_back(x); src.emplace_back(x); }
					snprintf(w, sizeof w, "insert of %zu items at %zu of %zu", c, pos, n); It at = walk(pos); It r = list->insert(at, src.begin(), src.end()); m.insert(m.begin() + pos, ids.begin(), ids.end()); trace("%s", w); check_ret(r, pos, w); cnt("range_inserts");
				}
				cnt("inserts");
			}
			else if (n) {
				unsigned k = rng.below(10);
				if (k < 1) { list->pop_front(); m.erase(m.begin()); snprintf(w, sizeof w, "pop_front #%u", ops); }
				else if (k < 3) { list->pop_back(); m.pop_back(); snprintf(w, sizeof w, "pop_back #%u", ops); }
				else if (k < 8) { if (pos == n) pos = n - 1; snprintf(w, sizeof w, "erase at %zu of %zu", pos, n); It at = walk(pos); It r = list->erase(at); m.erase(m.begin() + pos); trace("%s", w); check_ret(r, pos, w); }
				else { std::size_t to = pos + rng.below(std::min<std::size_t>(n - pos, rng.chance(1, 3) ? 2 * cap + 2 : 4) + 1); snprintf(w, sizeof w, "erase [%zu,%zu) of %zu", pos, to, n); It a = walk(pos), b = walk(to); It r = list->erase(a, b); m.erase(m.begin() + pos, m.begin() + to); trace("%s", w); check_ret(r, pos, w); cnt("range_erases"); }
				cnt("erases");
			}
			else continue;
			trace("%s", w);
			VH_CHECK(list->size() == m.size(), "c01:size", "after %s: size %zu, expected %zu", w, list->size(), m.size());
			if (m.size() < 60 || rng.chance(1, 4)) full_check(w);
		}
		full_check("the last operation");
		eval(); distinct("shapes", hcomb(m.size(), cap)); if (next_id > 2 * cap) nontrivial(sig);
		sample(fmt("item=%zu bytes, %zu per page, capacity=%zu, ops=%u, inserted=%llu, final size=%zu", N, cap, Cap, nops, (unsigned long long)next_id - 1, m.size()));
	}
};
#if VH_IS_PART(0)
static RegIt r_C01_0("C01", [](u64 idx, Rng& rng) { (void)idx; ListCase<900, 3>(rng).run(idx); }, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_C01_1("C01", [](u64 idx, Rng& rng) { (void)idx; ListCase<1300, 6>(rng).run(idx); }, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_C01_2("C01", [](u64 idx, Rng& rng) { (void)idx; ListCase<2000, 6>(rng).run(idx); }, nullptr, 2);
#endif
#if VH_IS_PART(3)
static RegIt r_C01_3("C01", [](u64 idx, Rng& rng) { (void)idx; ListCase<800, 16>(rng).run(idx); }, nullptr, 3);
#endif
#if VH_IS_PART(4)
static RegIt r_C01_4("C01", [](u64 idx, Rng& rng) { (void)idx; ListCase<500, 3>(rng).run(idx); }, nullptr, 4);
#endif
#if VH_IS_PART(5)
static RegIt r_C01_5("C01", [](u64 idx, Rng& rng) { (void)idx; ListCase<370, 12>(rng).run(idx); }, nullptr, 5);
#endif
#if VH_IS_PART(6)
static RegIt r_C01_6("C01", [](u64 idx, Rng& rng) { (void)idx; ListCase<40, 4>(rng).run(idx); }, nullptr, 6);
#endif
#if VH_IS_PART(7)
static RegIt r_C01_7("C01", [](u64 idx, Rng& rng) { (void)idx; ListCase<8, 16>(rng).run(idx); }, nullptr, 7);
#endif
#if VH_IS_PART(8)
static RegIt r_C01_8("C01", [](u64 idx, Rng& rng) { (void)idx; ListCase<3000, 8>(rng).run(idx); }, nullptr, 8);
#endif
#endif // C01

#ifdef C02
template <std::size_t N, std::size_t Cap>
static void c02(Rng& rng) {
	using Pool = abc::vmem_pool<Cap, Log>; using T = Item<N>; using Stack = abc::vmem_stack<T, Pool, Log>;
	std::string path = scratch("s.vmem"); ::unlink(path.c_str());
	std::unique_ptr<Pool> pool(new Pool(path.c_str(), L())); abc::vmem_stack_state state; std::unique_ptr<Stack> st(new Stack(&state, pool.get(), L()));
	std::vector<u64> m; u64 next = 1, sig = N + Cap; std::size_t cap = Stack::page_capacity(), maxn = 0; unsigned nops = 50 + rng.below(300), grow = 30 + rng.below(50);
	auto top = [&](const char* w) {
		VH_CHECK(st->size() == m.size(), "c02:size", "after %s: size %zu, expected %zu", w, st->size(), m.size()); VH_CHECK(st->empty() == m.empty(), "c02:empty", "after %s: empty() is wrong", w);
		if (!m.empty()) { const T* t = nullptr; typename Stack::pointer p = st->backptr(); t = p; VH_CHECK(t && t->whole(), "c02:torn-top", "after %s: top is torn", w); VH_CHECK(t->id() == m.back(), "c02:top", "after %s: top is %llu, expected %llu (size %zu)", w, (unsigned long long)t->id(), (unsigned long long)m.back(), m.size()); VH_CHECK(st->back().id() == m.back(), "c02:top", "after %s: back() is wrong", w); cnt("tops"); }
	};
	auto all = [&](const char* w) {
		std::size_t i = m.size();
		for (auto it = st->rend(); it != st->rbegin(); --it) { VH_CHECK(i-- > 0, "c02:extra-item", "after %s: too many items", w); VH_CHECK((*it).id() == m[i] && (*it).whole(), "c02:order", "after %s: item %zu is wrong", w, i); }
		VH_CHECK(i == 0, "c02:missing-item", "after %s: %zu items missing", w, i);
		i = 0; for (auto it = st->begin(); it != st->end(); it++) { VH_CHECK(i < m.size() && (*it).id() == m[i], "c02:order", "after %s: forward item %zu is wrong", w, i); i++; }
		VH_CHECK(i == m.size(), "c02:missing-item", "after %s: forward walk short", w);
		{ auto b = st->rbegin(); b++; VH_CHECK(b == st->begin(), "c02:edges", "after %s: a step from rbegin() does not lead to begin()", w); auto z = st->end(); z--; VH_CHECK(z == st->rend(), "c02:edges", "after %s: a step back from end() does not lead to rend()", w); }
		if (!m.empty()) VH_CHECK(st->front().id() == m.front(), "c02:front", "after %s: bottom is wrong", w);
		cnt("full_checks");
	};
	if (N == 8 && rng.chance(1, 40)) {	// more items than 16 bits can count
		std::size_t target = 65536 + rng.below(3000); trace("%zu items", target); maxn = target; nops = 10;
		while (m.size() < target) { u64 v = next++; st->push_back(T(v)); m.push_back(v & T::mask()); if (m.size() % 1000 == 0) tick(); if (m.size() > 65500 || m.size() % 1000 == 0) top("one of many pushes"); }
		all("many pushes"); st.reset(); pool.reset(); pool.reset(new Pool(path.c_str(), L())); st.reset(new Stack(&state, pool.get(), L())); top("reopen of many");
		while (m.size() > 65500) { st->pop_back(); m.pop_back(); top("pop from many"); }
		all("pops from many"); st->clear(); m.clear(); all("clear of many"); cnt("long_stacks");
	}
	for (unsigned op = 0; op < nops; op++) {
		unsigned what = rng.below(100); const char* w = "";
		if (what < 2) { if (rng.chance(1, 2)) { st->clear(); m.clear(); w = "clear"; cnt("clears"); } }
		else if (what < 5) { st.reset(); pool.reset(); pool.reset(new Pool(path.c_str(), L())); st.reset(new Stack(&state, pool.get(), L())); w = "reopen"; cnt("reopens"); }
		else {
			std::size_t k = 1 + rng.below(rng.chance(1, 8) ? cap + 2 : 3); if (k > 300) k = 300; bool push = rng.below(100) < grow;
			if (push && m.size() > cap * 7 + 5) push = false;
			for (std::size_t i = 0; i < k; i++) {
				if (push) { u64 v = next++; st->push_back(T(v)); m.push_back(v & T::mask()); w = "push"; cnt("pushes"); }
				else if (!m.empty()) { top("pop"); st->pop_back(); m.pop_back(); w = "pop"; cnt("pops"); }
				top(w);
			}
			sig = hcomb(sig, hcomb(push, k)); maxn = std::max(maxn, m.size());
		}
		top(w); if (m.size() < 40 || rng.chance(1, 5)) all(w);
	}
	all("the last operation");
	while (!m.empty()) { top("drain"); st->pop_back(); m.pop_back(); }
	top("drain"); all("drain");
	eval(); if (maxn > cap) nontrivial(sig); sample(fmt("item=%zu per_page=%zu ops=%u max=%zu", N, cap, nops, maxn));
}
#if VH_IS_PART(0)
static RegIt r_C02_0("C02", [](u64 idx, Rng& rng) { (void)idx; c02<900, 3>(rng); }, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_C02_1("C02", [](u64 idx, Rng& rng) { (void)idx; c02<1300, 8>(rng); }, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_C02_2("C02", [](u64 idx, Rng& rng) { (void)idx; c02<2000, 6>(rng); }, nullptr, 2);
#endif
#if VH_IS_PART(3)
static RegIt r_C02_3("C02", [](u64 idx, Rng& rng) { (void)idx; c02<4000, 3>(rng); }, nullptr, 3);
#endif
#if VH_IS_PART(4)
static RegIt r_C02_4("C02", [](u64 idx, Rng& rng) { (void)idx; c02<200, 8>(rng); }, nullptr, 4);
#endif
#if VH_IS_PART(5)
static RegIt r_C02_5("C02", [](u64 idx, Rng& rng) { (void)idx; c02<8, 16>(rng); }, nullptr, 5);
#endif
#endif // C02
