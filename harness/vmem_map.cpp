// C03: persistent map == ordered map with unique keys. std::map is the reference model.
#include "vmem_seq.h"
using namespace vh;
using Log = vh::VLog;

#ifdef C03
// Keys of any size, ordered by number; every byte is derived from the number so torn keys are visible.
template <std::size_t N>
struct Key {
	unsigned char b[N];
	Key() { memset(b, 0, N); }
	explicit Key(u64 v) { Item<N> i(v); memcpy(b, i.b, N); }
	u64 num() const { Item<N> i; memcpy(i.b, b, N); return i.id(); }
	bool whole() const { Item<N> i; memcpy(i.b, b, N); return i.whole(); }
	bool operator <(const Key& o) const { return num() < o.num(); }
	bool operator <=(const Key& o) const { return num() <= o.num(); }
	bool operator ==(const Key& o) const { return num() == o.num(); }
};
template <std::size_t KN, std::size_t VN, std::size_t Cap>
struct MapCase {
	using Pool = abc::vmem_pool<Cap, Log>; using K = Key<KN>; using V = Item<VN>; using Map = abc::vmem_map<K, V, Pool, Log>; using It = typename Map::iterator; using Value = typename Map::value_type; using Model = std::map<u64, u64>;
	Rng& rng; std::unique_ptr<Pool> pool; abc::vmem_map_state state; std::unique_ptr<Map> map; Model m; u64 next_id = 1; u64 sig = KN * 131 + VN * 7 + Cap; unsigned ops = 0; std::size_t deepest = 0, most = 0;
	std::size_t kcap = Map::key_page_capacity(), vcap = Map::value_page_capacity();
	explicit MapCase(Rng& r) : rng(r) {}
	Value val(u64 k, u64 v) { Value x; x.key = K(k); x.value = V(v); return x; }
	void open(const std::string& path) { pool.reset(new Pool(path.c_str(), L())); map.reset(new Map(&state, pool.get(), L())); }
	void check_item(It itr, u64 k, u64 v, const char* what) {
		VH_CHECK(itr.can_deref(), "c03:not-dereferenceable", "%s: iterator of key %llu cannot be dereferenced", what, (unsigned long long)k);
		typename Map::pointer p = itr.operator->(); const Value* t = p; VH_CHECK(t != nullptr, "c03:null-item", "%s: no memory behind the iterator", what);
		VH_CHECK(t->key.whole() && t->value.whole(), "c03:torn-item", "%s: bytes of key %llu are torn", what, (unsigned long long)t->key.num());
		VH_CHECK(t->key.num() == k, "c03:wrong-key", "%s: key is %llu, expected %llu", what, (unsigned long long)t->key.num(), (unsigned long long)k);
		VH_CHECK(t->value.id() == v, "c03:wrong-value", "%s: value of key %llu is %llu, expected %llu", what, (unsigned long long)k, (unsigned long long)t->value.id(), (unsigned long long)v);
	}
	void lookup(u64 k, const char* what) {
		auto i = m.find(k); bool in = i != m.end(); K key(k);
		const Map& cm = *map;
		It itr = map->find(key);
		VH_CHECK(map->contains(key) == in, "c03:contains", "%s: contains(%llu) is %d, expected %d", what, (unsigned long long)k, !in, in);
		if (in) {
			check_item(itr, k, i->second, what);
			typename Map::pointer p = (*map)[key]; const Value* t = p; VH_CHECK(t != nullptr && t->value.id() == i->second, "c03:subscript", "%s: operator[](%llu) is wrong", what, (unsigned long long)k);
			VH_CHECK(cm.find(key).can_deref(), "c03:const-find", "%s: const find(%llu) misses", what, (unsigned long long)k);
		}
		else {
			VH_CHECK(!itr.can_deref() && itr == map->end(), "c03:found-absent", "%s: find(%llu) of an absent key is not end()", what, (unsigned long long)k);
			typename Map::pointer p = (*map)[key]; VH_CHECK(p == nullptr, "c03:subscript", "%s: operator[](%llu) of an absent key is not null", what, (unsigned long long)k);
			cnt("absent_lookups");
		}
		cnt("lookups");
	}
	void full_check(const char* what) {
		VH_CHECK(map->size() == m.size(), "c03:size", "after %s: size %zu, expected %zu", what, map->size(), m.size());
		VH_CHECK(map->empty() == m.empty(), "c03:empty", "after %s: empty() is wrong", what);
		auto i = m.begin(); It e = map->end();
		for (It itr = map->begin(); itr != e; itr++) {
			VH_CHECK(i != m.end(), "c03:extra-item", "after %s: forward walk visits more than %zu items", what, m.size());
			check_item(itr, i->first, i->second, what); ++i;
		}
		VH_CHECK(i == m.end(), "c03:missing-item", "after %s: forward walk misses items", what);
		auto j = m.rbegin(); It rb = map->rbegin();
		for (It itr = map->rend(); itr != rb; itr--) {
			VH_CHECK(j != m.rend(), "c03:extra-item", "after %s: backward walk visits more than %zu items", what, m.size());
			check_item(itr, j->first, j->second, what); ++j;
		}
		VH_CHECK(j == m.rend(), "c03:missing-item", "after %s: backward walk misses items", what);
		{ It b = map->rbegin(); b++; VH_CHECK(b == map->begin(), "c03:edges", "after %s: a step from rbegin() does not lead to begin()", what); It z = map->end(); z--; VH_CHECK(z == map->rend(), "c03:edges", "after %s: a step back from end() does not lead to rend()", what); }
		cnt("full_checks"); cnt("items_compared", 2 * m.size());
	}
	void all_lookups(const char* what) { u64 last = 0; for (auto& x : m) { lookup(x.first, what); if (x.first > last + 1) lookup(x.first - 1, what); last = x.first; } lookup(last + 1, what); lookup(0, what); }
	void insert(u64 k, const char* w) {
		u64 v = next_id++ & V::mask(); auto r = m.insert({ k, v });
		if (rng.chance(1, 2)) { auto got = map->insert(val(k, v)); VH_CHECK(got.second == r.second, "c03:insert-result", "%s: insert reports %d, expected %d", w, got.second, r.second); check_item(got.first, k, r.first->second, w); }
		else { auto got = map->insert2(val(k, v)); VH_CHECK(got.ok == r.second, "c03:insert-result", "%s: insert2 reports %d, expected %d", w, got.ok, r.second); check_item(got.iterator, k, r.first->second, w); }
		cnt("inserts"); if (!r.second) cnt("duplicates");
	}
	void erase(u64 k, const char* w) {
		std::size_t want = m.erase(k), got = map->erase(K(k)); VH_CHECK(got == want, "c03:erase-result", "%s: erase reports %zu, expected %zu", w, got, want); cnt("erases");
	}
	std::size_t depth() const { return static_cast<std::size_t>(state.keys.total_item_count); }
	void many() {	// more items than 16 bits can count
		std::string path = scratch("m.vmem"); ::unlink(path.c_str()); state = abc::vmem_map_state(); open(path); std::size_t target = 65536 + rng.below(2000); u64 mode = rng.below(3), step = 1 + rng.below(3);
		trace("%zu items, mode %llu", target, (unsigned long long)mode);
		for (u64 i = 0; m.size() < target; i++) {
			if (i % 1024 == 0) tick();
			u64 k = 100 + step * (mode == 0 ? i : mode == 1 ? target - i : (i * 40503) % 131072), v = next_id++ & V::mask(); auto r = m.insert({ k, v });
			auto got = map->insert(val(k, v)); VH_CHECK(got.second == r.second, "c03:insert-result", "insert into many reports %d, expected %d", got.second, r.second); VH_CHECK(map->size() == m.size(), "c03:size", "after %zu inserts: size %zu", m.size(), map->size());
		}
		most = m.size(); deepest = depth(); full_check("many inserts"); tick(); map.reset(); pool.reset(); open(path); for (int i = 0; i < 200; i++) lookup(rng.below(100 + step * 131072), "lookup in many");
		while (m.size() > 65500) { tick(); erase(rng.chance(1, 2) ? m.begin()->first : m.rbegin()->first, "erase from many"); }
		full_check("erases from many"); tick(); map->clear(); m.clear(); full_check("clear of many"); insert(5, "insert after clear of many"); full_check("refill"); eval(); cnt("long_maps"); nontrivial(hcomb(sig, mode)); sample(fmt("key=%zu value=%zu bytes, %zu items", KN, VN, target));
	}
	void run(u64) {
		std::string path = scratch("m.vmem"); ::unlink(path.c_str()); state = abc::vmem_map_state();
		open(path); full_check("creation"); lookup(5, "creation");
		unsigned nops = 60 + rng.below(340); u64 span = 1ull << (5 + rng.below(KN < 4 ? 9 : 16)); if (KN == 1) span = 256; if (KN == 2) span = std::min<u64>(span, 65000);
		std::size_t limit = std::min<std::size_t>(vcap * kcap * (1 + rng.below(kcap < 8 ? 6 : 1)) + vcap * 2, 900);
		unsigned mode = rng.below(6); u64 cursor = span / 2; unsigned phase = 60; 
		for (ops = 0; ops < nops; ops++) {
			char w[96]; std::size_t n = m.size();
			if (rng.chance(1, 25)) { phase = rng.chance(1, 2) ? 85 : 20; mode = rng.below(6); cursor = rng.below(span); }
			unsigned what = rng.below(100);
			if (what < 1) { if (rng.chance(1, 3)) { map->clear(); m.clear(); snprintf(w, sizeof w, "clear #%u", ops); cnt("clears"); } else continue; }
			else if (what < 3) { map.reset(); pool.reset(); open(path); snprintf(w, sizeof w, "reopen #%u", ops); cnt("reopens"); }
			else if (what < 4) { map.reset(new Map(*map)); snprintf(w, sizeof w, "copy of the map object #%u", ops); }
			else {
				bool ins = rng.below(100) < phase ? n < limit : n == 0; unsigned reps = rng.chance(1, 5) ? 1 + rng.below(vcap * 2 > 40 ? 40 : vcap * 2 + 1) : 1;
				sig = hcomb(sig, hcomb(mode * 2 + ins, depth())); snprintf(w, sizeof w, "-");
				if (ins && rng.chance(1, 15)) {
					std::vector<Value> src; u64 c = rng.below(12); for (u64 i = 0; i < c; i++) { u64 k = rng.below(span), v = next_id++ & V::mask(); src.push_back(val(k, v)); m.insert({ k, v }); }
					snprintf(w, sizeof w, "range insert of %llu #%u", (unsigned long long)c, ops); trace("%s", w); map->insert(src.begin(), src.end()); cnt("range_inserts");
				}
				else if (!ins && rng.chance(1, 15)) {
					std::vector<K> src; u64 c = rng.below(12); for (u64 i = 0; i < c; i++) { u64 k = rng.below(span); if (!m.empty() && rng.chance(2, 3)) { auto it = m.lower_bound(k); if (it != m.end()) k = it->first; } src.push_back(K(k)); m.erase(k); }
					snprintf(w, sizeof w, "range erase of %llu #%u", (unsigned long long)c, ops); trace("%s", w); map->erase(src.begin(), src.end()); cnt("range_erases");
				}
				else for (unsigned r = 0; r < reps; r++) {
					u64 k;
					if (ins) {
						switch (mode) { case 0: k = cursor = (cursor + 1 + rng.below(3)) % span; break; case 1: k = cursor = (cursor + span - 1 - rng.below(3)) % span; break; case 2: k = (cursor + rng.below(16)) % span; break;
							case 3: k = m.empty() ? rng.below(span) : m.begin()->first ? m.begin()->first - 1 : rng.below(span); break; case 4: k = m.empty() ? rng.below(span) : (m.rbegin()->first + 1) % span; break; default: k = rng.below(span); }
						if (m.size() < limit) { snprintf(w, sizeof w, "insert of %llu #%u", (unsigned long long)k, ops); trace("%s", w); insert(k, w); }
					} else {
						k = rng.below(span);
						if (!m.empty() && !rng.chance(1, 8)) {
							auto it = m.end();
							switch (mode) { case 0: case 3: it = m.begin(); break; case 1: case 4: it = std::prev(m.end()); break; case 2: it = m.lower_bound(cursor % span); break; default: it = m.lower_bound(k); }
							if (it == m.end()) it = m.begin(); k = it->first;
						}
						snprintf(w, sizeof w, "erase of %llu #%u", (unsigned long long)k, ops); trace("%s", w); erase(k, w);
					}
					if (m.size() > most) most = m.size();
				}
			}
			if (depth() > deepest) deepest = depth();
			VH_CHECK(map->size() == m.size(), "c03:size", "after %s: size %zu, expected %zu", w, map->size(), m.size());
			for (int q = 0; q < 3; q++) lookup(rng.below(span), w);
			if (m.size() < 40 || rng.chance(1, 12)) full_check(w);
			if (m.size() < 20 || rng.chance(1, 30)) all_lookups(w);
		}
		full_check("the last operation"); all_lookups("the last operation");
		if (rng.chance(1, 2)) { // drain in some order
			unsigned order = rng.below(3); snprintf(wbuf, sizeof wbuf, "drain %u", order); trace("%s", wbuf);
			while (!m.empty()) { u64 k = order == 0 ? m.begin()->first : order == 1 ? m.rbegin()->first : m.lower_bound(rng.below(m.rbegin()->first + 1))->first; erase(k, wbuf); if (rng.chance(1, 20)) { full_check(wbuf); all_lookups(wbuf); } }
			full_check("draining"); cnt("drains"); VH_CHECK(depth() == 0, "c03:index-left", "an empty map still has %zu index levels", depth());
			insert(7 % span, "insert after draining"); full_check("refill");
		}
		eval(); distinct("shapes", hcomb(most, deepest)); if (deepest) { nontrivial(sig); cnt("multi_level"); } if (deepest > 1) cnt("two_or_more_index_levels"); if (deepest > 2) cnt("three_or_more_index_levels");
		sample(fmt("key=%zu value=%zu bytes, %zu keys and %zu values per page, pool capacity=%zu, ops=%u, most items=%zu, index levels=%zu", KN, VN, kcap, vcap, Cap, nops, most, deepest));
	}
	char wbuf[64];
};
#define C03_PART(k, KN, VN, CAP) static RegIt r_C03_##k("C03", [](u64 idx, Rng& rng) { MapCase<KN, VN, CAP>(rng).run(idx); }, nullptr, k);
#if VH_IS_PART(0)
C03_PART(0, 900, 900, 3)
#endif
#if VH_IS_PART(1)
C03_PART(1, 1300, 8, 9)
#endif
#if VH_IS_PART(2)
C03_PART(2, 1900, 1900, 16)
#endif
#if VH_IS_PART(3)
C03_PART(3, 8, 1000, 4)
#endif
#if VH_IS_PART(4)
C03_PART(4, 1300, 100, 8)
#endif
#if VH_IS_PART(5)
C03_PART(5, 600, 3000, 16)
#endif
#if VH_IS_PART(6)
static RegIt r_C03_6("C03", [](u64 idx, Rng& rng) { u64 k = idx / 56; bool lng = k < 8 ? k % 2 == 0 && idx % 8 == k : rng.chance(1, 60); if (lng) MapCase<8, 8, 24>(rng).many(); else MapCase<8, 8, 3>(rng).run(idx); }, nullptr, 6);
#endif
#if VH_IS_PART(7)
C03_PART(7, 2, 600, 8)
#endif
#endif // C03
