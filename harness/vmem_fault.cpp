// C06: a container operation that cannot get a page (full disk, or all mappings locked) fails without damage. C07: misuse is refused.
#include "vmem_seq.h"
#include <sys/resource.h>
using namespace vh;
using Log = vh::VLog;

#ifdef C06
namespace {
	// while it lives, the file cannot grow past `room` more bytes
	struct FullDisk { rlimit old; FullDisk(const std::string& path, u64 room) { getrlimit(RLIMIT_FSIZE, &old); rlimit l = old; l.rlim_cur = file_size(path) + room; setrlimit(RLIMIT_FSIZE, &l); } ~FullDisk() { setrlimit(RLIMIT_FSIZE, &old); } };
	inline void no_signal() { signal(SIGXFSZ, SIG_IGN); }
}
template <std::size_t N> struct FKey { unsigned char b[N]; FKey() { memset(b, 0, N); } explicit FKey(u64 v) { Item<N> i(v); memcpy(b, i.b, N); } u64 num() const { Item<N> i; memcpy(i.b, b, N); return i.id(); } bool operator <(const FKey& o) const { return num() < o.num(); } bool operator <=(const FKey& o) const { return num() <= o.num(); } bool operator ==(const FKey& o) const { return num() == o.num(); } };
enum Fault { None, Disk, Locked, Few };
template <std::size_t KN, std::size_t N, std::size_t Cap>
struct FaultCase {
	using Pool = abc::vmem_pool<Cap, Log>; using Page = abc::vmem_page<Pool, Log>; using T = Item<N>; using List = abc::vmem_list<T, Pool, Log>; using Stack = abc::vmem_stack<T, Pool, Log>; using Map = abc::vmem_map<FKey<KN>, T, Pool, Log>;
	Rng& rng; std::string path = scratch("f.vmem"); std::unique_ptr<Pool> pool; abc::vmem_list_state ls; abc::vmem_stack_state ss; abc::vmem_map_state ms; std::unique_ptr<List> list; std::unique_ptr<Stack> stack; std::unique_ptr<Map> map;
	std::vector<u64> lm, sm; std::map<u64, u64> mm; u64 next_id = 1, sig = KN * 31 + N + Cap; std::vector<u64> spare;
	explicit FaultCase(Rng& r) : rng(r) {}
	void open() { pool.reset(new Pool(path.c_str(), L())); list.reset(new List(&ls, pool.get(), L())); stack.reset(new Stack(&ss, pool.get(), L())); map.reset(new Map(&ms, pool.get(), L())); }
	void check(const char* w) {
		VH_CHECK(list->size() == lm.size(), "c06:list", "after %s: list of %zu items, expected %zu", w, list->size(), lm.size()); std::size_t i = 0;
		for (auto it = list->begin(); it != list->end(); it++, i++) { VH_CHECK(i < lm.size() && it.can_deref(), "c06:list", "after %s: list has more than %zu items", w, lm.size()); VH_CHECK((*it).id() == lm[i] && (*it).whole(), "c06:list", "after %s: item %zu of the list is %llu, expected %llu", w, i, (unsigned long long)(*it).id(), (unsigned long long)lm[i]); }
		VH_CHECK(i == lm.size(), "c06:list", "after %s: list walk visits %zu of %zu", w, i, lm.size());
		for (auto it = list->rend(); it != list->rbegin(); it--) { VH_CHECK(i > 0, "c06:list", "after %s: backward list walk does not end", w); i--; VH_CHECK((*it).id() == lm[i], "c06:list", "after %s: item %zu of the list is wrong backward", w, i); }
		VH_CHECK(i == 0, "c06:list", "after %s: backward list walk misses %zu", w, i);
		VH_CHECK(stack->size() == sm.size(), "c06:stack", "after %s: stack of %zu items, expected %zu", w, stack->size(), sm.size()); if (!sm.empty()) VH_CHECK(stack->back().id() == sm.back(), "c06:stack", "after %s: top is wrong", w);
		VH_CHECK(map->size() == mm.size(), "c06:map", "after %s: map of %zu items, expected %zu", w, map->size(), mm.size()); auto j = mm.begin();
		for (auto it = map->begin(); it != map->end(); it++) { VH_CHECK(j != mm.end() && it.can_deref(), "c06:map", "after %s: map walk visits more than %zu", w, mm.size()); auto p = it.operator->(); VH_CHECK(p->key.num() == j->first && p->value.id() == j->second && p->value.whole(), "c06:map", "after %s: map has %llu instead of %llu", w, (unsigned long long)p->key.num(), (unsigned long long)j->first); ++j; }
		VH_CHECK(j == mm.end(), "c06:map", "after %s: map walk misses items", w);
		for (auto& x : mm) { auto it = map->find(FKey<KN>(x.first)); VH_CHECK(it.can_deref() && it.operator->()->value.id() == x.second, "c06:map-lookup", "after %s: key %llu is not found", w, (unsigned long long)x.first); }
		cnt("checks");
	}
	void run(u64) {
		no_signal(); ::unlink(path.c_str()); open(); for (int i = 0; i < (int)Cap; i++) { Page p(pool.get(), L()); spare.push_back(p.pos()); }
		unsigned nops = 80 + rng.below(200); char w[100]; unsigned faults = 0;
		for (unsigned op = 0; op < nops; op++) {
			Fault f = rng.chance(1, 4) ? (rng.chance(2, 3) ? Disk : Locked) : None; unsigned what = rng.below(100); unsigned kind = rng.below(3); bool ins = what < 70; u64 v = next_id++; std::size_t pos; if (f == Locked && kind < 2 && ins && rng.chance(2, 3)) f = Few; const std::size_t left = f == Few ? 1 + rng.below(5) : 0; const char* fn = f == Few ? " with nearly all pages locked" : f == None ? "" : f == Disk ? " on a full disk" : " with all pages locked";
			bool touched = false;	// failed, so nothing may have changed
			u64 key = rng.below(400); if (!ins && !mm.empty() && rng.chance(3, 4)) { auto it = mm.lower_bound(key); if (it == mm.end()) it = mm.begin(); key = it->first; }
			auto go = [&](auto fn2) { if (f == Disk) { u64 room = rng.chance(1, 2) ? 0 : rng.below(4096); FullDisk d(path, room); fn2(); } else if (f == Locked || f == Few) { std::vector<Page> lock; for (u64 p : spare) { if (lock.size() + left >= Cap) break;  lock.emplace_back(pool.get(), p, L()); if (!lock.back().ptr()) lock.pop_back(); } fn2(); } else fn2(); };
			if (kind == 0 && ins) { pos = rng.below(lm.size() + 1); snprintf(w, sizeof w, "list insert at %zu of %zu%s", pos, lm.size(), fn); auto at = list->begin(); for (std::size_t i = 0; i < pos; i++) at++; std::size_t before = list->size(); bool der = false; go([&] { auto r = list->insert(at, T(v)); der = r.can_deref(); }); touched = der; VH_CHECK(der == (list->size() == before + 1), "c06:list-result", "%s: the position returned is %d but the size went from %zu to %zu", w, der, before, list->size()); if (der) lm.insert(lm.begin() + pos, v); }
			else if (kind == 0) { if (lm.empty()) continue; pos = rng.below(lm.size()); snprintf(w, sizeof w, "list erase at %zu of %zu%s", pos, lm.size(), fn); auto at = list->begin(); for (std::size_t i = 0; i < pos; i++) at++; std::size_t before = list->size(); go([&] { list->erase(at); }); touched = list->size() == before - 1; if (touched) lm.erase(lm.begin() + pos); }
			else if (kind == 1 && ins) { snprintf(w, sizeof w, "push of %zu%s", sm.size(), fn); std::size_t before = stack->size(); go([&] { stack->push_back(T(v)); }); touched = stack->size() == before + 1; if (touched) sm.push_back(v); }
			else if (kind == 1) { if (sm.empty()) continue; snprintf(w, sizeof w, "pop of %zu%s", sm.size(), fn); std::size_t before = stack->size(); go([&] { try { stack->pop_back(); } catch (const std::exception&) { } }); touched = stack->size() == before - 1; if (touched) sm.pop_back(); }
			else if (ins) { snprintf(w, sizeof w, "map insert of %llu%s", (unsigned long long)key, fn); bool ok = false, der = false; typename Map::value_type x; x.key = FKey<KN>(key); x.value = T(v); go([&] { auto r = map->insert(x); ok = r.second; der = r.first.can_deref(); }); touched = ok; if (ok) { VH_CHECK(mm.insert({ key, v }).second, "c06:map", "%s inserted a duplicate", w); VH_CHECK(der || f == Locked, "c06:map", "%s returned no position", w); } }
			else { snprintf(w, sizeof w, "map erase of %llu%s", (unsigned long long)key, fn); std::size_t r = 0; go([&] { r = map->erase(FKey<KN>(key)); }); touched = r == 1; if (r) VH_CHECK(mm.erase(key) == 1, "c06:map", "%s erased an absent key", w); }
			trace("%s -> %d", w, touched); if (f == None) { cnt("operations"); } else { faults++; cnt(touched ? "faulted_done" : "faulted_refused"); if (f == Few) cnt(touched ? "few_done" : "few_refused"); distinct("faults", f * 16 + kind * 4 + ins * 2 + touched); sig = hcomb(sig, f * 16 + kind * 4 + ins * 2 + touched); }
			VH_CHECK(file_size(path) % 4096 == 0, "c06:ragged-file", "after %s the file has %llu bytes", w, (unsigned long long)file_size(path));
			if (f != None || rng.chance(1, 10)) check(w);
			if (rng.chance(1, 40)) { list.reset(); stack.reset(); map.reset(); pool.reset(); open(); check("reopening"); cnt("reopens"); }
		}
		check("the last operation"); eval(); nontrivial(sig); sample(fmt("item=%zu key=%zu capacity=%zu ops=%u faults=%u list=%zu stack=%zu map=%zu", N, KN, Cap, nops, faults, lm.size(), sm.size(), mm.size()));
	}
};
#define C06_PART(k, KN, VN, CAP) static RegIt r_C06_##k("C06", [](u64 idx, Rng& rng) { FaultCase<KN, VN, CAP>(rng).run(idx); }, nullptr, k);
#if VH_IS_PART(0)
C06_PART(0, 900, 900, 12)
#endif
#if VH_IS_PART(1)
C06_PART(1, 8, 700, 8)
#endif
#endif // C06

#ifdef C07
// Throws std::logic_error/std::runtime_error, as documented, and changes nothing.
template <typename F> static bool refuses(F f) { try { f(); } catch (const std::logic_error&) { return true; } catch (const std::runtime_error&) { return true; } return false; }
template <std::size_t N> struct MKey { unsigned char b[N]; MKey() { memset(b, 0, N); } explicit MKey(u64 v) { Item<N> i(v); memcpy(b, i.b, N); } u64 num() const { Item<N> i; memcpy(i.b, b, N); return i.id(); } bool operator <(const MKey& o) const { return num() < o.num(); } bool operator <=(const MKey& o) const { return num() <= o.num(); } bool operator ==(const MKey& o) const { return num() == o.num(); } };
template <std::size_t KN, std::size_t N, std::size_t Cap>
struct MisuseCase {
	using Pool = abc::vmem_pool<Cap, Log>; using Page = abc::vmem_page<Pool, Log>; using T = Item<N>; using List = abc::vmem_list<T, Pool, Log>; using Stack = abc::vmem_stack<T, Pool, Log>; using Map = abc::vmem_map<MKey<KN>, T, Pool, Log>; using Linked = abc::vmem_linked<Pool, Log>; using String = abc::vmem_string<Pool, Log>;
	Rng& rng; std::string path = scratch("u.vmem"); std::unique_ptr<Pool> pool; abc::vmem_list_state ls; abc::vmem_stack_state ss; abc::vmem_map_state ms; abc::vmem_linked_state ks; std::unique_ptr<List> list; std::unique_ptr<Stack> stack; std::unique_ptr<Map> map; std::unique_ptr<Linked> linked;
	std::vector<u64> lm, sm; std::map<u64, u64> mm; std::vector<u64> km; u64 next_id = 1, sig = KN * 31 + N + Cap;
	explicit MisuseCase(Rng& r) : rng(r) {}
	void open() { pool.reset(new Pool(path.c_str(), L())); list.reset(new List(&ls, pool.get(), L())); stack.reset(new Stack(&ss, pool.get(), L())); map.reset(new Map(&ms, pool.get(), L())); linked.reset(new Linked(&ks, pool.get(), L())); }
	void check(const char* w) {
		VH_CHECK(list->size() == lm.size() && list->empty() == lm.empty(), "c07:list", "after %s: list of %zu items, expected %zu", w, list->size(), lm.size()); std::size_t i = 0;
		for (auto it = list->begin(); it != list->end(); it++, i++) { VH_CHECK(i < lm.size() && it.can_deref(), "c07:list", "after %s: list has more than %zu items", w, lm.size()); VH_CHECK((*it).id() == lm[i] && (*it).whole(), "c07:list", "after %s: item %zu of the list is %llu, expected %llu", w, i, (unsigned long long)(*it).id(), (unsigned long long)lm[i]); }
		VH_CHECK(i == lm.size(), "c07:list", "after %s: list walk visits %zu of %zu", w, i, lm.size());
		for (auto it = list->rend(); it != list->rbegin(); it--) { VH_CHECK(i > 0, "c07:list", "after %s: backward list walk does not end", w); i--; VH_CHECK((*it).id() == lm[i], "c07:list", "after %s: item %zu of the list is wrong backward", w, i); }
		VH_CHECK(i == 0, "c07:list", "after %s: backward list walk misses %zu", w, i);
		VH_CHECK(stack->size() == sm.size() && stack->empty() == sm.empty(), "c07:stack", "after %s: stack of %zu items, expected %zu", w, stack->size(), sm.size()); if (!sm.empty()) VH_CHECK(stack->back().id() == sm.back(), "c07:stack", "after %s: top is wrong", w);
		VH_CHECK(map->size() == mm.size() && map->empty() == mm.empty(), "c07:map", "after %s: map of %zu items, expected %zu", w, map->size(), mm.size()); auto j = mm.begin();
		for (auto it = map->begin(); it != map->end(); it++) { VH_CHECK(j != mm.end() && it.can_deref(), "c07:map", "after %s: map walk visits more than %zu", w, mm.size()); auto p = it.operator->(); VH_CHECK(p->key.num() == j->first && p->value.id() == j->second && p->value.whole(), "c07:map", "after %s: map has %llu instead of %llu", w, (unsigned long long)p->key.num(), (unsigned long long)j->first); ++j; }
		VH_CHECK(j == mm.end(), "c07:map", "after %s: map walk misses items", w);
		for (auto& x : mm) { auto it = map->find(MKey<KN>(x.first)); VH_CHECK(it.can_deref() && it.operator->()->value.id() == x.second, "c07:map", "after %s: key %llu is not found", w, (unsigned long long)x.first); }
		VH_CHECK(linked->empty() == km.empty(), "c07:linked", "after %s: page list empty=%d, expected %d", w, linked->empty(), km.empty()); i = 0;
		for (auto it = linked->begin(); it != linked->end(); it++, i++) VH_CHECK(i < km.size() && it.page_pos() == km[i], "c07:linked", "after %s: page list position %zu is wrong", w, i);
		VH_CHECK(i == km.size(), "c07:linked", "after %s: page list walk visits %zu of %zu", w, i, km.size());
		cnt("checks");
	}
	void must_refuse(const char* what, bool refused) { trace("%s -> %s", what, refused ? "refused" : "accepted"); VH_CHECK(refused, "c07:accepted", "%s was not refused", what); cnt("refused"); sig = hstr(what, sig); distinct("misuses", hstr(what)); }
	void misuse() {
		u64 fs = file_size(path); auto abs_list = ls; auto abs_map = ms; (void)abs_list; (void)abs_map; const char* w = ""; bool lookup = false;
		switch (rng.below(17)) {
		case 0: must_refuse(w = "opening a list with a larger item", !ls.item_size || refuses([&] { abc::vmem_list<Item<N + 8>, Pool, Log> x(&ls, pool.get(), L()); })); break;
		case 1: must_refuse(w = "opening a list with a smaller item", refuses([&] { abc::vmem_list<Item<N - 1>, Pool, Log> x(&ls, pool.get(), L()); })); break;
		case 2: must_refuse(w = "opening a stack with another item", refuses([&] { abc::vmem_stack<Item<N + 1>, Pool, Log> x(&ss, pool.get(), L()); })); break;
		case 3: must_refuse(w = "opening a map with another value", refuses([&] { abc::vmem_map<MKey<KN>, Item<N + 8>, Pool, Log> x(&ms, pool.get(), L()); })); break;
		case 4: must_refuse(w = "opening a map with another key", refuses([&] { abc::vmem_map<MKey<KN + 8>, T, Pool, Log> x(&ms, pool.get(), L()); })); break;
		case 5: { abc::vmem_list_state x; must_refuse(w = "a list of items that don't fit a page", refuses([&] { abc::vmem_list<Item<4070>, Pool, Log> y(&x, pool.get(), L()); })); abc::vmem_list_state x2; abc::vmem_list<Item<4069>, Pool, Log> y(&x2, pool.get(), L()); y.push_back(Item<4069>(7)); VH_CHECK(y.size() == 1 && y.front().whole() && y.front().id() == 7, "c07:largest", "an item that fills a page is not kept"); y.clear(); fs = file_size(path); } break;
		case 6: { abc::vmem_map_state x; must_refuse(w = "a map of keys of which a page holds only one", refuses([&] { abc::vmem_map<MKey<2040>, Item<8>, Pool, Log> y(&x, pool.get(), L()); })); abc::vmem_map_state x2; must_refuse(w = "a map of values that don't fit a page", refuses([&] { abc::vmem_map<MKey<8>, Item<4062>, Pool, Log> y(&x2, pool.get(), L()); })); } break;
		case 7: { abc::vmem_list_state x; must_refuse(w = "a list without a pool", refuses([&] { List y(&x, nullptr, L()); })); must_refuse(w = "a list without a state", refuses([&] { List y(nullptr, pool.get(), L()); })); must_refuse(w = "a stack without a state", refuses([&] { Stack y(nullptr, pool.get(), L()); })); } break;
		case 8: { abc::vmem_linked_state x; must_refuse(w = "a page list without a pool", refuses([&] { Linked y(&x, nullptr, L()); })); must_refuse(w = "a page list without a state", refuses([&] { Linked y(nullptr, pool.get(), L()); })); must_refuse(w = "a page without a pool", refuses([&] { Page y((Pool*)nullptr, L()); })); must_refuse(w = "a string stream without a string", refuses([&] { abc::vmem_string_streambuf<Pool, Log> y(nullptr, L()); })); } break;
		case 9: { abc::vmem_map_state x; must_refuse(w = "a map without a pool", refuses([&] { Map y(&x, nullptr, L()); })); must_refuse(w = "a map without a state", refuses([&] { Map y(nullptr, pool.get(), L()); })); } break;
		case 10: must_refuse(w = "erasing the end of a list", refuses([&] { list->erase(list->end()); })); must_refuse(w = "erasing the place before a list", refuses([&] { list->erase(list->rbegin()); })); if (!lm.empty()) must_refuse(w = "inserting in front of the place before a list", refuses([&] { list->insert(list->rbegin(), T(77)); })); break;
		case 11: must_refuse(w = "dereferencing the end of a list", refuses([&] { volatile u64 x = (*list->end()).id(); (void)x; })); must_refuse(w = "dereferencing the place before a list", refuses([&] { volatile u64 x = (*list->rbegin()).id(); (void)x; })); must_refuse(w = "dereferencing the end of a map", refuses([&] { volatile u64 x = (*map->end()).key.num(); (void)x; })); break;
		case 12: { abc::vmem_list_state x; List y(&x, pool.get(), L()); if (rng.chance(1, 2)) { y.push_back(T(1)); y.pop_back(); } must_refuse(w = "the front of an empty list", refuses([&] { volatile u64 v = y.front().id(); (void)v; })); must_refuse(w = "the back of an empty list", refuses([&] { volatile u64 v = y.back().id(); (void)v; })); must_refuse(w = "popping the front of an empty list", refuses([&] { y.pop_front(); })); must_refuse(w = "popping the back of an empty list", refuses([&] { y.pop_back(); })); VH_CHECK(y.size() == 0 && y.begin() == y.end(), "c07:empty", "an empty list has %zu items after refusals", y.size()); y.push_back(T(5)); VH_CHECK(y.size() == 1 && y.back().id() == 5, "c07:empty", "a list does not work after refusals"); y.clear(); fs = file_size(path); } break;
		case 13: { abc::vmem_stack_state x; Stack y(&x, pool.get(), L()); must_refuse(w = "popping an empty stack", refuses([&] { y.pop_back(); })); must_refuse(w = "the top of an empty stack", refuses([&] { volatile u64 v = y.back().id(); (void)v; })); } break;
		case 14: { must_refuse(w = "splicing a page list into itself", refuses([&] { linked->splice(*linked); })); must_refuse(w = "erasing the end of a page list", refuses([&] { linked->erase(linked->end()); })); abc::vmem_linked_state x; Linked y(&x, pool.get(), L()); must_refuse(w = "popping the front of an empty page list", refuses([&] { y.pop_front(); })); must_refuse(w = "popping the back of an empty page list", refuses([&] { y.pop_back(); })); } break;
		case 16: if (ms.keys.total_item_count > 0) must_refuse(w = "opening a map with keys and values of other sizes", refuses([&] { abc::vmem_map<MKey<KN + 8>, Item<N - 8>, Pool, Log> x(&ms, pool.get(), L()); })); break;
		case 15: { lookup = true; u64 absent = 100000 + rng.below(1000); bool f = map->erase(MKey<KN>(absent)) == 0 && !map->find(MKey<KN>(absent)).can_deref() && map->operator[](MKey<KN>(absent)).operator->() == nullptr && !map->contains(MKey<KN>(absent)); must_refuse(w = "erasing or finding an absent key", f); if (!mm.empty()) { auto it = mm.begin(); std::advance(it, rng.below(mm.size())); typename Map::value_type x; x.key = MKey<KN>(it->first); x.value = T(next_id++); auto r = map->insert(x); must_refuse(w = "inserting a present key", !r.second); } } break;
		}
		VH_CHECK(lookup || file_size(path) == fs || !w[0], "c07:file", "%s made the file grow from %llu to %llu", w, (unsigned long long)fs, (unsigned long long)file_size(path)); check(w);
	}
	void run(u64) {
		::unlink(path.c_str()); open(); unsigned nops = 40 + rng.below(120);
		for (unsigned op = 0; op < nops; op++) {
			switch (rng.below(9)) {
			case 0: case 1: { u64 v = next_id++; std::size_t pos = rng.below(lm.size() + 1); auto at = list->begin(); for (std::size_t i = 0; i < pos; i++) at++; list->insert(at, T(v)); lm.insert(lm.begin() + pos, v); } break;
			case 2: if (!lm.empty()) { std::size_t pos = rng.below(lm.size()); auto at = list->begin(); for (std::size_t i = 0; i < pos; i++) at++; list->erase(at); lm.erase(lm.begin() + pos); } break;
			case 3: { u64 v = next_id++; stack->push_back(T(v)); sm.push_back(v); } break;
			case 4: if (!sm.empty()) { stack->pop_back(); sm.pop_back(); } break;
			case 5: case 6: { u64 k = rng.below(300), v = next_id++; typename Map::value_type x; x.key = MKey<KN>(k); x.value = T(v); if (map->insert(x).second) mm[k] = v; } break;
			case 7: if (!mm.empty()) { auto it = mm.begin(); std::advance(it, rng.below(mm.size())); map->erase(MKey<KN>(it->first)); mm.erase(it); } break;
			case 8: if (km.size() < 8 && rng.chance(1, 2)) { Page p(pool.get(), L()); km.push_back(p.pos()); linked->push_back(p.pos()); } else if (!km.empty()) { linked->pop_back(); km.pop_back(); } break;
			}
			if (rng.chance(1, 3)) misuse();
			if (rng.chance(1, 40)) { list.reset(); stack.reset(); map.reset(); linked.reset(); pool.reset(); open(); check("reopening"); cnt("reopens"); }
		}
		check("the last operation"); eval(); nontrivial(sig); sample(fmt("item=%zu key=%zu capacity=%zu ops=%u list=%zu stack=%zu map=%zu", N, KN, Cap, nops, lm.size(), sm.size(), mm.size()));
	}
};
#define C07_PART(k, KN, VN, CAP) static RegIt r_C07_##k("C07", [](u64 idx, Rng& rng) { MisuseCase<KN, VN, CAP>(rng).run(idx); }, nullptr, k);
#if VH_IS_PART(0)
C07_PART(0, 900, 900, 12)
#endif
#if VH_IS_PART(1)
C07_PART(1, 16, 64, 4)
#endif
#endif // C07
