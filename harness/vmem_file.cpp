// P04 file validation, P05 restart and kill durability.
#include "vmem_seq.h"
#include <cstddef>
using namespace vh;
using Log = vh::VLog;

#ifdef P04
static std::string make_pool(Rng& rng, const std::string& path) {
	using Pool = abc::vmem_pool<8, Log>; using Page = abc::vmem_page<Pool, Log>;
	::unlink(path.c_str());
	{
		Pool pool(path.c_str(), L()); std::vector<u64> pos; unsigned n = rng.below(12);
		for (unsigned i = 0; i < n; i++) { Page p(&pool, L()); Rng r(rng.next()); for (int k = 0; k < 4096; k++) static_cast<char*>(p.ptr())[k] = static_cast<char>(r.next()); pos.push_back(p.pos()); }
		for (u64 p : pos) if (rng.chance(1, 3)) { Page pg(&pool, p, L()); pg.free(); }
	}
	return slurp(path);
}
// Opens the file; the outcome must be the expected one, and a refusal must leave no trace.
static void try_open(const std::string& path, const std::string& before, bool accept, const char* what) {
	using Pool = abc::vmem_pool<8, Log>; using Page = abc::vmem_page<Pool, Log>;
	spit(path, before); std::size_t fds = count_fds(); bool thrown = false; std::string why;
	try {
		Pool pool(path.c_str(), L());
		if (accept) {
			VH_CHECK(mapped_pages_of(path) <= 8, "p04:mappings", "%s: too many pages mapped", what);
			Page p(&pool, abc::vmem_page_pos_start, L()); VH_CHECK(p.ptr() != nullptr, "p04:not-usable", "%s: an accepted file has no usable start page", what);
			if (before.size() >= 8192) VH_CHECK(memcmp(p.ptr(), before.data() + 4096, 4096) == 0, "p04:start-page", "%s: opening changed the start page", what);
		}
	}
	catch (const std::runtime_error& e) { thrown = true; why = e.what(); }
	VH_CHECK(thrown || accept, "p04:accepted", "%s: a file that is not a pool was accepted", what);
	VH_CHECK(!thrown || !accept, "p04:refused", "%s: refused with '%s'", what, why.c_str());
	VH_CHECK(count_fds() == fds, "p04:fd-leak", "%s: %zu descriptors before, %zu after", what, fds, count_fds());
	VH_CHECK(mapped_pages_of(path) == 0, "p04:mapping-leak", "%s: pages of the file stay mapped", what);
	if (!accept || before.size()) { std::string after = slurp(path); VH_CHECK(after == before, "p04:altered", "%s: the file was altered (%zu bytes before, %zu after)", what, before.size(), after.size()); }
	else VH_CHECK(file_size(path) % 4096 == 0 && file_size(path) >= 8192, "p04:fresh", "%s: a fresh pool has %llu bytes", what, (unsigned long long)file_size(path));
	cnt(accept ? "accepted" : "refused"); cnt("opens");
}
static RegIt r_P04("P04", [](u64 idx, Rng& rng) {
	StdinClosed z(rng.chance(1, 6)); using R = abc::vmem_root_page; std::string path = scratch("p04.vmem"); std::string good = make_pool(rng, path); char w[120];
	VH_CHECK(good.size() >= 8192 && good.size() % 4096 == 0, "p04:size", "a pool file has %zu bytes", good.size());
	try_open(path, good, true, "a valid pool");
	for (unsigned i = 0; i < 12; i++) {
		std::string f = good; unsigned kind = (idx / 8 + i) % 12; bool accept = false;
		switch (kind) {
		case 0: { std::size_t n = rng.below(f.size()); if (n % 4096 == 0) n++; f.resize(n); snprintf(w, sizeof w, "a pool truncated to %zu of %zu bytes", n, good.size()); break; }
		case 1: f.resize(4096); snprintf(w, sizeof w, "a pool truncated to its root page"); break;
		case 2: { std::size_t n = 1 + rng.below(4095); f.append(n, static_cast<char>(rng.next())); snprintf(w, sizeof w, "a pool with %zu extra bytes", n); break; }
		case 3: { std::size_t b = rng.below(sizeof(R().version)); f[offsetof(R, version) + b] ^= static_cast<char>(1 << rng.below(8)); snprintf(w, sizeof w, "a pool with another version"); break; }
		case 4: { std::size_t b = rng.below(9); char c; do c = static_cast<char>(rng.next()); while (c == f[offsetof(R, signature) + b]); f[offsetof(R, signature) + b] = c; snprintf(w, sizeof w, "a pool with byte %zu of the signature changed", b); break; }
		case 5: { f[offsetof(R, signature) + 9] = static_cast<char>(1 + rng.below(255)); snprintf(w, sizeof w, "a pool with a longer signature"); break; }
		case 6: { std::size_t b = rng.below(sizeof(R().page_size)); f[offsetof(R, page_size) + b] ^= static_cast<char>(1 << rng.below(8)); snprintf(w, sizeof w, "a pool with another page size"); break; }
		case 7: { f.assign(4096 * (2 + rng.below(4)), 0); snprintf(w, sizeof w, "%zu zero bytes", f.size()); break; }
		case 8: { f.assign(4096 * (2 + rng.below(4)), 0); for (auto& c : f) c = static_cast<char>(rng.next()); snprintf(w, sizeof w, "%zu random bytes", f.size()); break; }
		case 9: { f.assign(1 + rng.below(10000), 'x'); if (f.size() % 4096 == 0) f += 'x'; snprintf(w, sizeof w, "a text file of %zu bytes", f.size()); break; }
		case 10: { f.clear(); accept = true; snprintf(w, sizeof w, "an empty file"); break; }
		default: { memset(&f[0], 0, sizeof(R)); snprintf(w, sizeof w, "a pool with its root cleared"); break; }
		}
		trace("%s", w); distinct("kinds", kind); try_open(path, f, accept, w); nontrivial(hcomb(kind, hstr(f)));
	}
	{	// missing file
		::unlink(path.c_str()); std::size_t fds = count_fds(); { abc::vmem_pool<8, Log> pool(path.c_str(), L()); } VH_CHECK(file_size(path) != ~0ull && file_size(path) >= 8192, "p04:fresh", "a missing file did not become a pool"); VH_CHECK(count_fds() == fds, "p04:fd-leak", "a fresh pool leaks descriptors"); std::string fresh = slurp(path); try_open(path, fresh, true, "a fresh pool");
	}
	{	// things that are not files; paths that cannot exist
		std::size_t fds = count_fds(); std::string bad[] = { ctx().scratch, scratch("no/such/dir/x.vmem"), scratch(std::string(300, 'n')) };
		for (auto& b : bad) { bool thrown = false; try { abc::vmem_pool<8, Log> pool(b.c_str(), L()); } catch (const std::runtime_error&) { thrown = true; } VH_CHECK(thrown, "p04:accepted", "%s was accepted as a pool", b.c_str()); cnt("refused"); }
		bool thrown = false; try { abc::vmem_pool<8, Log> pool(static_cast<const char*>(nullptr)); } catch (const std::logic_error&) { thrown = true; } VH_CHECK(thrown, "p04:accepted", "no path was accepted");
		VH_CHECK(count_fds() == fds, "p04:fd-leak", "refusing a path leaks descriptors");
	}
	eval(); sample(fmt("last offered: %s", w));
});
#endif // P04

#ifdef P05
// The states of four containers live in the start page. Rounds of operations run in child processes that end in a kill, an _exit or a close between two operations; the next process must find exactly what the model says.
template <std::size_t N, std::size_t Cap>
struct Durable {
	using Pool = abc::vmem_pool<Cap, Log>; using Page = abc::vmem_page<Pool, Log>; using T = Item<N>; using List = abc::vmem_list<T, Pool, Log>; using Stack = abc::vmem_stack<T, Pool, Log>; using Map = abc::vmem_map<u32, T, Pool, Log>; using Str = abc::vmem_string<Pool, Log>;
	struct Root { abc::vmem_list_state list; abc::vmem_stack_state stack; abc::vmem_map_state map; abc::vmem_string_state str; };
	struct Model { std::vector<u64> list, stack; std::map<u32, u64> map; std::string str; u64 next = 1; };
	struct Live {
		Pool pool; Page start; Root* root; List list; Stack stack; Map map; Str str;
		explicit Live(const char* path) : pool(path, L()), start(&pool, abc::vmem_page_pos_start, L()), root(static_cast<Root*>(start.ptr())), list(&root->list, &pool, L()), stack(&root->stack, &pool, L()), map(&root->map, &pool, L()), str(&root->str, &pool, L()) {}
	};
	static typename List::iterator nth(List& l, std::size_t i, std::size_t n) { if (i == n) return l.end(); auto itr = l.begin(); while (i--) itr++; return itr; }
	static void op(Rng& r, Model& m, Live* v) {	// one operation on the model, and on the containers if there are any
		unsigned k = r.below(100), which = r.below(4); bool grow = r.below(100) < 62;
		if (which == 0) {
			std::size_t n = m.list.size(), i = r.below(n + 1);
			if (k < 2) { if (v) v->list.clear(); m.list.clear(); }
			else if (grow && n < 120) { u64 id = m.next++; if (v) v->list.insert(nth(v->list, i, n), T(id)); m.list.insert(m.list.begin() + i, id); }
			else if (n) { if (i == n) i--; if (v) v->list.erase(nth(v->list, i, n)); m.list.erase(m.list.begin() + i); }
		} else if (which == 1) {
			if (k < 1) { if (v) v->stack.clear(); m.stack.clear(); }
			else if (grow || m.stack.empty()) { u64 id = m.next++; if (v) v->stack.push_back(T(id)); m.stack.push_back(id); } else { if (v) v->stack.pop_back(); m.stack.pop_back(); }
		} else if (which == 2) {
			u32 key = static_cast<u32>(r.below(400));
			if (k < 1) { if (v) v->map.clear(); m.map.clear(); }
			else if (grow) { u64 id = m.next++; if (v) { typename Map::value_type x; x.key = key; x.value = T(id); v->map.insert(x); } m.map.insert({ key, id }); }
			else { auto it = m.map.lower_bound(key); if (it != m.map.end()) key = it->first; if (v) v->map.erase(key); m.map.erase(key); }
		} else {
			if (k < 2) { if (v) v->str.clear(); m.str.clear(); }
			else if (grow || m.str.empty()) { std::size_t c = r.below(k < 20 ? 900 : 20); for (std::size_t i = 0; i < c; i++) { char ch = static_cast<char>(r.next()); if (v) v->str.push_back(ch); m.str.push_back(ch); } } else { std::size_t c = r.below(m.str.size()) % 200; for (std::size_t i = 0; i < c; i++) { if (v) v->str.pop_back(); m.str.pop_back(); } }
		}
	}
	static void check(Live& v, const Model& m, const char* what) {
		VH_CHECK(v.list.size() == m.list.size() && v.stack.size() == m.stack.size() && v.map.size() == m.map.size() && v.str.size() == m.str.size(), "p05:size", "%s: sizes %zu/%zu/%zu/%zu, expected %zu/%zu/%zu/%zu", what, v.list.size(), v.stack.size(), v.map.size(), v.str.size(), m.list.size(), m.stack.size(), m.map.size(), m.str.size());
		std::size_t i = 0; for (auto it = v.list.begin(); it != v.list.end(); it++, i++) { VH_CHECK(i < m.list.size(), "p05:list", "%s: list has extra items", what); auto p = it.operator->(); const T* t = p; VH_CHECK(t->whole() && t->id() == m.list[i], "p05:list", "%s: list item %zu is wrong", what, i); } VH_CHECK(i == m.list.size(), "p05:list", "%s: list misses items", what);
		i = m.stack.size(); for (auto it = v.stack.rend(); it != v.stack.rbegin(); it--) { VH_CHECK(i > 0, "p05:stack", "%s: stack has extra items", what); i--; auto p = it.operator->(); const T* t = p; VH_CHECK(t->whole() && t->id() == m.stack[i], "p05:stack", "%s: stack item %zu is wrong", what, i); } VH_CHECK(i == 0, "p05:stack", "%s: stack misses items", what);
		auto mi = m.map.begin(); for (auto it = v.map.begin(); it != v.map.end(); it++, ++mi) { VH_CHECK(mi != m.map.end(), "p05:map", "%s: map has extra items", what); auto p = it.operator->(); const auto* t = static_cast<const typename Map::value_type*>(p); VH_CHECK(t->key == mi->first && t->value.whole() && t->value.id() == mi->second, "p05:map", "%s: map item of key %u is wrong", what, mi->first); } VH_CHECK(mi == m.map.end(), "p05:map", "%s: map misses items", what);
		for (auto& x : m.map) { auto it = v.map.find(x.first); VH_CHECK(it.can_deref(), "p05:map", "%s: key %u is not found", what, x.first); }
		i = 0; for (auto it = v.str.begin(); it != v.str.end(); it++, i++) { VH_CHECK(i < m.str.size(), "p05:string", "%s: string has extra chars", what); VH_CHECK(*it == m.str[i], "p05:string", "%s: char %zu is wrong", what, i); } VH_CHECK(i == m.str.size(), "p05:string", "%s: string misses chars", what);
	}
	static void run(Rng& rng) {
		std::string path = scratch("d.vmem"); ::unlink(path.c_str()); Model m; unsigned rounds = 3 + rng.below(6); u64 sig = N; unsigned kills = 0;
		for (unsigned round = 0; round < rounds; round++) {
			u64 seed = rng.next(); unsigned nops = rng.chance(1, 6) ? 0 : rng.below(rng.chance(1, 3) ? 150 : 25); unsigned ending = rng.below(5); char w[80]; static const char* names[] = { "SIGKILL", "SIGKILL", "_exit", "close", "close and reopen in the same process" }; snprintf(w, sizeof w, "round %u, %u ops, ends by %s", round, nops, names[ending]); trace("%s", w);
			if (ending == 4) { { Live v(path.c_str()); check(v, m, w); Rng r(seed); for (unsigned i = 0; i < nops; i++) op(r, m, &v); check(v, m, w); } cnt("closes"); }
			else {
				fflush(nullptr); pid_t pid = fork(); if (pid < 0) harness_error("fork");
				if (pid == 0) {
					int rc = 0;
					try {
						Live* v = new Live(path.c_str()); check(*v, m, w); Rng r(seed); for (unsigned i = 0; i < nops; i++) op(r, m, v);
						if (ending < 2) { ::kill(::getpid(), SIGKILL); for (;;) ::pause(); }
						if (ending == 3) delete v;
					} catch (const CaseAbort&) { rc = 7; } catch (const std::exception& e) { record_violation("p05:threw", std::string(w) + ": " + e.what()); rc = 7; }
					_exit(rc);
				}
				int st = 0; while (waitpid(pid, &st, 0) < 0) { }
				if (WIFEXITED(st) && WEXITSTATUS(st) == 7) throw CaseAbort();
				if (ending < 2) { VH_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL, "p05:died", "%s: the process ended early (status 0x%x)", w, st); kills++; cnt("kills"); } else { VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "p05:died", "%s: the process ended early (status 0x%x)", w, st); cnt(ending == 3 ? "closes" : "exits"); }
				Rng r(seed); for (unsigned i = 0; i < nops; i++) op(r, m, nullptr);
			}
			cnt("ops", nops); sig = hcomb(sig, ending * 1000 + nops);
		}
		{ Live v(path.c_str()); check(v, m, "final reopen"); }
		eval(); cnt("items_read_back", m.list.size() + m.stack.size() + m.map.size() + m.str.size()); if (kills) nontrivial(sig); sample(fmt("item=%zu rounds=%u kills=%u final sizes %zu/%zu/%zu/%zu", N, rounds, kills, m.list.size(), m.stack.size(), m.map.size(), m.str.size()));
	}
};
#if VH_IS_PART(0)
static RegIt r_P05_0("P05", [](u64, Rng& rng) { Durable<500, 12>::run(rng); }, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_P05_1("P05", [](u64, Rng& rng) { Durable<1300, 16>::run(rng); }, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_P05_2("P05", [](u64, Rng& rng) { Durable<60, 4>::run(rng); }, nullptr, 2);
#endif
#endif // P05
