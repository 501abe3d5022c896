// P01 page content, P02 page allocation, P03 mapping budget: model-based monitors over the public pool/page API.
#include "vh.h"
#include "vlog.h"
#include <memory>
#include <optional>
#include <cerrno>
#include <chrono>
#include <climits>
#include <cstdarg>
#include <iostream>
#include <mutex>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <thread>
#include <type_traits>
#include <utility>
#include <fcntl.h>
#include <sys/mman.h>
#ifdef P03
#define private public	// see aged()
#endif
#include "vmem.h"
#undef private

using namespace vh;
using Log = vh::VLog;

static void fill(void* p, u64 seed) { Rng r(seed); u64* q = static_cast<u64*>(p); for (int i = 0; i < 512; i++) { u64 v = r.next(); memcpy(q + i, &v, 8); } }

struct Model {
	std::map<u64, std::string> content;	// page -> 4096 bytes
};

static std::string random_page(Rng& rng) { std::string s(4096, 0); fill(&s[0], rng.next()); return s; }

#ifdef P01
// ------------------------------------------------------------------------------------------------ P01
template <std::size_t Cap>
static void p01(Rng& rng) {
	using Pool = abc::vmem_pool<Cap, Log>; using Page = abc::vmem_page<Pool, Log>; using Ptr = abc::vmem_ptr<u32, Pool, Log>;
	std::string path = scratch("p01.vmem"); ::unlink(path.c_str());
	std::unique_ptr<Pool> pool(new Pool(path.c_str(), L()));
	std::map<u64, std::string> model;
	std::vector<std::unique_ptr<Page>> live;	// locked pages
	std::vector<std::unique_ptr<Ptr>> ptrs;	// pointers to data on pages, which keep the pages locked
	auto drop = [&] { live.clear(); ptrs.clear(); };
	const std::size_t max_live = Cap > 3 ? Cap - 3 : 0;	// leave room for the pool's own work
	u64 sig = Cap; unsigned reopened = 0, verified = 0, evictions_possible = 0;
	auto verify = [&](Page& pg) {
		VH_CHECK(pg.ptr() != nullptr, "p01:lock-failed", "page %llu could not be locked with %zu of %zu mappings locked", (unsigned long long)pg.pos(), live.size(), Cap);
		auto it = model.find(pg.pos());
		VH_CHECK(it != model.end(), "p01:unknown-page", "page %llu not in the model", (unsigned long long)pg.pos());
		if (memcmp(pg.ptr(), it->second.data(), 4096) != 0) {
			int off = 0; const char* q = static_cast<const char*>(pg.ptr()); while (q[off] == it->second[off]) off++;
			fail("p01:content", "page %llu differs from what was last written, first at byte %d (cap %zu, %zu pages)", (unsigned long long)pg.pos(), off, Cap, model.size());
		}
		verified++;
	};
	auto distinct_live = [&]() { std::set<u64> s; for (auto& l : live) s.insert(l->pos()); for (auto& q : ptrs) s.insert(q->page_pos()); return s.size(); };
	auto verify_ptr = [&](Ptr& q) {
		auto it = model.find(q.page_pos()); VH_CHECK(it != model.end(), "p01:unknown-page", "a pointer refers to page %llu, which is not in the model", (unsigned long long)q.page_pos()); VH_CHECK(q.pool() == pool.get(), "p01:pointer-pool", "a pointer refers to another pool");
		const Ptr& c = q; u32 want; memcpy(&want, &it->second[q.byte_pos()], sizeof want); VH_CHECK(static_cast<u32*>(q) != nullptr, "p01:pointer-lost", "a pointer to page %llu is null", (unsigned long long)q.page_pos());
		VH_CHECK(*q == want && *c == want && *q.operator->() == want && *c.operator->() == want && *static_cast<const u32*>(c) == want, "p01:pointer", "a pointer to byte %u of page %llu does not see what was written there", (unsigned)q.byte_pos(), (unsigned long long)q.page_pos()); cnt("pointers_verified");
	};
	bool grown = false;
	auto file_check = [&]() {
		int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC); if (fd < 0) harness_error("open pool file"); std::string b(4096, 0); bool ok = true; u64 bad = 0;
		for (auto& m : model) { ssize_t n = ::pread(fd, &b[0], 4096, static_cast<off_t>(m.first * 4096)); if (n != 4096 || b != m.second) { ok = false; bad = m.first; break; } }
		::close(fd);
		VH_CHECK(ok, "p01:file-content", "page %llu in the closed file is missing or differs", (unsigned long long)bad);
	};
	{	// start page
		Page pg(pool.get(), abc::vmem_page_pos_start, L()); VH_CHECK(pg.ptr(), "p01:lock-failed", "start page"); model[1] = random_page(rng); memcpy(pg.ptr(), model[1].data(), 4096);
	}
	unsigned nops = 40 + rng.below(200);
	for (unsigned op = 0; op < nops; op++) {
		unsigned what = rng.below(100);
		sig = hcomb(sig, what / 10);
		if (what < 20 || model.size() < 3) {	// allocate and write
			if (model.size() > 60) continue;
			std::unique_ptr<Page> pg(new Page(pool.get(), L()));
			VH_CHECK(pg->ptr() != nullptr, "p01:alloc-failed", "allocation failed with %zu of %zu mappings locked", distinct_live(), Cap);
			VH_CHECK(model.find(pg->pos()) == model.end(), "p01:alloc-live-page", "allocated page %llu is already in use", (unsigned long long)pg->pos());
			trace("alloc %llu", (unsigned long long)pg->pos());
			model[pg->pos()] = random_page(rng); memcpy(pg->ptr(), model[pg->pos()].data(), 4096); cnt("writes");
			if (distinct_live() < max_live && rng.chance(1, 2)) live.push_back(std::move(pg));
		}
		else if (what < 60) {	// lock, verify, maybe write part of it, maybe keep locked
			auto it = model.begin(); std::advance(it, rng.below(rng.chance(1, 2) ? std::min<std::size_t>(model.size(), Cap) : model.size()));
			if (distinct_live() >= max_live + (Cap > 3 ? 1 : 2)) drop();
			std::unique_ptr<Page> pg(new Page(pool.get(), it->first, L())); trace("lock %llu", (unsigned long long)it->first);
			verify(*pg); cnt("locks"); if (model.size() > Cap) evictions_possible++;
			if (rng.chance(1, 2)) {
				std::size_t a = rng.below(4096), n = 1 + rng.below(4096 - a); std::string w = random_page(rng);
				memcpy(static_cast<char*>(pg->ptr()) + a, w.data(), n); memcpy(&it->second[a], w.data(), n); cnt("writes");
			}
			if (distinct_live() < max_live && rng.chance(1, 2)) live.push_back(std::move(pg));
		}
		else if (what < 66) {	// pointers: made, copied, moved, assigned, written through
			if (distinct_live() >= max_live + (Cap > 3 ? 1 : 2)) drop();
			auto it = model.begin(); std::advance(it, rng.below(model.size())); u64 off = 4 * rng.below(1024); std::unique_ptr<Ptr> q(new Ptr(pool.get(), it->first, static_cast<abc::vmem_item_pos_t>(off), L())); trace("pointer to %llu", (unsigned long long)it->first); verify_ptr(*q);
			if (rng.chance(1, 2)) { u32 v = static_cast<u32>(rng.next()); **q = v; memcpy(&it->second[off], &v, sizeof v); }
			switch (rng.below(5)) { case 0: { Ptr c(*q); verify_ptr(c); VH_CHECK(static_cast<u32*>(c) == static_cast<u32*>(*q), "p01:copy-address", "copies of a pointer disagree"); break; } case 1: { Ptr c(std::move(*q)); verify_ptr(c); *q = std::move(c); break; } case 2: { Ptr c(nullptr); VH_CHECK(static_cast<u32*>(c) == nullptr, "p01:null-pointer", "a null pointer is not null"); bool t = false; try { cnt("never", *c == 1); } catch (const std::runtime_error&) { t = true; } VH_CHECK(t, "p01:null-pointer", "dereferencing a null pointer was not refused"); c = *q; verify_ptr(c); break; } case 3: if (!ptrs.empty()) { *ptrs[rng.below(ptrs.size())] = *q; } break; default: break; }
			verify_ptr(*q); if (distinct_live() < max_live && rng.chance(2, 3)) { ptrs.push_back(std::move(q)); if (ptrs.size() > 10) ptrs.erase(ptrs.begin()); }
		}
		else if (what < 72 && !live.empty()) {	// copy / move / assign of page objects
			Page& src = *live[rng.below(live.size())]; u64 pos = src.pos();
			switch (rng.below(4)) {
			case 0: { Page c(src); verify(c); verify(src); VH_CHECK(c.ptr() == src.ptr(), "p01:copy-address", "copies of a locked page disagree on its address"); break; }
			case 1: { Page m(std::move(src)); VH_CHECK(m.pos() == pos, "p01:move-pos", "moved page changed its position"); verify(m); src = std::move(m); verify(src); break; }
			case 2: { Page c(nullptr); c = src; verify(c); if (live.size() > 1) { Page& o = *live[rng.below(live.size())]; c = o; verify(c); } break; }
			default: { std::unique_ptr<Page> c(new Page(src)); live.push_back(std::move(c)); if (live.size() > 12) live.erase(live.begin()); break; }
			}
			cnt("page_copies");
		}
		else if (what < 85 && !live.empty()) { std::size_t i = rng.below(live.size()); verify(*live[i]); live.erase(live.begin() + i); }
		else if (what < 90) {	// free one
			auto it = model.begin(); std::advance(it, rng.below(model.size())); u64 pos = it->first; if (pos == 1) continue;
			live.erase(std::remove_if(live.begin(), live.end(), [&](std::unique_ptr<Page>& p) { return p->pos() == pos; }), live.end());
			ptrs.erase(std::remove_if(ptrs.begin(), ptrs.end(), [&](std::unique_ptr<Ptr>& q) { return q->page_pos() == pos; }), ptrs.end());
			if (distinct_live() > max_live) drop();
			{ Page pg(pool.get(), pos, L()); verify(pg); pg.free(); } trace("free %llu", (unsigned long long)pos);
			model.erase(pos); cnt("frees");
		}
		else if (what < 94) { drop(); std::unique_ptr<Pool> np(new Pool(std::move(*pool))); pool = std::move(np); cnt("pool_moves"); }
		else if (what < 98) {
			drop(); pool.reset(); file_check();
			if (!grown && rng.chance(1, 12)) {	// a sparse hole puts the next pages beyond 2, 4, 8 or 16 GB
				u64 to = (1ull << (31 + rng.below(4))) + 4096 * rng.below(8); grown = true;
				if (::truncate(path.c_str(), static_cast<off_t>(to)) == 0) cnt("grown_files"); else cnt("grown_files_refused");
			}
			pool.reset(new Pool(path.c_str(), L())); reopened++; cnt("reopens");
		}
		for (auto& q : ptrs) verify_ptr(*q);
		for (auto& l : live) { auto it = model.find(l->pos()); if (it == model.end()) continue; VH_CHECK(l->ptr() != nullptr, "p01:lock-lost", "a locked page lost its memory"); if (rng.chance(1, 4)) verify(*l); }
	}
	drop();
	for (auto& m : model) { Page pg(pool.get(), m.first, L()); verify(pg); }
	pool.reset(); file_check(); ::unlink(path.c_str());
	eval(); cnt("pages_verified", verified); cnt("evictions_possible", evictions_possible);
	if (model.size() > Cap) nontrivial(sig);
	sample(fmt("cap=%zu ops=%u pages=%zu verified=%u reopened=%u", Cap, nops, model.size(), verified, reopened));
}
#if VH_IS_PART(0)
static RegIt r_P01_0("P01", [](u64 idx, Rng& rng) { (void)idx; p01<3>(rng); }, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_P01_1("P01", [](u64 idx, Rng& rng) { (void)idx; p01<4>(rng); }, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_P01_2("P01", [](u64 idx, Rng& rng) { (void)idx; p01<5>(rng); }, nullptr, 2);
#endif
#if VH_IS_PART(3)
static RegIt r_P01_3("P01", [](u64 idx, Rng& rng) { (void)idx; p01<6>(rng); }, nullptr, 3);
#endif
#if VH_IS_PART(4)
static RegIt r_P01_4("P01", [](u64 idx, Rng& rng) { (void)idx; p01<9>(rng); }, nullptr, 4);
#endif
#if VH_IS_PART(5)
static RegIt r_P01_5("P01", [](u64 idx, Rng& rng) { (void)idx; p01<16>(rng); }, nullptr, 5);
#endif

#endif // P01
#ifdef P02
// ------------------------------------------------------------------------------------------------ P02
template <std::size_t Cap>
static void p02(Rng& rng) {
	using Pool = abc::vmem_pool<Cap, Log>; using Page = abc::vmem_page<Pool, Log>; using Linked = abc::vmem_linked<Pool, Log>;
	std::string path = scratch("p02.vmem"); ::unlink(path.c_str());
	std::unique_ptr<Pool> pool(new Pool(path.c_str(), L()));
	std::map<u64, u64> owned; 	// page -> tag written into it
	std::vector<u64> freed;		// stack of freed pages
	bool exact_order = true;	// the free order is known exactly
	std::set<u64> freeset;
	std::vector<std::unique_ptr<Page>> live;
	u64 sig = Cap; unsigned scarce = 0;
	auto nlocked = [&]() { std::set<u64> s; for (auto& l : live) if (l->ptr()) s.insert(l->pos()); return s.size(); };
	auto check_new = [&](u64 pos, const char* how) {
		VH_CHECK(pos != 0 && pos != 1, "p02:reserved-page", "%s returned reserved page %llu", how, (unsigned long long)pos);
		VH_CHECK(owned.find(pos) == owned.end(), "p02:double-allocation", "%s returned page %llu which is still allocated", how, (unsigned long long)pos);
	};
	auto do_alloc = [&](bool keep) {
		u64 before = file_size(path); bool ample = nlocked() + 3 <= Cap;
		std::unique_ptr<Page> pg(new Page(pool.get(), L()));
		u64 pos = pg->pos(); u64 after = file_size(path); trace("alloc -> %lld ptr=%d locked=%zu", (long long)pos, pg->ptr() != nullptr, nlocked());
		if (ample) VH_CHECK(pg->ptr() != nullptr, "p02:alloc-failed", "allocation failed with %zu of %zu mappings locked", nlocked(), Cap);
		if (!ample) scarce++;
		if (pos == abc::vmem_page_pos_nil) return;
		check_new(pos, "allocation");
		if (ample) {
			if (!freeset.empty()) {
				VH_CHECK(after == before, "p02:grow-with-free", "file grew from %llu to %llu although %zu pages were free", (unsigned long long)before, (unsigned long long)after, freeset.size());
				VH_CHECK(freeset.count(pos), "p02:not-a-free-page", "allocated page %llu is not one of the free ones", (unsigned long long)pos);
				if (exact_order) VH_CHECK(pos == freed.back(), "p02:not-lifo", "allocated %llu, the last freed page is %llu", (unsigned long long)pos, (unsigned long long)freed.back());
				cnt("reused");
			} else {
				VH_CHECK(after == before + 4096 && pos == before / 4096, "p02:growth", "allocation without free pages: page %llu, file %llu -> %llu", (unsigned long long)pos, (unsigned long long)before, (unsigned long long)after);
			}
		}
		if (freeset.erase(pos)) { for (std::size_t i = freed.size(); i-- > 0;) if (freed[i] == pos) { freed.erase(freed.begin() + i); break; } }
		owned[pos] = rng.next(); if (pg->ptr()) memcpy(static_cast<char*>(pg->ptr()) + 64, &owned[pos], 8); else owned[pos] = 0;
		cnt("allocs"); if (freeset.empty() && exact_order == false) exact_order = true;
		if (keep && nlocked() < Cap - (rng.chance(1, 3) ? 0 : 2)) live.push_back(std::move(pg));
	};
	auto do_free = [&](bool scarce_ok) {
		if (owned.empty()) return;
		auto it = owned.begin(); std::advance(it, rng.below(owned.size())); u64 pos = it->first;
		live.erase(std::remove_if(live.begin(), live.end(), [&](std::unique_ptr<Page>& p) { return p->pos() == pos; }), live.end());
		if (nlocked() + 3 > Cap && !scarce_ok) live.clear();
		if (nlocked() + 3 > Cap) return;	// freeing needs room to record the free page; not the subject here
		{ Page pg(pool.get(), pos, L()); VH_CHECK(pg.ptr(), "p02:lock-failed", "page %llu", (unsigned long long)pos); u64 v; memcpy(&v, static_cast<char*>(pg.ptr()) + 64, 8); if (it->second) VH_CHECK(v == it->second, "p02:owned-overwritten", "an allocated page changed: page %llu", (unsigned long long)pos); pg.free(); }
		trace("free %llu", (unsigned long long)pos);
		owned.erase(it); freed.push_back(pos); freeset.insert(pos); cnt("frees");
	};
	unsigned nops = 60 + rng.below(240); unsigned bias = 30 + rng.below(40);
	for (unsigned op = 0; op < nops; op++) {
		unsigned what = rng.below(100); sig = hcomb(sig, what < 80 ? (what < bias) : what);
		if (what < 80) { if (rng.below(100) < bias && owned.size() < 80) do_alloc(rng.chance(1, 2)); else do_free(rng.chance(1, 2)); }
		else if (what < 86) live.clear();
		else if (what < 90) { live.clear(); pool.reset(); pool.reset(new Pool(path.c_str(), L())); cnt("reopens"); }
		else if (what < 92) { live.clear(); std::unique_ptr<Pool> np(new Pool(std::move(*pool))); pool = std::move(np); }
		else if (what < 97) {	// a page list takes owned pages and gives all of them back at once
			live.clear(); if (owned.size() < 2) continue;
			abc::vmem_linked_state st; Linked l(&st, pool.get(), L()); std::vector<u64> in; unsigned k = 1 + rng.below(std::min<std::size_t>(owned.size(), 6));
			for (unsigned i = 0; i < k; i++) { auto it = owned.begin(); std::advance(it, rng.below(owned.size())); in.push_back(it->first); owned.erase(it); }
			for (u64 p : in) l.push_back(p);
			bool was_empty = freeset.empty(); (void)was_empty;
			if (rng.chance(1, 2)) {
				l.clear(); for (u64 p : in) { freed.push_back(p); freeset.insert(p); } exact_order = false; cnt("list_clears");
				VH_CHECK(l.empty(), "p02:clear-not-empty", "a cleared page list still holds pages");
			} else {
				std::vector<u64> rest = in;
				while (!rest.empty()) {
					if (rng.chance(1, 2)) { l.pop_back(); freed.push_back(rest.back()); freeset.insert(rest.back()); rest.pop_back(); }
					else { l.pop_front(); freed.push_back(rest.front()); freeset.insert(rest.front()); rest.erase(rest.begin()); }
				}
				cnt("list_pops"); VH_CHECK(l.empty(), "p02:clear-not-empty", "an emptied page list still holds pages");
			}
		}
		else {	// scarce: lock all but r mappings, then try to allocate
			live.clear(); if (owned.size() < Cap) continue;
			unsigned left = rng.below(3); auto it = owned.begin();
			for (std::size_t i = 0; i + left < Cap; i++, ++it) live.emplace_back(new Page(pool.get(), it->first, L()));
			for (unsigned i = 0; i < 1 + rng.below(3); i++) do_alloc(false);
			live.clear(); cnt("scarce_rounds");
		}
		// a page freed while the order was uncertain stays uncertain until all of those are gone
	}
	live.clear();
	// drain: every freed page must come back exactly once before the file grows
	std::set<u64> expect = freeset; u64 before = file_size(path); std::vector<u64> got;
	for (std::size_t i = 0; i < expect.size(); i++) {
		Page pg(pool.get(), L()); VH_CHECK(pg.ptr(), "p02:alloc-failed", "drain");
		check_new(pg.pos(), "drain"); VH_CHECK(expect.count(pg.pos()) && !std::count(got.begin(), got.end(), pg.pos()), "p02:lost-free-page", "draining %zu free pages produced page %llu (file %llu -> %llu)", expect.size(), (unsigned long long)pg.pos(), (unsigned long long)before, (unsigned long long)file_size(path));
		got.push_back(pg.pos());
	}
	VH_CHECK(file_size(path) == before, "p02:lost-free-page", "file grew while free pages were left");
	cnt("drained", got.size());
	for (auto& o : owned) { Page pg(pool.get(), o.first, L()); u64 v; VH_CHECK(pg.ptr(), "p02:lock-failed", "end"); memcpy(&v, static_cast<char*>(pg.ptr()) + 64, 8); if (o.second) VH_CHECK(v == o.second, "p02:owned-overwritten", "an allocated page changed: page %llu", (unsigned long long)o.first); }
	eval(); if (got.size() > 2 || scarce) nontrivial(sig); cnt("scarce_allocs", scarce);
	sample(fmt("cap=%zu ops=%u owned=%zu freed=%zu scarce=%u", Cap, nops, owned.size(), got.size(), scarce));
}
#if VH_IS_PART(0)
static RegIt r_P02_0("P02", [](u64 idx, Rng& rng) { (void)idx; p02<4>(rng); }, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_P02_1("P02", [](u64 idx, Rng& rng) { (void)idx; p02<5>(rng); }, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_P02_2("P02", [](u64 idx, Rng& rng) { (void)idx; p02<6>(rng); }, nullptr, 2);
#endif
#if VH_IS_PART(3)
static RegIt r_P02_3("P02", [](u64 idx, Rng& rng) { (void)idx; p02<8>(rng); }, nullptr, 3);
#endif
#if VH_IS_PART(4)
static RegIt r_P02_4("P02", [](u64 idx, Rng& rng) { (void)idx; p02<12>(rng); }, nullptr, 4);
#endif
#if VH_IS_PART(5)
static RegIt r_P02_5("P02", [](u64 idx, Rng& rng) { (void)idx; p02<32>(rng); }, nullptr, 5);
#endif

#endif // P02
#ifdef P03
// ------------------------------------------------------------------------------------------------ P03
// Brings the pool into the state that n more locks and unlocks of its first mapped page lead to: what takes a pool minutes or hours of use.
// If the counters have other names, this does nothing.
template <typename P> static auto aged(P& p, Rng& rng, int) -> decltype(p._mapped_page_totals.keep_count + p._mapped_page_totals.hit_count + p._mapped_page_totals.miss_count + p._mapped_page_totals.unlock_count + p._mapped_page_totals.check_count + p._mapped_pages[0].keep_count, bool()) {
	if (p._mapped_page_count == 0) return false;
	auto& t = p._mapped_page_totals; u64 wrap = 1ull << 32, n, locks = t.hit_count + t.miss_count;
	switch (rng.below(4)) {
	case 0: n = wrap - locks % wrap - rng.below(150); break;
	case 1: n = (wrap - (locks + t.unlock_count) % wrap - rng.below(300)) / 2; break;
	case 2: n = wrap - t.keep_count % wrap - rng.below(150); break;
	default: n = wrap - t.keep_count % wrap + rng.below(100); break;
	}
	p._mapped_pages[0].keep_count += n; t.keep_count += n; t.hit_count += n; t.unlock_count += n; t.check_count += 2 * n; cnt("aged_pools"); return true;
}
template <typename P> static bool aged(P&, Rng&, long) { return false; }

template <std::size_t Cap>
static void p03(Rng& rng) {
	using Pool = abc::vmem_pool<Cap, Log>; using Page = abc::vmem_page<Pool, Log>;
	std::string path = scratch(fmt("p03-%zu.vmem", Cap)); ::unlink(path.c_str());
	StdinClosed z(rng.chance(1, 8)); std::size_t fds0 = count_fds();
	std::unique_ptr<Pool> pool(new Pool(path.c_str(), L()));
	unsigned npages = Cap + 2 + rng.below(2 * Cap + 8); std::vector<u64> pages; std::map<u64, u64> tag;
	for (unsigned i = 0; i < npages; i++) { Page pg(pool.get(), L()); VH_CHECK(pg.ptr(), "p03:alloc-failed", "unlocked pool cannot allocate"); pages.push_back(pg.pos()); tag[pg.pos()] = rng.next(); memcpy(pg.ptr(), &tag[pg.pos()], 8); }
	struct Lk { std::unique_ptr<Page> pg; void* addr; };
	std::vector<Lk> live; std::vector<Page> hoard; void* hoard_addr = nullptr;	// hoard: very many locks on one page
	u64 sig = Cap; unsigned refused = 0, full = 0;
	auto locked = [&]() { std::map<u64, void*> s; for (auto& l : live) s[l.pg->pos()] = l.addr; if (!hoard.empty()) s[hoard.back().pos()] = hoard_addr; return s; };
	auto budget = [&]() { u64 m = mapped_pages_of(path); VH_CHECK(m <= Cap, "p03:budget", "%llu pages mapped, capacity %zu", (unsigned long long)m, Cap); cnt("map_checks"); return m; };
	auto stable = [&]() { for (auto& l : live) { VH_CHECK(l.pg->ptr() == l.addr, "p03:moved", "a locked page moved"); u64 v; memcpy(&v, l.addr, 8); VH_CHECK(v == tag[l.pg->pos()], "p03:locked-content", "memory of locked page %llu is not that page", (unsigned long long)l.pg->pos()); } if (!hoard.empty()) { VH_CHECK(hoard.back().ptr() == hoard_addr && hoard.front().ptr() == hoard_addr, "p03:moved", "a page locked %zu times moved", hoard.size()); u64 v; memcpy(&v, hoard_addr, 8); VH_CHECK(v == tag[hoard.back().pos()], "p03:locked-content", "memory of page %llu, locked %zu times, is not that page", (unsigned long long)hoard.back().pos(), hoard.size()); } };
	unsigned nops = 40 + rng.below(120), age_at = rng.below(2 * nops), hoard_at = rng.below(4 * nops);
	for (unsigned op = 0; op < nops; op++) {
		unsigned what = rng.below(100); auto lk = locked(); sig = hcomb(sig, hcomb(what / 12, lk.size())); if (op == age_at) aged(*pool, rng, 0);
		if (op == hoard_at && !live.empty()) {
			Lk& l = live[rng.below(live.size())]; u64 pos = l.pg->pos(); std::size_t has = 0; for (auto& x : live) has += x.pg->pos() == pos;
			std::size_t want = rng.chance(3, 4) ? 256 * (1 + rng.below(3)) : 65536; want += rng.below(3); want -= std::min(want, 1 + has); hoard_addr = l.addr; trace("%zu more locks on %llu", want, (unsigned long long)pos);
			for (std::size_t i = 0; i < want; i++) { if (i % 2) hoard.emplace_back(pool.get(), pos, L()); else hoard.emplace_back(*l.pg); }
			if (rng.chance(1, 2)) { for (std::size_t i = live.size(); i-- > 0;) if (live[i].pg->pos() == pos) live.erase(live.begin() + i); }
			lk = locked(); cnt("hoards");
		}
		else if (!hoard.empty() && rng.chance(1, 60)) { hoard.clear(); lk = locked(); }
		if (what < 55) {
			u64 pos = (lk.size() >= Cap && rng.chance(1, 2)) ? live[rng.below(live.size())].pg->pos() : pages[rng.below(pages.size())];
			std::unique_ptr<Page> pg(new Page(pool.get(), pos, L())); trace("lock %llu -> %p (%zu locked)", (unsigned long long)pos, pg->ptr(), lk.size());
			bool expect = lk.count(pos) || lk.size() < Cap;
			if (expect) {
				VH_CHECK(pg->ptr() != nullptr, "p03:refused-with-room", "lock refused with %zu of %zu mappings locked", lk.size(), Cap);
				if (lk.count(pos)) VH_CHECK(pg->ptr() == lk[pos], "p03:not-shared", "two locks on one page have different addresses");
				u64 v; memcpy(&v, pg->ptr(), 8); VH_CHECK(v == tag[pos], "p03:wrong-page", "lock of page %llu gives other content", (unsigned long long)pos);
				v = rng.next(); tag[pos] = v; memcpy(pg->ptr(), &v, 8);
				void* a = pg->ptr(); if (rng.chance(3, 4)) live.push_back({ std::move(pg), a });
			} else {
				VH_CHECK(pg->ptr() == nullptr, "p03:over-budget-lock", "lock granted beyond the capacity %zu", Cap); refused++;
			}
			cnt("locks");
		}
		else if (what < 65) {	// allocate under whatever pressure there is
			std::unique_ptr<Page> pg(new Page(pool.get(), L())); u64 pos = pg->pos();
			if (pg->ptr()) { VH_CHECK(lk.size() < Cap, "p03:over-budget-lock", "allocation granted beyond the capacity"); tag[pos] = rng.next(); memcpy(pg->ptr(), &tag[pos], 8); pages.push_back(pos); void* a = pg->ptr(); if (rng.chance(1, 2)) live.push_back({ std::move(pg), a }); }
			else { VH_CHECK(lk.size() + 2 > Cap, "p03:alloc-failed", "allocation refused with %zu of %zu mappings locked", lk.size(), Cap); refused++; }
			cnt("allocs");
		}
		else if (what < 78 && !live.empty()) {
			std::size_t i = rng.below(live.size());
			switch (rng.below(4)) {
			case 0: { std::unique_ptr<Page> c(new Page(*live[i].pg)); void* a = c->ptr(); VH_CHECK(a == live[i].addr, "p03:not-shared", "copy of a lock has another address"); live.push_back({ std::move(c), a }); break; }
			case 1: { std::unique_ptr<Page> c(new Page(std::move(*live[i].pg))); VH_CHECK(c->ptr() == live[i].addr, "p03:moved", "moved lock changed address"); VH_CHECK(live[i].pg->ptr() == nullptr, "p03:moved-from", "moved-from page still has memory"); live[i].pg = std::move(c); break; }
			case 2: { std::size_t j = rng.below(live.size()); if (j == i) break; *live[j].pg = *live[i].pg; live[j].addr = live[j].pg->ptr(); VH_CHECK(live[j].addr == live[i].addr, "p03:not-shared", "assigned lock has another address"); break; }
			default: { std::size_t j = rng.below(live.size()); if (j == i) break; u64 pos = live[i].pg->pos(); void* a = live[i].addr; *live[j].pg = std::move(*live[i].pg); live[j].addr = live[j].pg->ptr(); VH_CHECK(live[j].addr == a && live[j].pg->pos() == pos, "p03:moved", "move-assigned lock changed address"); live.erase(live.begin() + i); break; }
			}
			cnt("lock_copies");
		}
		else if (what < 95 && !live.empty()) { live.erase(live.begin() + rng.below(live.size())); if (rng.chance(1, 6)) live.clear(); }
		else if (live.empty() && hoard.empty()) { std::unique_ptr<Pool> np(new Pool(std::move(*pool))); { Page dead(pool.get(), pages[0]); VH_CHECK(dead.ptr() == nullptr, "p03:moved-from-pool", "a moved-from pool hands out memory"); } pool = std::move(np); cnt("pool_moves"); }
		else { live.clear(); hoard.clear(); pool.reset(); VH_CHECK(mapped_pages_of(path) == 0, "p03:leftover-mapping", "mappings left after close"); VH_CHECK(count_fds() == fds0, "p03:leftover-fd", "descriptors left after close"); pool.reset(new Pool(path.c_str(), L())); cnt("reopens"); }
		if (locked().size() == Cap) full++;
		stable(); budget();
	}
	live.clear(); hoard.clear();
	for (u64 p : pages) { Page pg(pool.get(), p, L()); VH_CHECK(pg.ptr(), "p03:refused-with-room", "page %llu cannot be locked although nothing is", (unsigned long long)p); u64 v; memcpy(&v, pg.ptr(), 8); VH_CHECK(v == tag[p], "p03:wrong-page", "page %llu has other content at the end", (unsigned long long)p); }
	budget(); pool.reset();
	VH_CHECK(mapped_pages_of(path) == 0, "p03:leftover-mapping", "mappings left after close"); VH_CHECK(count_fds() == fds0, "p03:leftover-fd", "descriptors left after close");
	eval(); cnt("refused", refused); cnt("full_states", full); if (refused || full) nontrivial(sig);
	sample(fmt("cap=%zu pages=%zu ops=%u refused=%u full=%u", Cap, pages.size(), nops, refused, full));
}
#if VH_IS_PART(0)
static RegIt r_P03_0("P03", [](u64 idx, Rng& rng) { (void)idx; p03<3>(rng); }, nullptr, 0);
#endif
#if VH_IS_PART(1)
static RegIt r_P03_1("P03", [](u64 idx, Rng& rng) { (void)idx; p03<4>(rng); }, nullptr, 1);
#endif
#if VH_IS_PART(2)
static RegIt r_P03_2("P03", [](u64 idx, Rng& rng) { (void)idx; p03<5>(rng); }, nullptr, 2);
#endif
#if VH_IS_PART(3)
static RegIt r_P03_3("P03", [](u64 idx, Rng& rng) { (void)idx; p03<7>(rng); }, nullptr, 3);
#endif
#if VH_IS_PART(4)
static RegIt r_P03_4("P03", [](u64 idx, Rng& rng) { (void)idx; p03<12>(rng); }, nullptr, 4);
#endif
#if VH_IS_PART(5)
static RegIt r_P03_5("P03", [](u64 idx, Rng& rng) { (void)idx; p03<40>(rng); }, nullptr, 5);
#endif
#endif // P03
