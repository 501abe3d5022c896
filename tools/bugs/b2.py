import runpy
PRE = runpy.run_path('/verif/tools/bugs/b1.py')['PRE']
LISTPRE = PRE + r'''
template <typename Item, size_t Pages, typename F> int with_list(F f) {
	using Pool = vmem_pool<Pages, Log>; using List = vmem_list<Item, Pool, Log>;
	std::remove("p.vmem"); Pool pool("p.vmem", nullptr);
	vmem_page<Pool, Log> start(&pool, vmem_page_pos_start, nullptr);
	List list(reinterpret_cast<vmem_list_state*>(start.ptr()), &pool, nullptr);
	return f(pool, list);
}
'''
BUGS = [
dict(id='p03-copy-assign-leaks-lock', prop='P03', file='src/x/vmem_pool.x.h',
 edits=[("operator =(const vmem_page<Pool, Log>& other) noexcept {\n\t\tunlock();\n", "operator =(const vmem_page<Pool, Log>& other) noexcept {\n\t\tif (_pos != other._pos) {\n\t\t\tunlock();\n\t\t}\n")],
 needs='copy-assigning a page object onto another one that locks the same page', breaks='the page keeps a lock nobody holds, so its mapping can never be reused',
 demo=PRE + r'''
int main() {
	using Pool = vmem_pool<6, Log>; using Page = vmem_page<Pool, Log>;
	Pool pool("p.vmem", nullptr);
	for (int i = 0; i < 8; i++) { Page a(&pool, nullptr); CHECK(a.ptr() != nullptr); Page b(a); b = a; CHECK(b.ptr() == a.ptr()); }
	return 0;
}
'''),
dict(id='p03-swap-first-mapping', prop='P03', file='src/x/vmem_pool.x.h',
 edits=[("return _mapped_pages[i].lock_count > 0 || _mapped_pages[i].keep_count > min_keep_count;", "return (_mapped_pages[i].lock_count > 0 && _mapped_pages[i].keep_count > 0) || _mapped_pages[i].keep_count > min_keep_count;")],
 needs='a page that stays locked over two evictions without being locked again, so that its keep count drops to zero', breaks='a locked page gets unmapped under its holder',
 demo=PRE + r'''
int main() {
	using Pool = vmem_pool<6, Log>; using Page = vmem_page<Pool, Log>;
	Pool pool("p.vmem", nullptr);
	Page held(&pool, nullptr); CHECK(held.ptr() != nullptr); std::memset(held.ptr(), 9, 4096); void* p = held.ptr();
	for (int i = 0; i < 40; i++) { Page a(&pool, nullptr); CHECK(a.ptr() != nullptr); std::memset(a.ptr(), 1, 4096); }
	Page again(&pool, held.pos(), nullptr); CHECK(again.ptr() == p); CHECK(static_cast<char*>(p)[100] == 9);
	return 0;
}
'''),
dict(id='c01-odd-split', prop='C01', file='src/x/vmem_container.x.h',
 edits=[("constexpr std::size_t page_item_count = page_capacity() - new_page_item_count;", "constexpr std::size_t page_item_count = page_capacity() > 1 ? page_capacity() / 2 : page_capacity() - new_page_item_count;")],
 needs='an inner insert into a full page whose capacity is odd', breaks='the last item of the split page is lost',
 demo=LISTPRE + r'''
struct Item { char b[800]; };
int main() { return with_list<Item, 12>([](auto&, auto& list) {
	Item it; for (int i = 0; i < 5; i++) { std::memset(&it, i, sizeof it); list.push_back(it); }
	auto itr = list.begin(); itr++; std::memset(&it, 9, sizeof it); list.insert(itr, it);
	int want[] = { 0, 9, 1, 2, 3, 4 }; size_t k = 0;
	for (auto j = list.begin(); j != list.end(); j++, k++) { CHECK(k < 6); CHECK(j->b[0] == want[k]); }
	CHECK(k == 6); return 0; }); }
'''),
dict(id='c03-separator-less', prop='C03', file='src/x/vmem_map.x.h',
 edits=[("i < key_page->item_count && vmem_is_less_or_equal(key_page->items[i].key, key)", "i < key_page->item_count && (lev == 0 || !vmem_is_less(key, key_page->items[i].key)) && (lev != 0 || vmem_is_less_or_equal(key_page->items[i].key, key)) && (lev == 0 || vmem_is_less(key_page->items[i].key, key))")],
 needs='a map of two or more index levels and a key equal to a lower-level separator', breaks='a present key is not found and can be inserted a second time',
 demo=PRE + r'''
int main() {
	using Pool = vmem_pool<16, Log>; struct V { char b[1000]; };
	struct K { long long k; char pad[900]; bool operator<(const K& o) const { return k < o.k; } bool operator==(const K& o) const { return k == o.k; } };
	using Map = vmem_map<long long, V, Pool, Log>;
	Pool pool("p.vmem", nullptr);
	vmem_page<Pool, Log> start(&pool, vmem_page_pos_start, nullptr);
	Map map(reinterpret_cast<vmem_map_state*>(start.ptr()), &pool, nullptr);
	for (long long i = 0; i < 3000; i++) { typename Map::value_type v {}; v.key = i; CHECK(map.insert(v).second); }
	for (long long i = 0; i < 3000; i++) CHECK(map.contains(i));
	return 0;
}
'''),
dict(id='p06-map-clear-leaks-index', prop='P06', file='src/x/vmem_map.x.h',
 edits=[("vmem_map_key_level<Key, Pool, Log> keys(key_level_state_ptr.operator->(), _pool, _log);\n\t\t\tkeys.clear();", "vmem_map_key_level<Key, Pool, Log> keys(key_level_state_ptr.operator->(), _pool, _log);\n\t\t\tif (keys.size() == 1) {\n\t\t\t\tkeys.clear();\n\t\t\t}")],
 needs='clearing a map that has an index level', breaks='the index pages are never freed, so the file grows with every fill and clear',
 demo=PRE + r'''
int main() {
	using Pool = vmem_pool<16, Log>; struct V { char b[500]; }; using Map = vmem_map<long long, V, Pool, Log>;
	Pool pool("p.vmem", nullptr);
	vmem_page<Pool, Log> start(&pool, vmem_page_pos_start, nullptr);
	Map map(reinterpret_cast<vmem_map_state*>(start.ptr()), &pool, nullptr);
	struct stat st; off_t first = 0;
	for (int c = 0; c < 6; c++) {
		for (long long i = 0; i < 100; i++) { typename Map::value_type v {}; v.key = i; CHECK(map.insert(v).second); }
		map.clear(); CHECK(stat("p.vmem", &st) == 0);
		if (c == 0) first = st.st_size; else CHECK(st.st_size <= first);
	}
	return 0;
}
'''),
]
