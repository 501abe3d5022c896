PRE = r'''
#include "vmem.h"
#include "log.h"
#include <cstdio>
#include <cstring>
#include <vector>
#include <map>
#include <string>
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
using namespace abc;
using Log = debug_line_ostream<>; // unused
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s line %d\n", #c, __LINE__); return 1; } } while (0)
struct Key { char b[600]; bool operator <(const Key& o) const { return std::strcmp(b, o.b) < 0; } bool operator <=(const Key& o) const { return std::strcmp(b, o.b) <= 0; } bool operator ==(const Key& o) const { return std::strcmp(b, o.b) == 0; } }; static Key key(int i) { Key k; std::memset(&k, 0, sizeof k); std::snprintf(k.b, sizeof k.b, "%06d", i); return k; }
static long fsize(const char* p) { struct stat st; return stat(p, &st) == 0 ? (long)st.st_size : -1; }
template <typename State, typename Pool> struct At { vmem_page<Pool, Log> page; State* s; At(Pool* p) : page(p, vmem_page_pos_start, nullptr), s(reinterpret_cast<State*>(page.ptr())) { } };
'''
BUGS = [
dict(id='p02-neighbour-order', prop='P02', file='src/x/vmem_pool.x.h',
 edits=[("\t\t\tfree_pages_linked.push_back(page_pos);", "\t\t\tif (page_pos + 1 == root_page->free_pages.back_page_pos) {\n\t\t\t\tfree_pages_linked.push_front(page_pos);\n\t\t\t}\n\t\t\telse {\n\t\t\t\tfree_pages_linked.push_back(page_pos);\n\t\t\t}")],
 needs='freeing the page right before the one freed last', breaks='it is not the first to be reused',
 demo=PRE + r'''
int main() { using Pool = vmem_pool<8, Log>; Pool pool("p.vmem", nullptr); vmem_page_pos_t pos[6]; for (int i = 0; i < 6; i++) { vmem_page<Pool, Log> p(&pool, nullptr); pos[i] = p.pos(); }
	int order[] = { 0, 5, 2, 1 }; for (int i : order) { vmem_page<Pool, Log> p(&pool, pos[i], nullptr); p.free(); }
	for (int i = 3; i >= 0; i--) { vmem_page<Pool, Log> p(&pool, nullptr); CHECK(p.pos() == pos[order[i]]); } return 0; }
'''),
dict(id='p03-many-locks', prop='P03', file='src/x/vmem_pool.x.h',
 edits=[("return _mapped_pages[i].lock_count > 0 || _mapped_pages[i].keep_count > min_keep_count;", "return static_cast<std::uint8_t>(_mapped_pages[i].lock_count) > 0 || _mapped_pages[i].keep_count > min_keep_count;")],
 needs='a page locked 256 times at once when mappings are evicted', breaks='the locked page is unmapped',
 demo=PRE + r'''
int main() { using Pool = vmem_pool<8, Log>; Pool pool("p.vmem", nullptr); std::vector<vmem_page_pos_t> pos; for (int i = 0; i < 60; i++) { vmem_page<Pool, Log> p(&pool, nullptr); pos.push_back(p.pos()); }
	std::vector<std::unique_ptr<vmem_page<Pool, Log>>> held; for (int i = 0; i < 256; i++) held.emplace_back(new vmem_page<Pool, Log>(&pool, pos[0], nullptr)); char* c = static_cast<char*>(held[0]->ptr());
	for (int r = 0; r < 40; r++) for (size_t i = 1; i < pos.size(); i++) for (int k = 0; k < 2; k++) { vmem_page<Pool, Log> p(&pool, pos[i], nullptr); static_cast<char*>(p.ptr())[0] = 1; }
	vmem_page<Pool, Log> again(&pool, pos[0], nullptr); CHECK(again.ptr() == c); std::strcpy(c, "held"); return 0; }
'''),
dict(id='c04-splice-single', prop='C04', file='src/x/vmem_linked.x.h',
 edits=[("other_front_linked_page->prev_page_pos = _state->back_page_pos;", "other_front_linked_page->prev_page_pos = _state->front_page_pos != _state->back_page_pos ? _state->back_page_pos : vmem_page_pos_nil;")],
 needs='splicing a list to one of a single page, and going backwards', breaks='the first page is not reached',
 demo=PRE + r'''
int main() { using Pool = vmem_pool<8, Log>; using L = vmem_linked<Pool, Log>; Pool pool("p.vmem", nullptr); vmem_linked_state s1, s2; L a(&s1, &pool, nullptr), b(&s2, &pool, nullptr); vmem_page_pos_t pos[4]; for (int i = 0; i < 4; i++) { vmem_page<Pool, Log> p(&pool, nullptr); pos[i] = p.pos(); }
	a.push_back(pos[0]); a.push_back(pos[1]); b.push_back(pos[2]); a.splice(b); CHECK(b.empty()); a.push_back(pos[3]); int k = 0; for (auto i = a.begin(); i != a.end(); i++) { CHECK(k < 4 && i.page_pos() == pos[k]); k++; } CHECK(k == 4); vmem_linked_state s3, s4; L c(&s3, &pool, nullptr), d(&s4, &pool, nullptr); vmem_page_pos_t more[3]; for (int i = 0; i < 3; i++) { vmem_page<Pool, Log> p(&pool, nullptr); more[i] = p.pos(); } c.push_back(more[0]); d.push_back(more[1]); d.push_back(more[2]); c.splice(d); k = 2; for (auto i = c.rend(); i != c.rbegin(); i--) { CHECK(k >= 0 && i.page_pos() == more[k]); k--; } CHECK(k == -1); return 0; }
'''),
dict(id='c04-stale-front', prop='C04', file='src/x/vmem_linked.x.h',
 edits=[("next_linked_page->prev_page_pos = linked_page->prev_page_pos;", "if (linked_page->prev_page_pos != vmem_page_pos_nil) next_linked_page->prev_page_pos = linked_page->prev_page_pos;")],
 needs='removing the front page, and inserting at the front again', breaks='the page is linked behind a page that is not in the list',
 demo=PRE + r'''
int main() { using Pool = vmem_pool<8, Log>; using L = vmem_linked<Pool, Log>; Pool pool("p.vmem", nullptr); vmem_linked_state s1; L a(&s1, &pool, nullptr); vmem_page_pos_t pos[5]; for (int i = 0; i < 5; i++) { vmem_page<Pool, Log> p(&pool, nullptr); pos[i] = p.pos(); }
	a.push_back(pos[0]); a.push_back(pos[1]); a.push_back(pos[2]); a.pop_front(); a.push_front(pos[3]); vmem_page_pos_t want[] = { pos[3], pos[1], pos[2] }; int k = 0; for (auto i = a.begin(); i != a.end(); i++) { CHECK(k < 3 && i.page_pos() == want[k]); k++; } CHECK(k == 3); k = 2; for (auto i = a.rend(); i != a.rbegin(); i--) { CHECK(k >= 0 && i.page_pos() == want[k]); k--; } CHECK(k == -1); 
	vmem_page<Pool, Log> p(&pool, pos[3], nullptr); CHECK(reinterpret_cast<vmem_linked_page*>(p.ptr())->prev_page_pos == vmem_page_pos_nil); return 0; }
'''),
dict(id='p06-clear-keys', prop='P06', file='src/x/vmem_map.x.h',
 edits=[("key_stack_itr != _key_stack.rbegin(); key_stack_itr--) {\n", "key_stack_itr != (_key_stack.size() > 2 ? _key_stack.begin() : _key_stack.rbegin()); key_stack_itr--) {\n")],
 needs='clearing maps of more than one page again and again', breaks='the pages of the keys are never reused',
 demo=PRE + r'''
int main() { using Pool = vmem_pool<16, Log>; using Map = vmem_map<Key, int, Pool, Log>; Pool pool("p.vmem", nullptr); At<vmem_map_state, Pool> at(&pool); Map m(at.s, &pool, nullptr); long peak = 0; for (int r = 0; r < 6; r++) { for (int i = 0; i < 1500; i++) { Map::value_type v; v.key = key(i); v.value = i; m.insert(v); } if (r == 0) peak = fsize("p.vmem"); m.clear(); CHECK(m.size() == 0); } CHECK(fsize("p.vmem") <= peak + 4096); return 0; }
'''),
dict(id='c03-last-key', prop='C03', file='src/x/vmem_map.x.h',
 edits=[("for (std::size_t i = 1; i < key_page->item_count && vmem_is_less_or_equal(key_page->items[i].key, key); i++) {", "for (std::size_t i = 1; i < key_page->item_count && i + 1 < key_page_capacity() && vmem_is_less_or_equal(key_page->items[i].key, key); i++) {")],
 needs='a page of keys that is full', breaks='the keys under its last key are not found',
 demo=PRE + r'''
int main() { using Pool = vmem_pool<16, Log>; using Map = vmem_map<Key, int, Pool, Log>; Pool pool("p.vmem", nullptr); At<vmem_map_state, Pool> at(&pool); Map m(at.s, &pool, nullptr); for (int i = 0; i < 400; i++) { Map::value_type v; v.key = key((i * 37) % 400); v.value = i; CHECK(m.insert(v).second); for (int j = 0; j <= i; j += 7) CHECK(m.contains(key((j * 37) % 400))); } return 0; }
'''),
dict(id='c07-larger-stored-item', prop='C07', file='src/x/vmem_container.x.h',
 edits=[("if (sizeof(T) != _state->item_size) {", "if (sizeof(T) > _state->item_size) {")],
 needs='opening a container with items smaller than the stored ones', breaks='the content is misread',
 demo=PRE + r'''
int main() { using Pool = vmem_pool<8, Log>; Pool pool("p.vmem", nullptr); At<vmem_list_state, Pool> at(&pool); { vmem_list<long long, Pool, Log> l(at.s, &pool, nullptr); l.push_back(0x100000002ll); l.push_back(3); } bool threw = false; try { vmem_list<short, Pool, Log> l(at.s, &pool, nullptr); } catch (const std::exception&) { threw = true; } CHECK(threw); return 0; }
'''),
dict(id='c06-failed-insert-begin', prop='C06', file='src/x/vmem_container.x.h',
 edits=[("\t\t\t// Return end().\n\t\t\tresult.iterator = end_itr();\n\t\t\tresult.page_leads[0] = result.page_leads[1] = page_lead();", "\t\t\t// Return end().\n\t\t\tresult.iterator = rend_itr();\n\t\t\tresult.page_leads[0] = result.page_leads[1] = page_lead();")],
 needs='an insertion that gets no page', breaks='the position returned looks like that of the item inserted',
 demo=PRE + r'''
int main() { using Pool = vmem_pool<8, Log>; using List = vmem_list<int, Pool, Log>; { Pool pool("p.vmem", nullptr); } signal(SIGXFSZ, SIG_IGN); Pool pool("p.vmem", nullptr); At<vmem_list_state, Pool> at(&pool); List l(at.s, &pool, nullptr); rlimit rl = { 8 * 4096, 8 * 4096 }; CHECK(setrlimit(RLIMIT_FSIZE, &rl) == 0); size_t n = 0; for (int i = 0; i < 20000; i++) { size_t before = l.size(); auto itr = l.insert(l.end(), i); if (l.size() == before) { CHECK(!itr.can_deref()); n++; } else CHECK(itr.can_deref() && *itr == i); } CHECK(n > 0); return 0; }
'''),
dict(id='c06-link-unchecked', prop='C06', file='src/x/vmem_container.x.h',
 edits=[("ok = new_itr != linked.end();", "ok = new_itr.item_pos() == linked.end().item_pos();")],
 needs='a list that needs a page while every mapping but one is locked', breaks='a page that is not linked counts as part of the list',
 demo=PRE + r'''
int main() { using Pool = vmem_pool<8, Log>; using List = vmem_list<int, Pool, Log>; Pool pool("p.vmem", nullptr); vmem_list_state st; List l(&st, &pool, nullptr); std::vector<vmem_page_pos_t> pos; for (int i = 0; i < 12; i++) { vmem_page<Pool, Log> p(&pool, nullptr); pos.push_back(p.pos()); }
	int n = 0; size_t kept; std::vector<int> model;
	for (int lock = 8; lock >= 3; lock--) { for (int i = 0; i < 1500; i++) { { std::vector<std::unique_ptr<vmem_page<Pool, Log>>> held; for (int k = 0; k < lock; k++) held.emplace_back(new vmem_page<Pool, Log>(&pool, pos[k], nullptr)); kept = l.size(); try { l.push_front(n); } catch (const std::exception&) { } } if (l.size() != kept) model.insert(model.begin(), n); n++; } }
	size_t k = 0; for (auto i = l.begin(); i != l.end(); i++) { CHECK(k < model.size() && *i == model[k]); k++; } CHECK(k == model.size() && k == l.size()); return 0; }
'''),
dict(id='c05-move-pending', prop='C05', file='src/x/vmem_string.x.h',
 edits=[("\t\t, _put_ch(other._put_ch) {", "\t\t, _put_ch(other.gptr() != other.egptr() ? other._get_ch : other._put_ch) {")],
 needs="moving a string's stream while a character is pending in each direction", breaks='the character written is replaced',
 demo=PRE + r'''
int main() { using Pool = vmem_pool<8, Log>; using Str = vmem_string<Pool, Log>; using SB = vmem_string_streambuf<Pool, Log>; Pool pool("p.vmem", nullptr); At<vmem_string_state, Pool> at(&pool); Str s(at.s, &pool, nullptr); s.push_back('a'); s.push_back('b'); { SB a(&s, nullptr); CHECK(a.sgetc() == 'a'); a.sputc('c'); SB b(std::move(a)); CHECK(b.pubsync() == 0); } std::string got; for (auto i = s.begin(); i != s.end(); i++) got += *i; CHECK(got == "abc"); return 0; }
'''),
]
BUGS = [b for b in BUGS if b['id'] not in ('c03-last-key',)]  # the existing tests catch it
