PRE = r'''
#include "vmem.h"
#include "log.h"
#include <cstdio>
#include <cstring>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace abc;
using Log = debug_line_ostream<>; // unused
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s line %d\n", #c, __LINE__); return 1; } } while (0)
'''
BUGS = [
dict(id='p01-offset-32bit', prop='P01', file='src/x/vmem_pool.x.h',
 edits=[("off_t page_off = static_cast<off_t>(page_pos * vmem_page_size);", "off_t page_off = static_cast<off_t>(static_cast<std::uint32_t>(page_pos * vmem_page_size));")],
 needs='a pool file larger than 4 GB', breaks='pages beyond 4 GB alias pages at the beginning of the file',
 demo=PRE + r'''
int main() {
	using Pool = vmem_pool<8, Log>; using Page = vmem_page<Pool, Log>;
	{ Pool pool("p.vmem", nullptr); }
	CHECK(truncate("p.vmem", (4ll << 30) + 8192) == 0);
	Pool pool("p.vmem", nullptr);
	Page low(&pool, 2, nullptr); CHECK(low.ptr() != nullptr); std::memset(low.ptr(), 1, 4096);
	Page a(&pool, nullptr); CHECK(a.ptr() != nullptr); CHECK(a.pos() == ((4ull << 30) + 8192) / 4096);
	std::memset(a.ptr(), 7, 4096);
	CHECK(static_cast<char*>(low.ptr())[5] == 1);
	return 0;
}
'''),
dict(id='p04-signature-prefix', prop='P04', file='src/x/vmem_pool.x.h',
 edits=[("std::strcmp(root_page->signature, init.signature) != 0", "std::strncmp(root_page->signature, init.signature, std::strlen(root_page->signature)) != 0")],
 needs='a file of pool size whose signature is empty or a prefix of the right one', breaks='a foreign file is accepted as a pool',
 demo=PRE + r'''
int main() {
	using Pool = vmem_pool<8, Log>;
	{ Pool pool("p.vmem", nullptr); }
	int fd = open("p.vmem", O_RDWR); char b[64]; CHECK(pread(fd, b, 64, 0) == 64);
	vmem_root_page init; size_t off = reinterpret_cast<const char*>(&init.signature) - reinterpret_cast<const char*>(&init);
	char z = 0; CHECK(pwrite(fd, &z, 1, off + 2) == 1); close(fd);
	bool threw = false;
	try { Pool pool("p.vmem", nullptr); } catch (const std::exception&) { threw = true; }
	CHECK(threw);
	return 0;
}
'''),
dict(id='c01-merge-prev-itr', prop='C01', file='src/x/vmem_container.x.h',
 edits=[("itr.item_pos() + prev_container_page->item_count, vmem_iterator_edge::none", "itr.item_pos() + prev_container_page->item_count - (itr.item_pos() > 1 ? 1 : 0), vmem_iterator_edge::none")],
 needs='an erase at the third item or later of a page that then merges into its previous page', breaks='erase returns the position before the right one',
 demo=PRE + r'''
struct Item { char b[500]; };
int main() {
	using Pool = vmem_pool<12, Log>; using List = vmem_list<Item, Pool, Log>;
	Pool pool("p.vmem", nullptr);
	vmem_page<Pool, Log> start(&pool, vmem_page_pos_start, nullptr);
	List list(reinterpret_cast<vmem_list_state*>(start.ptr()), &pool, nullptr);
	Item it; std::vector<int> model; unsigned seed = 5;
	for (int i = 0; i < 6000; i++) {
		seed = seed * 1103515245 + 12345; unsigned r = (seed >> 16) & 0x7fff;
		size_t n = model.size(); size_t at = n ? r % n : 0;
		auto itr = list.begin(); for (size_t k = 0; k < at; k++) itr++;
		if (n < 60 && (n < 8 || (r & 256))) { int v = i % 120; std::memset(&it, v, sizeof it); list.insert(itr, it); model.insert(model.begin() + at, v); }
		else { auto next = list.erase(itr); model.erase(model.begin() + at); if (at < model.size()) { CHECK(next.can_deref()); CHECK(next->b[0] == model[at]); } }
	}
	return 0;
}
'''),
]
