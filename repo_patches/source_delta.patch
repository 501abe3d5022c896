From 927c78225bae11093dd54a73bef2643e5b069e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 001/105] fix: vmem_pool must not abort or hand out a page it
 could not take off the free list

---
 src/x/vmem_pool.x.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index c29ca93..0043b0a 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -376,9 +376,15 @@ namespace abc {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10393, "vmem_pool::pop_free_page_pos() Non-empty");
 				}
 
-				page_pos = free_pages_linked.back();
+				// Hand out the page only if it has been taken off the list.
+				// Popping fails when there is no capacity to map the pages that have to be updated.
+				vmem_page_pos_t back_page_pos = root_page->free_pages.back_page_pos;
 				free_pages_linked.pop_back();
 
+				if (root_page->free_pages.back_page_pos != back_page_pos) {
+					page_pos = back_page_pos;
+				}
+
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10394, "vmem_pool::pop_free_page_pos() Found free page. page_pos=0x%llx", (long long)page_pos);
 				}
-- 
2.43.0


From cbe95c25bcaffd1a39b388908946ca6cc09906cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 002/105] fix: vmem_pool must not treat a failed mmap as a
 mapped page

---
 src/x/vmem_pool.x.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 0043b0a..9a1dc1c 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -504,6 +504,10 @@ namespace abc {
 		else {
 			// The page is not mapped. Map it. Then lock it.
 			page_ptr = map_new_page(i, page_pos);
+
+			if (page_ptr == nullptr) {
+				return nullptr;
+			}
 		}
 
 		// Optimization: Swap this page forward (once) to keep pages sorted by keep_count.
@@ -793,6 +797,14 @@ namespace abc {
 				i, (long long)page_pos, ptr, errno);
 		}
 
+		if (ptr == MAP_FAILED) {
+			if (_log != nullptr) {
+				_log->put_any(category::abc::vmem, severity::warning, 0x10864, "vmem_pool::map_new_page() mmap failed. pos=0x%llx, errno=%d", (long long)page_pos, errno);
+			}
+
+			return nullptr;
+		}
+
 		_mapped_page_count++;
 
 		// Set the slot.
-- 
2.43.0


From a2ac96a7e179de9bb6465ad42f685f7c859b3bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 003/105] fix: vmem_pool constructor must release the file and
 the mapped pages when it throws

---
 src/x/vmem_pool.x.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 9a1dc1c..6c70310 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -50,6 +50,7 @@ namespace abc {
 	template <std::size_t MaxMappedPages, typename Log>
 	inline vmem_pool<MaxMappedPages, Log>::vmem_pool(const char* file_path, Log* log)
 		: _ready(false)
+		, _fd(-1)
 		, _mapped_page_count(0)
 		, _mapped_pages{ }
 		, _mapped_page_totals{ }
@@ -61,13 +62,27 @@ namespace abc {
 
 		verify_args_or_throw(file_path);
 
-		bool is_init = open_pool_or_throw(file_path);
+		try {
+			bool is_init = open_pool_or_throw(file_path);
 
-		if (!is_init) {
-			init_pool_or_throw();
+			if (!is_init) {
+				init_pool_or_throw();
+			}
+
+			verify_pool_or_throw();
 		}
+		catch (...) {
+			// The destructor will not run. Release the mapped pages and the file.
+			for (std::size_t i = 0; i < _mapped_page_count; i++) {
+				munmap(_mapped_pages[i].ptr, vmem_page_size);
+			}
 
-		verify_pool_or_throw();
+			if (_fd >= 0) {
+				close(_fd);
+			}
+
+			throw;
+		}
 
 		_ready = true;
 
-- 
2.43.0


From b126e06435388c73bd381c45686ab0cbb1fad478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:38 +0000
Subject: [PATCH 004/105] fix: vmem_pool must reject a file that has no start
 page

---
 src/x/vmem_pool.x.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 6c70310..766caa0 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -185,7 +185,8 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::debug, 0x1037f, "vmem_pool::open_pool_or_throw() size=0x%llx", (long long)file_size);
 		}
 
-		if ((file_size & (vmem_page_size - 1)) != 0) {
+		// An initialized pool has at least a root page and a start page.
+		if ((file_size & (vmem_page_size - 1)) != 0 || file_size == vmem_page_size) {
 			throw exception<std::runtime_error, Log>("vmem_pool::open_pool_or_throw() Corrupt vmem file - size", 0x10380, _log);
 		}
 
-- 
2.43.0


From 04f3f2f8aa49bb7135a3eb39b7a5d2c70020b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 005/105] fix: vmem_linked::splice into an empty list must
 empty the other list

---
 src/x/vmem_linked.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_linked.x.h b/src/x/vmem_linked.x.h
index f40416c..b7898a7 100644
--- a/src/x/vmem_linked.x.h
+++ b/src/x/vmem_linked.x.h
@@ -523,6 +523,10 @@ namespace abc {
 		else if (empty()) {
 			// Take over the other state.
 			*_state = *other._state;
+
+			// Empty other state.
+			other._state->front_page_pos = vmem_page_pos_nil;
+			other._state->back_page_pos = vmem_page_pos_nil;
 		}
 		else {
 			// Connect the back page of this and the front page of the other.
-- 
2.43.0


From 96c69f3634d6b593deb4bf3df9539cb0e7a6c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 006/105] fix: vmem iterators must not dereference a null log

---
 src/x/vmem_iterator.x.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/x/vmem_iterator.x.h b/src/x/vmem_iterator.x.h
index 5af16f6..693c7a8 100644
--- a/src/x/vmem_iterator.x.h
+++ b/src/x/vmem_iterator.x.h
@@ -154,7 +154,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107ae, "++itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->next(*this);
@@ -166,7 +168,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator ++(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107af, "itr++");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -180,7 +184,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log>& vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --() noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b0, "--itr");
+		}
 
 		if (Base::is_valid()) {
 			*this = Base::_container->prev(*this);
@@ -192,7 +198,9 @@ namespace abc {
 
 	template <typename Base, typename Container, typename T, typename Pool, typename Log>
 	inline vmem_basic_iterator<Base, Container, T, Pool, Log> vmem_basic_iterator<Base, Container, T, Pool, Log>::operator --(int) noexcept {
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b1, "itr--");
+		}
 
 		vmem_basic_iterator<Base, Container, T, Pool, Log> thisCopy = *this;
 
@@ -247,7 +255,9 @@ namespace abc {
 			throw exception<std::runtime_error, Log>("vmem_iterator::deref() Dereferencing invalid iterator", 0x10606);
 		}
 
-		Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		if (Base::_log != nullptr) {
+			Base::_log->put_any(category::abc::vmem, severity::abc::debug, 0x107b2, "deref()");
+		}
 
 		return *p;
 	}
-- 
2.43.0


From 4befb498797954b476bf8fb045dcb7889adc9937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 007/105] fix: vmem_container::clear must reset the item count

---
 src/x/vmem_container.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 0f6a69d..e5a3b5d 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1088,6 +1088,10 @@ namespace abc {
 	inline void vmem_container<T, Header, Pool, Log>::clear() noexcept {
 		vmem_linked<Pool, Log> linked(_state, _pool, _log);
 		linked.clear();
+
+		if (linked.empty()) {
+			_state->total_item_count = 0;
+		}
 	}
 
 
-- 
2.43.0


From e60ece5cae3c776234b997051e38e97c5e1e80fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 008/105] fix: vmem_container must not free an erased page
 twice

---
 src/x/vmem_container.x.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index e5a3b5d..873fd52 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -1026,12 +1026,9 @@ namespace abc {
 				(long long)page_pos);
 		}
 
+		// The page gets freed as part of erasing it from the linked pages. Freeing it here would add it to the free pages twice.
 		bool ok = erase_page_pos(page_pos);
 
-		if (ok) {
-			page.free();
-		}
-
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::optional, 0x1047a, "vmem_container::erase_page() Done. ok=%d, page_pos=0x%llx",
 				ok, (long long)page_pos);
-- 
2.43.0


From 9859dee14bbe92ff2e1069edc47557d2cd591dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 009/105] fix: vmem_container must not merge with the previous
 page after merging with the next one

---
 src/x/vmem_container.x.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 873fd52..a7e4426 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -868,8 +868,8 @@ namespace abc {
 			result = balance_merge_next(itr, page, container_page);
 		}
 
-		// Try the previous page.
-		if (container_page->prev_page_pos != vmem_page_pos_nil) {
+		// Try the previous page, unless the next page has already been merged.
+		if (result.page_leads[1].operation == vmem_container_page_lead_operation::none && container_page->prev_page_pos != vmem_page_pos_nil) {
 			result = balance_merge_prev(itr, page, container_page);
 		}
 
-- 
2.43.0


From f20dcfc921aafcfeb190bd8ed4412b7d9558010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 010/105] fix: vmem_container::erase must not return a stale
 end iterator

---
 src/x/vmem_container.x.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index a7e4426..e999ff7 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -685,6 +685,11 @@ namespace abc {
 		result2 result = erase_nostate(itr);
 
 		if (result.iterator.is_valid()) {
+			// The back page may have changed. Do not return a stale end().
+			if (result.iterator.edge() == vmem_iterator_edge::end) {
+				result.iterator = end_itr();
+			}
+
 			// Update the total item count.
 			_state->total_item_count--;
 		}
-- 
2.43.0


From 5b30a6bf27e5fcaa732a79404856305cc3869641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 011/105] fix: vmem_container must split a full page when
 inserting in front of an item

---
 src/x/vmem_container.x.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index e999ff7..3ca99d6 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -503,7 +503,8 @@ namespace abc {
 		result2 result;
 
 		// Decide whether we should balance before we alter container_page.
-		bool balance = should_balance_insert(itr, container_page);
+		// Inserting in front of an item on a full page is not possible without a split.
+		bool balance = itr.item_pos() != vmem_item_pos_nil || (page_capacity() > 1 && should_balance_insert(itr, container_page));
 
 		vmem_page<Pool, Log> new_page(nullptr);
 		vmem_container_page<T, Header>* new_container_page = nullptr;
@@ -581,7 +582,7 @@ namespace abc {
 				(long long)page_pos, (long long)new_page_pos);
 		}
 
-		constexpr std::size_t new_page_item_count = page_capacity() / 2;
+		constexpr std::size_t new_page_item_count = page_capacity() > 1 ? page_capacity() / 2 : 1;
 		constexpr std::size_t page_item_count = page_capacity() - new_page_item_count;
 		std::memmove(&new_container_page->items[0], &container_page->items[page_item_count], new_page_item_count * sizeof(T));
 		new_container_page->item_count = new_page_item_count;
-- 
2.43.0


From c3daa2e5a42f5b1e9a2791f0b690d0ba749ffc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 012/105] fix: vmem_container range insert must keep the order
 and return the first inserted item

---
 src/x/vmem_container.x.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 3ca99d6..dcd7a3a 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -386,14 +386,30 @@ namespace abc {
 	template <typename InputItr>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::insert(const_iterator itr, InputItr first, InputItr last) {
 		iterator ret(itr);
+		std::size_t item_count = 0;
 
 		for (InputItr item = first; item != last; item++) {
-			if (!insert(itr++, *item).can_deref()) {
+			// Iterators to other items are not stable across insert().
+			iterator next_itr(ret);
+			if (item_count > 0) {
+				next_itr++;
+			}
+
+			iterator inserted_itr = insert(next_itr, *item);
+			if (!inserted_itr.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x1044e, "vmem_container::insert() Breaking from the loop.");
 				}
 				break;
 			}
+
+			ret = inserted_itr;
+			item_count++;
+		}
+
+		// Go back to the first inserted item.
+		for (; item_count > 1; item_count--) {
+			ret--;
 		}
 
 		return ret;
-- 
2.43.0


From 26d2257663015f43de2dbbad25df70d226bf3ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 013/105] fix: vmem_container range erase must not rely on an
 iterator that erasing invalidates

---
 src/x/vmem_container.x.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index dcd7a3a..700bdda 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -732,9 +732,15 @@ namespace abc {
 
 	template <typename T, typename Header, typename Pool, typename Log>
 	inline typename vmem_container<T, Header, Pool, Log>::iterator vmem_container<T, Header, Pool, Log>::erase(const_iterator first, const_iterator last) {
+		// Erasing an item may move or remove the item at last. Count the items before erasing anything.
+		std::size_t item_count = 0;
+		for (iterator count_itr = first; count_itr != last && count_itr.can_deref(); count_itr++) {
+			item_count++;
+		}
+
 		iterator itr = first;
 
-		while (itr != last) {
+		for (; item_count > 0; item_count--) {
 			if (!itr.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x10464, "vmem_container::erase(first, last) Breaking from the loop.");
-- 
2.43.0


From 6e44603a00a69f272ca7c2f5c7f3316dcfd58261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 014/105] fix: vmem_map const find and contains must compile

---
 src/x/vmem_map.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 708a649..5a97d69 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -777,7 +777,7 @@ namespace abc {
 
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline typename vmem_map<Key, T, Pool, Log>::const_iterator vmem_map<Key, T, Pool, Log>::find(const Key& key) const noexcept {
-		return const_cast<vmem_map<Key, T, Pool, Log>>(this)->find(key);
+		return const_cast<vmem_map<Key, T, Pool, Log>*>(this)->find(key);
 	}
 
 
-- 
2.43.0


From c73bc1346ad489d21b0ed8ed5a0084643bbacedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 015/105] fix: vmem_map::find2 must not read past the items of
 a value page

---
 src/x/vmem_map.x.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 5a97d69..337c6a2 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -749,13 +749,13 @@ namespace abc {
 					item_pos++;
 				}
 
-				found = vmem_are_equal(value_page->items[item_pos].key, key);
+				found = item_pos < value_page->item_count && vmem_are_equal(value_page->items[item_pos].key, key);
 			}
 		}
 
 		result.ok = found;
 
-		if (page_pos != vmem_item_pos_nil && item_pos != vmem_item_pos_nil) {
+		if (page_pos != vmem_page_pos_nil && item_pos != vmem_item_pos_nil) {
 			result.iterator = iterator(this, page_pos, item_pos, vmem_iterator_edge::none, _log);
 		}
 
-- 
2.43.0


From d1ba06c6ff3dbe7f8e279ec607b72186427dc03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 016/105] fix: vmem_map must maintain key levels by page, and
 free the levels it drops

---
 src/i/vmem_map.i.h |  19 +++++--
 src/x/vmem_map.x.h | 120 +++++++++++++++++++++++++++++++--------------
 2 files changed, 97 insertions(+), 42 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index f4d02c7..0aae8ea 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -458,11 +458,22 @@ namespace abc {
 		result2 update_key_levels(bool is_insert, find_result2&& find_result, value_level_result2&& values_result) noexcept;
 
 		/**
-		 * @brief				Returns the position of a key on a key page.
-		 * @param key_page_pos	Key page position.
-		 * @param key			Key
+		 * @brief				Replaces the key that references a page, and the keys above it as long as it is the first one on its page.
+		 * @param key_stack_itr	Key level to start from.
+		 * @param path_itr		Path item to start from.
+		 * @param path_end		End of the path.
+		 * @param page_pos		Referenced page position.
+		 * @param key			New key.
+		 * @return				`true` = success; `false` = error.
 		 */
-		vmem_item_pos_t key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept;
+		bool replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, path_reverse_iterator path_end, vmem_page_pos_t page_pos, const Key& key) noexcept;
+
+		/**
+		 * @brief				Returns the position of the key item that references a page.
+		 * @param key_page_pos	Key page position to start from. Set to the position of the key page that contains the key item.
+		 * @param page_pos		Referenced page position.
+		 */
+		vmem_item_pos_t key_item_pos(vmem_page_pos_t& key_page_pos, vmem_page_pos_t page_pos) noexcept;
 
 	public:
 		/**
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 337c6a2..addbea2 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -433,14 +433,15 @@ namespace abc {
 					if (is_insert) {
 						// page_leads[0] - insert; new page
 						// page_leads[1] - original; used only when a new level is created
-						
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
+
+						// The new page goes right after the original page. The keys don't matter, because item 0 is never compared.
+						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].page_pos);
 						if (parent_item_pos == vmem_item_pos_nil) {
 							ok = false;
 							break;
 						}
 
-						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
+						key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos + 1, vmem_iterator_edge::none, _log);
 
 						vmem_map_key<Key> key_item;
 						vmem_copy(key_item.key, page_leads[0].items[0].key);
@@ -450,23 +451,21 @@ namespace abc {
 					}
 					else {
 						// page_leads[0] - replace or none; doesn't create new leads
-						// page_leads[1] - erase
+						// page_leads[1] - erase or none
 
-						if (page_leads[0].operation == vmem_container_page_lead_operation::replace) {
-							vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[0].items[0].key);
-							if (parent_item_pos == vmem_item_pos_nil) {
+						if (page_leads[0].operation == vmem_container_page_lead_operation::replace
+								&& (page_leads[1].operation == vmem_container_page_lead_operation::none || page_leads[1].page_pos != page_leads[0].page_pos)) {
+							if (!replace_key(key_stack_itr, path_itr, find_result.path.rbegin(), page_leads[0].page_pos, page_leads[0].items[1].key)) {
 								ok = false;
 								break;
 							}
+						}
 
-							key_level_iterator parent_keys_itr(&parent_keys, parent_page_pos, parent_item_pos, vmem_iterator_edge::none, _log);
-							if (parent_keys_itr.can_deref()) {
-								vmem_ptr<vmem_map_key<Key>, Pool, Log> key_ptr = parent_keys_itr.operator->();
-								vmem_copy(key_ptr->key, page_leads[0].items[1].key);
-							}
+						if (page_leads[1].operation == vmem_container_page_lead_operation::none) {
+							break;
 						}
 
-						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].items[0].key);
+						vmem_item_pos_t parent_item_pos = key_item_pos(parent_page_pos, page_leads[1].page_pos);
 						if (parent_item_pos == vmem_item_pos_nil) {
 							ok = false;
 							break;
@@ -518,17 +517,17 @@ namespace abc {
 						}
 					}
 					else {
-						if (!_key_stack.empty()) {
-							std::size_t top_keys_size = 2;
-							{
-								vmem_container_state top_keys_state = _key_stack.back();
-								vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
-								top_keys_size = top_keys.size();
-							}
+						// While the top level references a single page, it is not needed.
+						while (!_key_stack.empty()) {
+							vmem_container_state top_keys_state = _key_stack.back();
+							vmem_map_key_level<Key, Pool, Log> top_keys(&top_keys_state, _pool, _log);
 
-							if (top_keys_size == 1) {
-								_key_stack.pop_back();
+							if (top_keys.size() > 1) {
+								break;
 							}
+
+							top_keys.clear();
+							_key_stack.pop_back();
 						}
 					}
 
@@ -556,36 +555,81 @@ namespace abc {
 
 
 	template <typename Key, typename T, typename Pool, typename Log>
-	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t key_page_pos, const Key& key) noexcept {
+	inline bool vmem_map<Key, T, Pool, Log>::replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, path_reverse_iterator path_end, vmem_page_pos_t page_pos, const Key& key) noexcept {
+		// When the first key on a key page gets replaced, the key that references that page on the level above gets replaced too.
+		for (; key_stack_itr != _key_stack.end() && path_itr != path_end; key_stack_itr++, path_itr--) {
+			vmem_page_pos_t key_page_pos = *path_itr;
+			vmem_item_pos_t item_pos = key_item_pos(key_page_pos, page_pos);
+			if (item_pos == vmem_item_pos_nil) {
+				return false;
+			}
+
+			vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
+			if (page.ptr() == nullptr) {
+				return false;
+			}
+
+			vmem_copy(reinterpret_cast<vmem_map_key_page<Key>*>(page.ptr())->items[item_pos].key, key);
+
+			if (item_pos != 0) {
+				break;
+			}
+
+			page_pos = key_page_pos;
+		}
+
+		return true;
+	}
+
+
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline vmem_item_pos_t vmem_map<Key, T, Pool, Log>::key_item_pos(vmem_page_pos_t& key_page_pos, vmem_page_pos_t page_pos) noexcept {
 		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10525, "vmem_map::key_item_pos() Start. key_page_pos=0x%llx..., key=0x%llx...",
-				(long long)key_page_pos, *(long long*)&key);
+			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10525, "vmem_map::key_item_pos() Start. key_page_pos=0x%llx, page_pos=0x%llx",
+				(long long)key_page_pos, (long long)page_pos);
 		}
 
+		// A sibling of the page that was found may be referenced from a sibling key page.
+		// Look at key_page_pos first, then at the key pages after it, and finally at the key pages before it.
 		vmem_item_pos_t item_pos = vmem_item_pos_nil;
-		vmem_page<Pool, Log> page(_pool, key_page_pos, _log);
+		vmem_page_pos_t first_key_page_pos = key_page_pos;
+		vmem_page_pos_t other_key_page_pos = key_page_pos;
+		bool forward = true;
 
-		if (page.ptr() == nullptr) {
-			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::warning, 0x10526, "vmem_map::key_item_pos() Could not load key page pos=0x%llx", (long long)key_page_pos);
+		while (item_pos == vmem_item_pos_nil && other_key_page_pos != vmem_page_pos_nil) {
+			vmem_page<Pool, Log> page(_pool, other_key_page_pos, _log);
+
+			if (page.ptr() == nullptr) {
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::warning, 0x10526, "vmem_map::key_item_pos() Could not load key page pos=0x%llx", (long long)other_key_page_pos);
+				}
+
+				break;
 			}
-		}
-		else {
+
 			vmem_map_key_page<Key>* key_page = reinterpret_cast<vmem_map_key_page<Key>*>(page.ptr());
 
-			item_pos = 0;
-			for (std::size_t i = 0; i < key_page->item_count && vmem_is_less(key_page->items[i].key, key); i++) {
-				if (_log != nullptr) {
-					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10527, "vmem_map::key_item_pos() item[%zu]=0x%llx..., key=0x%llx...",
-						i, *(long long*)&key_page->items[i].key, *(long long*)&key);
+			for (std::size_t i = 0; i < key_page->item_count; i++) {
+				if (key_page->items[i].page_pos == page_pos) {
+					key_page_pos = other_key_page_pos;
+					item_pos = (vmem_item_pos_t)i;
+					break;
 				}
+			}
 
-				item_pos++;
+			other_key_page_pos = forward ? key_page->next_page_pos : key_page->prev_page_pos;
+
+			if (forward && other_key_page_pos == vmem_page_pos_nil && item_pos == vmem_item_pos_nil) {
+				forward = false;
+				vmem_page<Pool, Log> first_page(_pool, first_key_page_pos, _log);
+				if (first_page.ptr() != nullptr) {
+					other_key_page_pos = reinterpret_cast<vmem_map_key_page<Key>*>(first_page.ptr())->prev_page_pos;
+				}
 			}
 		}
 
 		if (_log != nullptr) {
-			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10528, "vmem_map::key_item_pos() Done. item_pos=0x%x", item_pos);
+			_log->put_any(category::abc::vmem, severity::abc::debug, 0x10528, "vmem_map::key_item_pos() Done. key_page_pos=0x%llx, item_pos=0x%x", (long long)key_page_pos, item_pos);
 		}
 
 		return item_pos;
-- 
2.43.0


From a776b49ad314de4de03721bb30ec7418507e2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 017/105] fix: vmem_map range insert must not stop at a
 duplicate key

---
 src/x/vmem_map.x.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index addbea2..7e9fb8a 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -295,7 +295,8 @@ namespace abc {
 	template <typename InputItr>
 	inline void vmem_map<Key, T, Pool, Log>::insert(InputItr first, InputItr last) {
 		for (InputItr item_itr = first; item_itr != last; item_itr++) {
-			if (!insert(*item_itr).second) {
+			// An item whose key is already present doesn't stop the sequence.
+			if (!insert(*item_itr).first.can_deref()) {
 				if (_log != nullptr) {
 					_log->put_any(category::abc::vmem, severity::important, 0x10518, "vmem_map::insert() Breaking from the loop.");
 				}
-- 
2.43.0


From fbd7de9f465b62b1828298f44c7e70dfa7411acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 018/105] fix: vmem_container must not overflow a full
 single-item page when inserting after its item

---
 src/x/vmem_container.x.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 700bdda..8a5d7a4 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -520,7 +520,8 @@ namespace abc {
 
 		// Decide whether we should balance before we alter container_page.
 		// Inserting in front of an item on a full page is not possible without a split.
-		bool balance = itr.item_pos() != vmem_item_pos_nil || (page_capacity() > 1 && should_balance_insert(itr, container_page));
+		bool is_inner = itr.item_pos() != vmem_item_pos_nil && (page_capacity() > 1 || itr.item_pos() == 0);
+		bool balance = is_inner || (page_capacity() > 1 && should_balance_insert(itr, container_page));
 
 		vmem_page<Pool, Log> new_page(nullptr);
 		vmem_container_page<T, Header>* new_container_page = nullptr;
@@ -531,13 +532,13 @@ namespace abc {
 				balance_split(itr.page_pos(), container_page, new_page.pos(), new_container_page);
 			}
 
-			if (itr.item_pos() != vmem_item_pos_nil && itr.item_pos() <= container_page->item_count) {
+			if (is_inner && itr.item_pos() <= container_page->item_count) {
 				// Inserting to the former page.
 				result = insert_with_capacity(itr, item, container_page);
 			}
 			else {
 				// Inserting to the latter page.
-				vmem_container_iterator<T, Header, Pool, Log> new_itr(this, new_page.pos(), itr.item_pos() != vmem_item_pos_nil ? itr.item_pos() - container_page->item_count : new_container_page->item_count, vmem_iterator_edge::none, _log);
+				vmem_container_iterator<T, Header, Pool, Log> new_itr(this, new_page.pos(), is_inner ? itr.item_pos() - container_page->item_count : new_container_page->item_count, vmem_iterator_edge::none, _log);
 				result = insert_with_capacity(new_itr, item, new_container_page);
 			}
 
-- 
2.43.0


From e61852ecf07dada035d16828f9fd31e4196da605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 019/105] fix: vmem_string stream must not confuse bytes with
 end-of-stream, or miss appended bytes

---
 src/x/vmem_string.x.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 548aa61..817baf5 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -70,30 +70,37 @@ namespace abc {
 
     template <typename Char, typename Pool, typename Log>
 	inline typename std::basic_streambuf<Char>::int_type vmem_basic_string_streambuf<Char, Pool, Log>::underflow() {
-		if (_get_itr == nullptr) {
-			_get_itr = _string->begin();
+		// _get_itr points at the char that was read last, so that chars that get appended later are not missed.
+		Iterator itr = _get_itr;
+		if (itr == nullptr) {
+			itr = _string->begin();
+		}
+		else {
+			itr++;
 		}
 
-		if (!_get_itr.can_deref())
+		if (!itr.can_deref())
 		{
 			return std::char_traits<Char>::eof();
 		}
 
-		_get_ch = *_get_itr++;
+		_get_itr = itr;
+		_get_ch = *itr;
 
 		base::setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return std::char_traits<Char>::to_int_type(_get_ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
 	inline typename std::basic_streambuf<Char>::int_type vmem_basic_string_streambuf<Char, Pool, Log>::overflow(typename base::int_type ch) {
-		_string->push_back(_put_ch);
-		_string->push_back(ch);
+		sync();
 
-		base::setp(&_put_ch, &_put_ch + 1);
+		if (!std::char_traits<Char>::eq_int_type(ch, std::char_traits<Char>::eof())) {
+			_string->push_back(std::char_traits<Char>::to_char_type(ch));
+		}
 
-		return ch;
+		return std::char_traits<Char>::not_eof(ch);
 	}
 
     template <typename Char, typename Pool, typename Log>
-- 
2.43.0


From 722355a48370d280144e03e5c0fe1bfa328ab722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 020/105] fix: moving a vmem_string stream buffer must keep its
 pending bytes

---
 src/x/vmem_string.x.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/x/vmem_string.x.h b/src/x/vmem_string.x.h
index 817baf5..77d2462 100644
--- a/src/x/vmem_string.x.h
+++ b/src/x/vmem_string.x.h
@@ -57,8 +57,11 @@ namespace abc {
 		, _get_itr(std::move(other._get_itr))
 		, _get_ch(other._get_ch)
 		, _put_ch(other._put_ch) {
-		base::setg(&_get_ch, &_get_ch + 1, &_get_ch + 1);
+		base::setg(&_get_ch, other.gptr() != other.egptr() ? &_get_ch : &_get_ch + 1, &_get_ch + 1);
 		base::setp(&_put_ch, &_put_ch + 1);
+		if (other.pptr() != other.pbase()) {
+			base::pbump(1);
+		}
 
 		other._string = nullptr;
 		other._log = nullptr;
-- 
2.43.0


From a43990c56976bc04835202188da3c63f450b76aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 021/105] fix: json_istream must not loop forever on a string
 that doesn't end

---
 src/json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json.h b/src/json.h
index 102102c..1ac18af 100644
--- a/src/json.h
+++ b/src/json.h
@@ -390,6 +390,11 @@ namespace abc {
 						buffer[gcount++] = ech;
 					}
 				}
+				else {
+					// The content has stopped, because the stream has ended or the buffer is full.
+					base::set_bad();
+					break;
+				}
 			}
 		}
 
-- 
2.43.0


From e81ce2d19866d4edf427aefe1288e644d312270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 022/105] fix: json_istream must not write a string beyond the
 caller's buffer

---
 src/json.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/json.h b/src/json.h
index 1ac18af..b5371a4 100644
--- a/src/json.h
+++ b/src/json.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <cstddef>
 #include <cstdlib>
 #include <cstdio>
 
@@ -213,7 +214,7 @@ namespace abc {
 
 		if (state::expect_property()) {
 			if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.property : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::property;
 
@@ -284,7 +285,7 @@ namespace abc {
 				gcount += sizeof(double);
 			}
 			else if (ch == '"') {
-				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - gcount);
+				gcount += get_or_skip_string(buffer != nullptr ? buffer->value.string : nullptr, size - offsetof(json::token_t, value));
 				if (base::is_good()) {
 					item = json::item::string;
 				}
@@ -387,6 +388,11 @@ namespace abc {
 				else if (ch == '\\') {
 					char ech = get_escaped_char();
 					if (buffer != nullptr) {
+						// Always leave room for the terminating '\0'.
+						if (gcount + 1 >= size) {
+							base::set_bad();
+							break;
+						}
 						buffer[gcount++] = ech;
 					}
 				}
-- 
2.43.0


From cd870b2772593d1f4a55675f3e09bc92de94a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 023/105] fix: json_istream must read exactly 4 hex digits of
 an escape sequence, and reject unknown ones

---
 src/json.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index b5371a4..75f8e61 100644
--- a/src/json.h
+++ b/src/json.h
@@ -529,7 +529,11 @@ namespace abc {
 
 				char buffer[4 + 1];
 
-				std::size_t gcount = get_hex(buffer, sizeof(buffer));
+				// Exactly 4 digits. A hex digit that follows belongs to the string.
+				std::size_t gcount = 0;
+				while (gcount < 4 && ascii::is_hex(peek_char())) {
+					buffer[gcount++] = base::get();
+				}
 
 				if (gcount != 4) {
 					if (log_local != nullptr) {
@@ -551,6 +555,10 @@ namespace abc {
 					ch = '\0';
 				}
 			}
+			else {
+				base::set_bad();
+				ch = '\0';
+			}
 		}
 		else {
 			if (log_local != nullptr) {
-- 
2.43.0


From f3b152a5e1a6a2d54e8bfbc875f9513feea6f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 024/105] fix: json_istream must not write beyond its number
 buffer, and must require digits

---
 src/json.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/json.h b/src/json.h
index 75f8e61..9178b5e 100644
--- a/src/json.h
+++ b/src/json.h
@@ -431,17 +431,27 @@ namespace abc {
 			digits[gcount++] = base::get();
 		}
 
-		gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+		std::size_t dcount = get_digits(digits + gcount, sizeof(digits) - gcount);
+		base::set_bad_if(dcount == 0);
+		gcount += dcount;
 
 		ch = peek_char();
-		if (ch == '.') {
+		if (ch == '.' && gcount == sizeof(digits) - 1) {
+			base::set_fail();
+		}
+		else if (ch == '.') {
 			digits[gcount++] = base::get();
 
-			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+			dcount = get_digits(digits + gcount, sizeof(digits) - gcount);
+			base::set_bad_if(dcount == 0);
+			gcount += dcount;
 		}
 
 		ch = peek_char();
-		if (ch == 'e' || ch == 'E') {
+		if ((ch == 'e' || ch == 'E') && gcount + 1 >= sizeof(digits) - 1) {
+			base::set_fail();
+		}
+		else if (ch == 'e' || ch == 'E') {
 			digits[gcount++] = base::get();
 
 			ch = peek_char();
@@ -449,7 +459,9 @@ namespace abc {
 				digits[gcount++] = base::get();
 			}
 
-			gcount += get_digits(digits + gcount, sizeof(digits) - gcount);
+			dcount = get_digits(digits + gcount, sizeof(digits) - gcount);
+			base::set_bad_if(dcount == 0);
+			gcount += dcount;
 		}
 
 		digits[gcount] = '\0';
-- 
2.43.0


From 319c73e8d1976ba0309d31cd6484cfc53e6f2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 025/105] fix: json_istream::skip_value must stop when the
 stream fails

---
 src/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index 9178b5e..abd0151 100644
--- a/src/json.h
+++ b/src/json.h
@@ -186,7 +186,7 @@ namespace abc {
 		do {
 			item = get_or_skip_token(nullptr, 0);
 		}
-		while (state::levels() > base_levels);
+		while (!base::fail() && state::levels() > base_levels);
 
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::json, severity::abc::optional, 0x10102, "json_istream::skip_value() <<< item=%4.4x", item);
-- 
2.43.0


From 8be2f4111f013395d1a8afb48fd3eddd1ca68058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 026/105] fix: json_istream must not report a token it failed
 to read

---
 src/json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json.h b/src/json.h
index abd0151..158d108 100644
--- a/src/json.h
+++ b/src/json.h
@@ -350,6 +350,11 @@ namespace abc {
 			}
 		}
 
+		// A token that has not been read completely, or is not allowed there, must not be reported.
+		if (base::fail()) {
+			item = json::item::none;
+		}
+
 		base::set_gcount(gcount);
 
 		if (log_local != nullptr) {
-- 
2.43.0


From 0b0da4cbd5d71a1f989ceafe985dfdf64756923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 027/105] fix: json_ostream must write numbers that read back
 as the same value

---
 src/json.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json.h b/src/json.h
index 158d108..3aa5d36 100644
--- a/src/json.h
+++ b/src/json.h
@@ -855,6 +855,10 @@ namespace abc {
 
 		char literal[19 + 6 + 1];
 		std::size_t size = std::snprintf(literal, sizeof(literal), "%.16lg", value);
+		if (std::strtod(literal, nullptr) != value) {
+			// 16 digits are not enough to read the same value back.
+			size = std::snprintf(literal, sizeof(literal), "%.17lg", value);
+		}
 
 		put_chars(literal, size);
 
-- 
2.43.0


From 73203196712acdc8e9e2af193516725cbec8ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 028/105] fix: json_ostream must not write infinity or NaN

---
 src/json.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/json.h b/src/json.h
index 3aa5d36..ba96336 100644
--- a/src/json.h
+++ b/src/json.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <cmath>
 #include <cstddef>
 #include <cstdlib>
 #include <cstdio>
@@ -849,6 +850,12 @@ namespace abc {
 			return;
 		}
 
+		// JSON has no representation for infinity and NaN.
+		if (!std::isfinite(value)) {
+			base::set_bad();
+			return;
+		}
+
 		if (state::levels() > 0 && state::top_level() == json::level::array && !_skip_comma) {
 			put_chars(",", 1);
 		}
-- 
2.43.0


From dab73d533bb6dac9424e7e9807c444b949e7feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 029/105] fix: json_ostream must escape strings and property
 names

---
 src/i/json.i.h | 917 +++++++++++++++++++++++++------------------------
 src/json.h     |  25 +-
 2 files changed, 485 insertions(+), 457 deletions(-)

diff --git a/src/i/json.i.h b/src/i/json.i.h
index 59c4a11..af5b3cc 100644
--- a/src/i/json.i.h
+++ b/src/i/json.i.h
@@ -1,455 +1,462 @@
-/*
-MIT License
-
-Copyright (c) 2018-2023 Zlatko Michailov 
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*/
-
-
-#pragma once
-
-#include <cstddef>
-#include <streambuf>
-#include <istream>
-#include <ostream>
-#include <bitset>
-
-#include "stream.i.h"
-#include "log.i.h"
-
-
-namespace abc {
-
-	namespace json {
-		using item_t = std::uint16_t;
-
-		namespace item {
-			constexpr item_t none			= 0x0000;
-
-			constexpr item_t null			= 0x0001;
-			constexpr item_t boolean		= 0x0002;
-			constexpr item_t number			= 0x0004;
-			constexpr item_t string			= 0x0008;
-			constexpr item_t begin_array	= 0x0010;
-			constexpr item_t end_array		= 0x0020;
-			constexpr item_t begin_object	= 0x0040;
-			constexpr item_t end_object		= 0x0080;
-			constexpr item_t property		= 0x0100;
-		}
-
-
-		/**
-		 * @brief			JSON value union.
-		 */
-		union value_t {
-			bool	boolean;
-			double	number;
-			char	string[1];
-			char	property[1];
-		};
-		
-		/**
-		 * @brief			JSON token.
-		 */
-		struct token_t {
-			item_t	item;
-			value_t	value;
-		};
-
-
-		using level_t = bool;
-
-		namespace level {
-			constexpr level_t	array	= false;
-			constexpr level_t	object	= true;
-		}
-	}
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				Internal. State keeper.
-	 * @tparam MaxLevels	Maximum levels of nesting. Needed to define the stack.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels, typename Log>
-	class json_state {
-	protected:
-		/**
-		 * @brief			Constructor.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_state(Log* log);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_state(json_state&& other) = default;
-
-		/**
-		 * @brief			Copy constructor.
-		 */
-		json_state(const json_state& other) = default;
-
-	public:
-		/**
-		 * @brief			Returns the current number of nesting levels.
-		 */
-		std::size_t levels() const noexcept;
-
-		/**
-		 * @brief			Returns the current nesting level - object or array.
-		 */
-		json::level_t top_level() const noexcept;
-
-	protected:
-		/**
-		 * @brief			Resets the state.
-		 */
-		void reset() noexcept;
-
-		/**
-		 * @brief			Returns whether a property name is expected.
-		 */
-		bool expect_property() const noexcept;
-
-		/**
-		 * @brief			Sets whether a property name is expected.
-		 */
-		void set_expect_property(bool expect) noexcept;
-
-		/**
-		 * @brief			Pushes a nesting level into the stack.
-		 * @param level		Level - object or array.
-		 * @return			true = success. false = error. 
-		 */
-		bool push_level(json::level_t level) noexcept;
-
-		/**
-		 * @brief			Checks whether the nesting level at the top matches the given one, and pops it from the stack.
-		 * @param level		Level - object or array.
-		 * @return			true = success. false = error.
-		 */
-		bool pop_level(json::level_t level) noexcept;
-
-		/**
-		 * @brief			Returns the Log pointer.
-		 */
-		Log* log() const noexcept;
-
-	private:
-		/**
-		 * @brief			Flag whether a property name is expected.
-		 */
-		bool _expect_property;
-
-		/**
-		 * @brief			Current top position on the stack.
-		 */
-		std::size_t _level_top;
-
-		/**
-		 * @brief			Nesting level stack.
-		 */
-		std::bitset<MaxLevels> _level_stack;
-
-		/**
-		 * @brief			The log passed in to the constructor.
-		 */
-		Log* _log;
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				JSON input stream.
-	 * @tparam MaxLevels	Maximum nesting levels - object/array.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
-	class json_istream : public istream, public json_state<MaxLevels, Log> {
-		using base  = istream;
-		using state = json_state<MaxLevels, Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_istream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_istream(json_istream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		json_istream(const json_istream& other) = delete;
-
-	public:
-		/**
-		 * @brief			Reads a JSON token from the stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_token(json::token_t* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a JSON value from the stream.
-		 * @return			The type of value skipped.
-		 */
-		json::item_t skip_value();
-
-	protected:
-		/**
-		 * @brief			Gets or skips a JSON token from the stream.
-		 * @param buffer	If `nullptr`, the next token will be skipped. Otherwise, the next token will be copied to  the buffer.
-		 * @param size		Buffer size.
-		 * @return			The type of token.
-		 */
-		json::item_t get_or_skip_token(json::token_t* buffer, std::size_t size);
-
-		/**
-		 * @brief			Gets or skips a JSON number from the stream.
-		 * @param buffer	If `nullptr`, the next number will be skipped. Otherwise, the next number will be copied to the buffer.
-		 */
-		void get_or_skip_number(double* buffer);
-
-		/**
-		 * @brief			Gets or skips a JSON string from the stream.
-		 * @param buffer	If `nullptr`, the next string will be skipped. Otherwise, the next string will be copied to the buffer.
-		 * @param size		Buffer size.
-		 * @return			The length of the string.
-		 */
-		std::size_t get_or_skip_string(char* buffer, std::size_t size);
-
-	protected:
-		/**
-		 * @brief			Reads the specified literal (any sequence of chars) from the stream.
-		 * @details			If the input does not match exactly, the "bad" flag on the stream is set.
-		 * @param literal	Sequence of chars.
-		 */
-		void get_literal(const char* literal);
-
-		/**
-		 * @brief			Reads an escape char. Note: For `\u????` escape sequences, only `\u00??` are supported.
-		 * @return			The char.
-		 */
-		char get_escaped_char();
-
-		/**
-		 * @brief			Gets or skips the inner part of a string.
-		 * @param buffer	If `nullptr` the content is skipped. Otherwise, the content is copied to the buffer.
-		 * @param size		Buffer size.
-		 * @return			The length of the content read. 
-		 */
-		std::size_t get_or_skip_string_content(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Read a hexadecimal number from the stream and copies it to the buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_hex(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Read a decimal number from the stream and copies it to the buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_digits(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a sequence of spaces from the stream.
-		 * @return			Number of chars skipped.
-		 */
-		std::size_t skip_spaces();
-
-		/**
-		 * @brief			Reads a sequence of chars that match a predicate and copies it to the buffer.
-		 * @param predicate	Predicate.
-		 * @param buffer	Buffer
-		 * @param size		Buffer size.
-		 * @return			Number of chars read.
-		 */
-		std::size_t get_chars(CharPredicate&& predicate, char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a sequence of chars that match a predicate.
-		 * @param predicate	Predicate.
-		 * @return			Number of chars read.
-		 */
-		std::size_t skip_chars(CharPredicate&& predicate);
-
-		/**
-		 * @brief			Reads a char from the stream.
-		 * @return			The char read.
-		 */
-		char get_char();
-
-		/**
-		 * @brief			Returns the next char from the stream without advancing.
-		 */
-		char peek_char();
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				JSON output stream.
-	 * @tparam MaxLevels	Maximum nesting levels - object/array.
-	 * @tparam Log			Logging facility.
-	 */
-	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
-	class json_ostream : public ostream, public json_state<MaxLevels, Log> {
-		using base  = ostream;
-		using state = json_state<MaxLevels, Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		json_ostream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		json_ostream(json_ostream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		json_ostream(const json_ostream& other) = delete;
-
-	public:
-		/**
-		 * @brief			Writes a JSON token to the stream from the buffer.
-		 * @param buffer	Buffer.
-		 * @param size		Content size.
-		 */
-		void put_token(const json::token_t* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes a space to the stream.
-		 */
-		void put_space();
-
-		/**
-		 * @brief			Writes a tab to the stream.
-		 */
-		void put_tab();
-
-		/**
-		 * @brief			Writes a CR to the stream.
-		 */
-		void put_cr();
-
-		/**
-		 * @brief			Writes a LF to the stream.
-		 */
-		void put_lf();
-
-		/**
-		 * @brief			Writes `null` to the stream.
-		 */
-		void put_null();
-
-		/**
-		 * @brief			Writes a boolean value to the stream.
-		 * @param value		The value to write.
-		 */
-		void put_boolean(bool value);
-
-		/**
-		 * @brief			Writes a number value to the stream.
-		 * @param value		The value to write.
-		 */
-		void put_number(double value);
-
-		/**
-		 * @brief			Writes a string value to the stream.
-		 * @param buffer	The string to write.
-		 * @param size		String length.
-		 */
-		void put_string(const char* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes a property name to the stream.
-		 * @param buffer	The property name to write.
-		 * @param size		Property name length.
-		 */
-		void put_property(const char* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes `[` to the stream.
-		 */
-		void put_begin_array();
-
-		/**
-		 * @brief			Writes `]` to the stream.
-		 */
-		void put_end_array();
-
-		/**
-		 * @brief			Writes `{` to the stream.
-		 */
-		void put_begin_object();
-
-		/**
-		 * @brief			Writes `}` to the stream.
-		 */
-		void put_end_object();
-
-	public:
-		/**
-		 * @brief			Writes a sequence of chars to the stream.
-		 * @param buffer	The sequence to write.
-		 * @param size		Sequence length.
-		 */
-		std::size_t put_chars(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a char to the stream.
-		 * @param ch		Char to write.
-		 * @return			1 = success. 0 = error.
-		 */
-		std::size_t put_char(char ch);
-
-	private:
-		/**
-		 * @brief			State flag whether comma `,` should be written before the next value. true = skip. false = write.
-		 */
-		bool _skip_comma;
-	};
-
-}
-
+/*
+MIT License
+
+Copyright (c) 2018-2023 Zlatko Michailov 
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*/
+
+
+#pragma once
+
+#include <cstddef>
+#include <streambuf>
+#include <istream>
+#include <ostream>
+#include <bitset>
+
+#include "stream.i.h"
+#include "log.i.h"
+
+
+namespace abc {
+
+	namespace json {
+		using item_t = std::uint16_t;
+
+		namespace item {
+			constexpr item_t none			= 0x0000;
+
+			constexpr item_t null			= 0x0001;
+			constexpr item_t boolean		= 0x0002;
+			constexpr item_t number			= 0x0004;
+			constexpr item_t string			= 0x0008;
+			constexpr item_t begin_array	= 0x0010;
+			constexpr item_t end_array		= 0x0020;
+			constexpr item_t begin_object	= 0x0040;
+			constexpr item_t end_object		= 0x0080;
+			constexpr item_t property		= 0x0100;
+		}
+
+
+		/**
+		 * @brief			JSON value union.
+		 */
+		union value_t {
+			bool	boolean;
+			double	number;
+			char	string[1];
+			char	property[1];
+		};
+		
+		/**
+		 * @brief			JSON token.
+		 */
+		struct token_t {
+			item_t	item;
+			value_t	value;
+		};
+
+
+		using level_t = bool;
+
+		namespace level {
+			constexpr level_t	array	= false;
+			constexpr level_t	object	= true;
+		}
+	}
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				Internal. State keeper.
+	 * @tparam MaxLevels	Maximum levels of nesting. Needed to define the stack.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels, typename Log>
+	class json_state {
+	protected:
+		/**
+		 * @brief			Constructor.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_state(Log* log);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_state(json_state&& other) = default;
+
+		/**
+		 * @brief			Copy constructor.
+		 */
+		json_state(const json_state& other) = default;
+
+	public:
+		/**
+		 * @brief			Returns the current number of nesting levels.
+		 */
+		std::size_t levels() const noexcept;
+
+		/**
+		 * @brief			Returns the current nesting level - object or array.
+		 */
+		json::level_t top_level() const noexcept;
+
+	protected:
+		/**
+		 * @brief			Resets the state.
+		 */
+		void reset() noexcept;
+
+		/**
+		 * @brief			Returns whether a property name is expected.
+		 */
+		bool expect_property() const noexcept;
+
+		/**
+		 * @brief			Sets whether a property name is expected.
+		 */
+		void set_expect_property(bool expect) noexcept;
+
+		/**
+		 * @brief			Pushes a nesting level into the stack.
+		 * @param level		Level - object or array.
+		 * @return			true = success. false = error. 
+		 */
+		bool push_level(json::level_t level) noexcept;
+
+		/**
+		 * @brief			Checks whether the nesting level at the top matches the given one, and pops it from the stack.
+		 * @param level		Level - object or array.
+		 * @return			true = success. false = error.
+		 */
+		bool pop_level(json::level_t level) noexcept;
+
+		/**
+		 * @brief			Returns the Log pointer.
+		 */
+		Log* log() const noexcept;
+
+	private:
+		/**
+		 * @brief			Flag whether a property name is expected.
+		 */
+		bool _expect_property;
+
+		/**
+		 * @brief			Current top position on the stack.
+		 */
+		std::size_t _level_top;
+
+		/**
+		 * @brief			Nesting level stack.
+		 */
+		std::bitset<MaxLevels> _level_stack;
+
+		/**
+		 * @brief			The log passed in to the constructor.
+		 */
+		Log* _log;
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				JSON input stream.
+	 * @tparam MaxLevels	Maximum nesting levels - object/array.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
+	class json_istream : public istream, public json_state<MaxLevels, Log> {
+		using base  = istream;
+		using state = json_state<MaxLevels, Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_istream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_istream(json_istream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		json_istream(const json_istream& other) = delete;
+
+	public:
+		/**
+		 * @brief			Reads a JSON token from the stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_token(json::token_t* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a JSON value from the stream.
+		 * @return			The type of value skipped.
+		 */
+		json::item_t skip_value();
+
+	protected:
+		/**
+		 * @brief			Gets or skips a JSON token from the stream.
+		 * @param buffer	If `nullptr`, the next token will be skipped. Otherwise, the next token will be copied to  the buffer.
+		 * @param size		Buffer size.
+		 * @return			The type of token.
+		 */
+		json::item_t get_or_skip_token(json::token_t* buffer, std::size_t size);
+
+		/**
+		 * @brief			Gets or skips a JSON number from the stream.
+		 * @param buffer	If `nullptr`, the next number will be skipped. Otherwise, the next number will be copied to the buffer.
+		 */
+		void get_or_skip_number(double* buffer);
+
+		/**
+		 * @brief			Gets or skips a JSON string from the stream.
+		 * @param buffer	If `nullptr`, the next string will be skipped. Otherwise, the next string will be copied to the buffer.
+		 * @param size		Buffer size.
+		 * @return			The length of the string.
+		 */
+		std::size_t get_or_skip_string(char* buffer, std::size_t size);
+
+	protected:
+		/**
+		 * @brief			Reads the specified literal (any sequence of chars) from the stream.
+		 * @details			If the input does not match exactly, the "bad" flag on the stream is set.
+		 * @param literal	Sequence of chars.
+		 */
+		void get_literal(const char* literal);
+
+		/**
+		 * @brief			Reads an escape char. Note: For `\u????` escape sequences, only `\u00??` are supported.
+		 * @return			The char.
+		 */
+		char get_escaped_char();
+
+		/**
+		 * @brief			Gets or skips the inner part of a string.
+		 * @param buffer	If `nullptr` the content is skipped. Otherwise, the content is copied to the buffer.
+		 * @param size		Buffer size.
+		 * @return			The length of the content read. 
+		 */
+		std::size_t get_or_skip_string_content(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Read a hexadecimal number from the stream and copies it to the buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_hex(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Read a decimal number from the stream and copies it to the buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_digits(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a sequence of spaces from the stream.
+		 * @return			Number of chars skipped.
+		 */
+		std::size_t skip_spaces();
+
+		/**
+		 * @brief			Reads a sequence of chars that match a predicate and copies it to the buffer.
+		 * @param predicate	Predicate.
+		 * @param buffer	Buffer
+		 * @param size		Buffer size.
+		 * @return			Number of chars read.
+		 */
+		std::size_t get_chars(CharPredicate&& predicate, char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a sequence of chars that match a predicate.
+		 * @param predicate	Predicate.
+		 * @return			Number of chars read.
+		 */
+		std::size_t skip_chars(CharPredicate&& predicate);
+
+		/**
+		 * @brief			Reads a char from the stream.
+		 * @return			The char read.
+		 */
+		char get_char();
+
+		/**
+		 * @brief			Returns the next char from the stream without advancing.
+		 */
+		char peek_char();
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				JSON output stream.
+	 * @tparam MaxLevels	Maximum nesting levels - object/array.
+	 * @tparam Log			Logging facility.
+	 */
+	template <std::size_t MaxLevels = size::_64, typename Log = null_log>
+	class json_ostream : public ostream, public json_state<MaxLevels, Log> {
+		using base  = ostream;
+		using state = json_state<MaxLevels, Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		json_ostream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		json_ostream(json_ostream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		json_ostream(const json_ostream& other) = delete;
+
+	public:
+		/**
+		 * @brief			Writes a JSON token to the stream from the buffer.
+		 * @param buffer	Buffer.
+		 * @param size		Content size.
+		 */
+		void put_token(const json::token_t* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes a space to the stream.
+		 */
+		void put_space();
+
+		/**
+		 * @brief			Writes a tab to the stream.
+		 */
+		void put_tab();
+
+		/**
+		 * @brief			Writes a CR to the stream.
+		 */
+		void put_cr();
+
+		/**
+		 * @brief			Writes a LF to the stream.
+		 */
+		void put_lf();
+
+		/**
+		 * @brief			Writes `null` to the stream.
+		 */
+		void put_null();
+
+		/**
+		 * @brief			Writes a boolean value to the stream.
+		 * @param value		The value to write.
+		 */
+		void put_boolean(bool value);
+
+		/**
+		 * @brief			Writes a number value to the stream.
+		 * @param value		The value to write.
+		 */
+		void put_number(double value);
+
+		/**
+		 * @brief			Writes a string value to the stream.
+		 * @param buffer	The string to write.
+		 * @param size		String length.
+		 */
+		void put_string(const char* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes a property name to the stream.
+		 * @param buffer	The property name to write.
+		 * @param size		Property name length.
+		 */
+		void put_property(const char* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes `[` to the stream.
+		 */
+		void put_begin_array();
+
+		/**
+		 * @brief			Writes `]` to the stream.
+		 */
+		void put_end_array();
+
+		/**
+		 * @brief			Writes `{` to the stream.
+		 */
+		void put_begin_object();
+
+		/**
+		 * @brief			Writes `}` to the stream.
+		 */
+		void put_end_object();
+
+	public:
+		/**
+		 * @brief			Writes a sequence of chars to the stream.
+		 * @param buffer	The sequence to write.
+		 * @param size		Sequence length.
+		 */
+		std::size_t put_chars(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes the content of a string or a property name to the stream. Escapes the chars that may not appear verbatim.
+		 * @param buffer	Content.
+		 * @param size		Content length.
+		 */
+		void put_string_content(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a char to the stream.
+		 * @param ch		Char to write.
+		 * @return			1 = success. 0 = error.
+		 */
+		std::size_t put_char(char ch);
+
+	private:
+		/**
+		 * @brief			State flag whether comma `,` should be written before the next value. true = skip. false = write.
+		 */
+		bool _skip_comma;
+	};
+
+}
+
diff --git a/src/json.h b/src/json.h
index ba96336..e5ce1df 100644
--- a/src/json.h
+++ b/src/json.h
@@ -895,7 +895,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\"", 1);
 
 		_skip_comma = false;
@@ -924,7 +924,7 @@ namespace abc {
 		}
 
 		put_chars("\"", 1);
-		put_chars(buffer, size);
+		put_string_content(buffer, size);
 		put_chars("\":", 2);
 
 		_skip_comma = true;
@@ -1051,6 +1051,27 @@ namespace abc {
 	}
 
 
+	template <std::size_t MaxLevels, typename Log>
+	inline void json_ostream<MaxLevels, Log>::put_string_content(const char* buffer, std::size_t size) {
+		for (std::size_t i = 0; i < size; i++) {
+			char ch = buffer[i];
+
+			if (ch == '"' || ch == '\\') {
+				char escaped[] = { '\\', ch };
+				put_chars(escaped, 2);
+			}
+			else if (static_cast<unsigned char>(ch) < 0x20) {
+				char escaped[6 + 1];
+				std::snprintf(escaped, sizeof(escaped), "\\u%4.4x", ch);
+				put_chars(escaped, 6);
+			}
+			else {
+				put_chars(&ch, 1);
+			}
+		}
+	}
+
+
 	template <std::size_t MaxLevels, typename Log>
 	inline std::size_t json_ostream<MaxLevels, Log>::put_char(char ch) {
 		if (base::is_good()) {
-- 
2.43.0


From 0c6757d1b586929f1fee18bceacf21c91a188d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 030/105] fix: json_ostream must not write brackets it refuses

---
 src/json.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/json.h b/src/json.h
index e5ce1df..56c810b 100644
--- a/src/json.h
+++ b/src/json.h
@@ -944,6 +944,11 @@ namespace abc {
 			return;
 		}
 
+		if (state::levels() == MaxLevels) {
+			base::set_bad();
+			return;
+		}
+
 		if (state::levels() > 0 && state::top_level() == json::level::array && !_skip_comma) {
 			put_chars(",", 1);
 		}
@@ -969,9 +974,12 @@ namespace abc {
 			return;
 		}
 
-		put_chars("]", 1);
+		if (!state::pop_level(json::level::array)) {
+			base::set_bad();
+			return;
+		}
 
-		base::set_bad_if(!state::pop_level(json::level::array));
+		put_chars("]", 1);
 
 		_skip_comma = false;
 		state::set_expect_property(true);
@@ -990,6 +998,11 @@ namespace abc {
 			return;
 		}
 
+		if (state::levels() == MaxLevels) {
+			base::set_bad();
+			return;
+		}
+
 		if (state::levels() > 0 && state::top_level() == json::level::array && !_skip_comma) {
 			put_chars(",", 1);
 		}
@@ -1015,9 +1028,12 @@ namespace abc {
 			return;
 		}
 
-		put_chars("}", 1);
+		if (!state::pop_level(json::level::object)) {
+			base::set_bad();
+			return;
+		}
 
-		base::set_bad_if(!state::pop_level(json::level::object));
+		put_chars("}", 1);
 
 		_skip_comma = false;
 		state::set_expect_property(true);
-- 
2.43.0


From 302df368707aa572f11c3556fbb733a0f5f8338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 031/105] fix: moving a stream must keep its state

---
 src/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream.h b/src/stream.h
index fc0626e..435a9cf 100644
--- a/src/stream.h
+++ b/src/stream.h
@@ -40,7 +40,8 @@ namespace abc {
 	template <typename Stream>
 	inline stream<Stream>::stream(stream&& other)
 		: base(std::move(other)) {
-		base::rdbuf(other.rdbuf());
+		// rdbuf() would clear the state that has just been moved.
+		base::set_rdbuf(other.rdbuf());
 	}
 
 
-- 
2.43.0


From e43831818d1f898fdb9baed2de8318da755e3b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 032/105] fix: moving an istream must keep its gcount

---
 src/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream.h b/src/stream.h
index 435a9cf..f5e45ad 100644
--- a/src/stream.h
+++ b/src/stream.h
@@ -137,7 +137,8 @@ namespace abc {
 
 
 	inline istream::istream(istream&& other)
-		: base(std::move(other)) {
+		: base(std::move(other))
+		, _gcount(other._gcount) {
 	}
 
 
-- 
2.43.0


From fc51b5d7d827dfd5d416305657d7df4c9585da24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 033/105] fix: a moved line_ostream must not share the buffer
 or put the content twice

---
 src/table.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index 819a4f2..2acaabb 100644
--- a/src/table.h
+++ b/src/table.h
@@ -90,9 +90,14 @@ namespace abc {
 	inline line_ostream<Size>::line_ostream(line_ostream<Size>&& other)
 		: base(std::move(other))
 		, _table(other._table)
-		, _sb(std::move(other._sb))
+		, _sb(nullptr, 0, 0, _buffer, 0, Size)
 		, _pcount(other._pcount) {
 		std::memmove(_buffer, other._buffer, sizeof(char) * (Size + 2));
+
+		// The buffer is part of the line. The other line must not be used by this one, nor put the same content again.
+		base::set_rdbuf(&_sb);
+		other._table = nullptr;
+		other._pcount = 0;
 	}
 
 
-- 
2.43.0


From 0a6c777c12e946f66f56a5e484f53359f88290f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 034/105] fix: line_ostream must not write beyond its buffer

---
 src/table.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/table.h b/src/table.h
index 2acaabb..44c5613 100644
--- a/src/table.h
+++ b/src/table.h
@@ -145,8 +145,14 @@ namespace abc {
 
 	template <std::size_t Size>
 	inline void line_ostream<Size>::put_anyv(const char* format, va_list vlist) noexcept {
-		int pc = std::vsnprintf(_buffer + _pcount, Size - _pcount, format, vlist);
-		_pcount += pc;
+		// There is room for '\0' after Size chars.
+		std::size_t capacity = Size - _pcount;
+		int pc = std::vsnprintf(_buffer + _pcount, capacity + 1, format, vlist);
+
+		// vsnprintf() returns the number of chars that would have been written.
+		if (pc > 0) {
+			_pcount += static_cast<std::size_t>(pc) < capacity ? static_cast<std::size_t>(pc) : capacity;
+		}
 	}
 
 
-- 
2.43.0


From 4e0f7c8d45b6899398320a9210df5ae473e9458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 035/105] fix: table_ostream must keep lines of concurrent
 threads apart

---
 src/i/table.i.h | 7 +++++++
 src/table.h     | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/i/table.i.h b/src/i/table.i.h
index 0232bc2..a4d9ec7 100644
--- a/src/i/table.i.h
+++ b/src/i/table.i.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <mutex>
 #include <streambuf>
 #include <ostream>
 #include <thread>
@@ -79,6 +80,12 @@ namespace abc {
 		 * @brief			Puts a new line.
 		 */
 		void put_blank_line() noexcept;
+
+	private:
+		/**
+		 * @brief			Keeps lines that are put from multiple threads apart.
+		 */
+		std::mutex _mutex;
 	};
 
 
diff --git a/src/table.h b/src/table.h
index 44c5613..5cae73c 100644
--- a/src/table.h
+++ b/src/table.h
@@ -50,6 +50,9 @@ namespace abc {
 		}
 
 		try {
+			// Lines may be put from multiple threads.
+			std::lock_guard<std::mutex> lock(_mutex);
+
 			base::write(line, line_size);
 			base::flush();
 		}
@@ -60,6 +63,8 @@ namespace abc {
 
 	inline void table_ostream::put_blank_line() noexcept {
 		try {
+			std::lock_guard<std::mutex> lock(_mutex);
+
 			*this << endl;
 			base::flush();
 		}
-- 
2.43.0


From 4a5c10f79e069fac412f14b2c2607c0b88aecbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 036/105] fix: line_ostream::put_binary must not ask for
 another line after the last byte

---
 src/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.h b/src/table.h
index 5cae73c..c7dc414 100644
--- a/src/table.h
+++ b/src/table.h
@@ -262,7 +262,7 @@ namespace abc {
 
 		_pcount += local_size;
 		buffer_offset += chunk_size;
-		return hasMore;
+		return hasMore && buffer_offset < buffer_size;
 	}
 
 }
-- 
2.43.0


From 5cb063c45712548a97a8b8bdf94f8bf2393c77ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 037/105] fix: the test log line must not index before its
 severity buffer

---
 src/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.h b/src/log.h
index 56c2efa..da7a2a1 100644
--- a/src/log.h
+++ b/src/log.h
@@ -227,7 +227,7 @@ namespace abc {
 		char buf_severity[2 * severity::abc::debug + 1];
 		severity = severity <= severity::abc::debug ? severity : severity::abc::debug;
 		std::memset(buf_severity, ' ', 2 * severity);
-		buf_severity[2 * (severity - 1)] = '\0';
+		buf_severity[severity > 0 ? 2 * (severity - 1) : 0] = '\0';
 		base::put_any(buf_severity);
 	}
 
-- 
2.43.0


From b181b9985b8e24f8b072a4eee83eaf4df2c5ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 038/105] fix: json_istream must accept a number that ends the
 stream

---
 src/json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json.h b/src/json.h
index 56c810b..1981aa6 100644
--- a/src/json.h
+++ b/src/json.h
@@ -669,6 +669,11 @@ namespace abc {
 
 	template <std::size_t MaxLevels, typename Log>
 	inline char json_istream<MaxLevels, Log>::peek_char() {
+		// Peeking past the end would fail the stream, even though what has been read is complete, e.g. a number.
+		if (base::eof()) {
+			return '\0';
+		}
+
 		char ch = base::peek();
 
 		if (!ascii::json::is_valid(ch)) {
-- 
2.43.0


From f3cb7512252af5df597452f03ead7885d72d921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 039/105] fix: json_ostream must not log beyond the chars it
 puts

---
 src/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index 1981aa6..ca72082 100644
--- a/src/json.h
+++ b/src/json.h
@@ -1049,7 +1049,7 @@ namespace abc {
 	inline std::size_t json_ostream<MaxLevels, Log>::put_chars(const char* buffer, std::size_t size) {
 		Log* log_local = state::log();
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::json, severity::abc::optional, 0x10121, "json_ostream::put_chars() buffer='%s' >>>", buffer);
+			log_local->put_any(category::abc::json, severity::abc::optional, 0x10121, "json_ostream::put_chars() buffer='%.*s' >>>", static_cast<int>(size), buffer);
 		}
 
 		std::size_t pcount = 0;
-- 
2.43.0


From d71848c5fbf302c2c432c08c5afadf4685449758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 040/105] fix: http_istream must not count the end of the
 stream as a body byte

---
 src/http.h | 2225 ++++++++++++++++++++++++++--------------------------
 1 file changed, 1116 insertions(+), 1109 deletions(-)

diff --git a/src/http.h b/src/http.h
index 67c8cb7..03314dd 100644
--- a/src/http.h
+++ b/src/http.h
@@ -1,1109 +1,1116 @@
-/*
-MIT License
-
-Copyright (c) 2018-2023 Zlatko Michailov 
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*/
-
-
-#pragma once
-
-#include <cstring>
-
-#include "ascii.h"
-#include "exception.h"
-#include "stream.h"
-#include "i/http.i.h"
-
-
-namespace abc {
-
-	template <typename Log>
-	inline http_state<Log>::http_state(http::item_t next, Log* log) noexcept
-		: _next(next)
-		, _log(log) {
-		if (_log != nullptr) {
-			_log->put_any(category::abc::http, severity::abc::debug, 0x1003b, "http_state::http_state()");
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_state<Log>::reset(http::item_t next) {
-		if (_log != nullptr) {
-			_log->put_any(category::abc::http, severity::abc::debug, 0x1003c, "http_state::reset() next=%u", next);
-		}
-
-		_next = next;
-	}
-
-
-	template <typename Log>
-	inline http::item_t http_state<Log>::next() const noexcept {
-		return _next;
-	}
-
-
-	template <typename Log>
-	inline void http_state<Log>::assert_next(http::item_t item) {
-		if (_next != item) {
-			char buffer[100];
-			std::snprintf(buffer, sizeof(buffer), "http_state::assert_next(): actual=%u, expected=%u", _next, item);
-
-			throw exception<std::logic_error, Log>(buffer, 0x1003d, _log);
-		}
-	}
-
-
-	template <typename Log>
-	inline Log* http_state<Log>::log() const noexcept {
-		return _log;
-	}
-
-
-	// --------------------------------------------------------------
-
-
-	template <typename Log>
-	inline http_istream<Log>::http_istream(std::streambuf* sb, http::item_t next, Log* log)
-		: base(sb)
-		, state(next, log) {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x1003e, "http_istream::http_istream()");
-		}
-	}
-
-
-	template <typename Log>
-	inline http_istream<Log>::http_istream(http_istream&& other)
-		: base(std::move(other))
-		, state(std::move(other)) {
-	}
-
-
-	template <typename Log>
-	inline void http_istream<Log>::set_gstate(std::size_t gcount, http::item_t next) {
-		base::set_gcount(gcount);
-		state::reset(next);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::get_protocol(char* buffer, std::size_t size) {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x1003f, "http_istream::get_protocol() >>>");
-		}
-
-		state::assert_next(http::item::protocol);
-
-		std::size_t gcount = get_alphas(buffer, size);
-		if (gcount != 4 || !ascii::are_equal_i_n("HTTP", buffer, 4)) {
-			base::set_bad();
-		}
-
-		if (gcount == size - 1) {
-			base::set_fail();
-		}
-
-		if (base::is_good()) {
-			char ch = get_char();
-			if (ch == '/') {
-				buffer[gcount++] = '/';
-			}
-			else {
-				base::set_bad();
-			}
-		}
-
-		if (base::is_good()) {
-			gcount += get_digits(buffer + gcount, size - gcount);
-		}
-
-		if (gcount == size - 1) {
-			base::set_fail();
-		}
-
-		if (base::is_good()) {
-			char ch = get_char();
-			if (ch == '.') {
-				buffer[gcount++] = '.';
-			}
-			else {
-				base::set_bad();
-			}
-		}
-
-		if (base::is_good()) {
-			gcount += get_digits(buffer + gcount, size - gcount);
-		}
-
-		skip_spaces();
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10040, "http_istream::get_protocol() <<< protocol='%s', gcount=%zu", buffer, gcount);
-		}
-
-		return gcount;
-	}
-
-
-	template <typename Log>
-	inline void http_istream<Log>::get_header_name(char* buffer, std::size_t size) {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10041, "http_istream::get_header_name() >>>");
-		}
-
-		state::assert_next(http::item::header_name);
-
-		std::size_t gcount = get_token(buffer, size);
-		skip_spaces();
-
-		if (gcount == 0) {
-			skip_crlf();
-
-			set_gstate(gcount, http::item::body);
-			return;
-		}
-
-		if (base::is_good()) {
-			char ch = get_char();
-			if (ch != ':') {
-				base::set_bad();
-			}
-		}
-
-		skip_spaces();
-
-		set_gstate(gcount, http::item::header_value);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10042, "http_istream::get_header_name() <<< header_name='%s', gcount=%zu", buffer, gcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_istream<Log>::get_header_value(char* buffer, std::size_t size) {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10043, "http_istream::get_header_value() >>>");
-		}
-
-		state::assert_next(http::item::header_value);
-
-		std::size_t gcount = 0;
-		std::size_t gcount_local;
-
-		do {
-			do {
-				std::size_t sp = skip_spaces();
-				if (gcount > 0 && sp > 0 && ascii::is_abcprint(peek_char())) {
-					if (gcount == size - 1) {
-						base::set_fail();
-						set_gstate(gcount, http::item::header_value);
-						return;
-					}
-
-					buffer[gcount++] = ' ';
-				}
-
-				gcount_local = get_prints(buffer + gcount, size - gcount);
-				gcount += gcount_local;
-			}
-			while (base::is_good() && gcount_local > 0);
-			skip_crlf();
-		}
-		while (base::is_good() && ascii::is_space(peek_char()));
-
-		skip_spaces();
-
-		set_gstate(gcount, http::item::header_name);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10044, "http_istream::get_header_value() <<< header_value='%s', gcount=%zu", buffer, gcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_istream<Log>::get_body(char* buffer, std::size_t size) {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10045, "http_istream::get_body() >>>");
-		}
-
-		state::assert_next(http::item::body);
-
-		std::size_t gcount = get_bytes(buffer, size);
-
-		set_gstate(gcount, http::item::body);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%s', gcount=%zu", buffer, gcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::get_token(char* buffer, std::size_t size) {
-		return get_chars(ascii::http::is_token, buffer, size);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::get_prints(char* buffer, std::size_t size) {
-		return get_chars(ascii::is_abcprint, buffer, size);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::get_prints_and_spaces(char* buffer, std::size_t size) {
-		return get_chars(ascii::is_abcprint_or_space, buffer, size);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::get_alphas(char* buffer, std::size_t size) {
-		return get_chars(ascii::is_alpha, buffer, size);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::get_digits(char* buffer, std::size_t size) {
-		return get_chars(ascii::is_digit, buffer, size);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::skip_spaces() {
-		return skip_chars(ascii::is_space);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::skip_crlf() {
-		char ch = get_char();
-		if (ch != '\r') {
-			base::set_fail();
-			return 0;
-		}
-
-		ch = get_char();
-		if (ch != '\n') {
-			base::set_fail();
-			return 1;
-		}
-
-		return 2;
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::get_bytes(char* buffer, std::size_t size) {
-		std::size_t gcount = 0;
-
-		while (base::is_good() && gcount < size) {
-			buffer[gcount++] = base::get();
-		}
-
-		return gcount;
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::get_chars(CharPredicate&& predicate, char* buffer, std::size_t size) {
-		std::size_t gcount = 0;
-
-		while (base::is_good() && predicate(peek_char())) {
-			if (gcount == size - 1) {
-				base::set_fail();
-				break;
-			}
-
-			buffer[gcount++] = base::get();
-		}
-		buffer[gcount] = '\0';
-
-		return gcount;
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_istream<Log>::skip_chars(CharPredicate&& predicate) {
-		std::size_t gcount = 0;
-		
-		while (base::is_good() && predicate(peek_char())) {
-			base::get();
-			gcount++;
-		}
-
-		return gcount;
-	}
-	
-	
-	template <typename Log>
-	inline char http_istream<Log>::get_char() {
-		char ch = peek_char();
-
-		if (base::is_good()) {
-			base::get();
-		}
-
-		return ch;
-	}
-
-
-	template <typename Log>
-	inline char http_istream<Log>::peek_char() {
-		char ch = base::peek();
-
-		if (!ascii::is_ascii(ch)) {
-			base::set_bad();
-			ch = '\0';
-		}
-
-		return ch;
-	}
-
-
-	// --------------------------------------------------------------
-
-
-	template <typename Log>
-	inline http_ostream<Log>::http_ostream(std::streambuf* sb, http::item_t next, Log* log)
-		: base(sb)
-		, state(next, log) {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10047, "http_ostream::http_ostream()");
-		}
-	}
-
-
-	template <typename Log>
-	inline http_ostream<Log>::http_ostream(http_ostream&& other)
-		: base(std::move(other))
-		, state(std::move(other)) {
-	}
-
-
-	template <typename Log>
-	inline void http_ostream<Log>::set_pstate(http::item_t next) {
-		base::flush();
-		state::reset(next);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_protocol(const char* buffer, std::size_t size) {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10048, "http_ostream::put_protocol() >>>");
-		}
-
-		state::assert_next(http::item::protocol);
-
-		if (size == size::strlen) {
-			size = std::strlen(buffer);
-		}
-
-		std::size_t gcount = 0;	
-
-		if (size < 5 || !ascii::are_equal_i_n(buffer, "HTTP/", 5)) {
-			base::set_bad();
-		}
-		else {
-			gcount = put_bytes("HTTP/", 5);
-		}
-
-		if (base::is_good() && gcount < size) {
-			std::size_t gcount_local = put_digits(buffer + gcount, size - gcount);
-			if (gcount_local == 0) {
-				base::set_bad();
-			}
-			else {
-				gcount += gcount_local;
-			}
-		}
-
-		if (base::is_good() && gcount < size) {
-			if (buffer[gcount] != '.') {
-				base::set_bad();
-			}
-			else {
-				base::put('.');
-				gcount++;
-			}
-		}
-
-		if (base::is_good() && gcount < size) {
-			std::size_t gcount_local = put_digits(buffer + gcount, size - gcount);
-			if (gcount_local == 0) {
-				base::set_bad();
-			}
-			else {
-				gcount += gcount_local;
-			}
-		}
-
-		if (base::is_good() && gcount < size) {
-			base::set_bad();
-		}
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%s', size=%zu, gcount=%zu", buffer, size, gcount);
-		}
-
-		return gcount;
-	}
-
-
-	template <typename Log>
-	inline void http_ostream<Log>::put_header_name(const char* buffer, std::size_t size) {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x1004a, "http_ostream::put_header_name() >>>");
-		}
-
-		state::assert_next(http::item::header_name);
-
-		if (size == size::strlen) {
-			size = std::strlen(buffer);
-		}
-
-		std::size_t pcount = put_token(buffer, size);
-
-		if (base::is_good()) {
-			if (pcount < size) {
-				base::set_bad();
-			}
-		}
-
-		if (base::is_good()) {
-			base::put(':');
-			put_space();
-		}
-
-		set_pstate(http::item::header_value);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_ostream<Log>::put_header_value(const char* buffer, std::size_t size) {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x1004c, "http_ostream::put_header_value() >>>");
-		}
-
-		state::assert_next(http::item::header_value);
-
-		if (size == size::strlen) {
-			size = std::strlen(buffer);
-		}
-
-		std::size_t pcount = 0;
-		do {
-			std::size_t sp = skip_spaces_in_header_value(buffer + pcount, size - pcount);
-
-			if (pcount > 0 && sp > 0 && pcount + sp < size) {
-				put_space();
-			}
-
-			pcount += sp;
-
-			if (pcount < size) {
-				if (ascii::is_abcprint(buffer[pcount])) {
-					pcount += put_prints(buffer + pcount, size - pcount);
-				}
-				else {
-					base::set_bad();
-				}
-			}
-		}
-		while (base::is_good() && pcount < size);
-
-		put_crlf();
-
-		set_pstate(http::item::header_name);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_ostream<Log>::end_headers() {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x1004e, "http_ostream::end_headers() >>>");
-		}
-
-		state::assert_next(http::item::header_name);
-
-		put_crlf();
-
-		set_pstate(http::item::body);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x1004f, "http_ostream::end_headers() <<<");
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_ostream<Log>::put_body(const char* buffer, std::size_t size) {
-		Log* log_local = state::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10050, "http_ostream::put_body() >>>");
-		}
-
-		state::assert_next(http::item::body);
-
-		if (size == size::strlen) {
-			size = std::strlen(buffer);
-		}
-
-		std::size_t pcount = put_bytes(buffer, size);
-
-		set_pstate(http::item::body);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_crlf() {
-		return put_char('\r') + put_char('\n');
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_space() {
-		return put_char(' ');
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_token(const char* buffer, std::size_t size) {
-		return put_chars(ascii::http::is_token, buffer, size);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_prints(const char* buffer, std::size_t size) {
-		return put_chars(ascii::is_abcprint, buffer, size);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_prints_and_spaces(const char* buffer, std::size_t size) {
-		return put_chars(ascii::is_abcprint_or_space, buffer, size);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_alphas(const char* buffer, std::size_t size) {
-		return put_chars(ascii::is_alpha, buffer, size);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_digits(const char* buffer, std::size_t size) {
-		return put_chars(ascii::is_digit, buffer, size);
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_bytes(const char* buffer, std::size_t size) {
-		std::size_t gcount = 0;
-
-		while (base::is_good() && gcount < size) {
-			base::put(buffer[gcount++]);
-		}
-
-		return gcount;
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_chars(CharPredicate&& predicate, const char* buffer, std::size_t size) {
-		std::size_t pcount = 0;
-
-		while (base::is_good() && pcount < size && predicate(buffer[pcount])) {
-			base::put(buffer[pcount++]);
-		}
-
-		return pcount;
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::put_char(char ch) {
-		if (base::is_good()) {
-			base::put(ch);
-		}
-
-		return base::is_good() ? 1 : 0;;
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::skip_spaces_in_header_value(const char* buffer, std::size_t size) {
-		std::size_t sp = 0;
-
-		while (sp < size) {
-			if (ascii::is_space(buffer[sp])) {
-				sp++;
-			}
-			else if (sp + 3 < size && buffer[sp] == '\r' && buffer[sp + 1] == '\n' && ascii::is_space(buffer[sp + 2])) {
-				sp += 3;
-			}
-			else {
-				break;
-			}
-		}
-
-		return sp;
-	}
-
-
-	template <typename Log>
-	inline std::size_t http_ostream<Log>::skip_spaces(const char* buffer, std::size_t size) {
-		std::size_t sp = 0;
-
-		while (sp < size && ascii::is_space(buffer[sp])) {
-			sp++;
-		}
-
-		return sp;
-	}
-
-
-	// --------------------------------------------------------------
-
-
-	template <typename Log>
-	inline http_request_istream<Log>::http_request_istream(std::streambuf* sb, Log* log)
-		: base(sb, http::item::method, log) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10052, "http_request_istream::http_request_istream()");
-		}
-	}
-
-
-	template <typename Log>
-	inline http_request_istream<Log>::http_request_istream(http_request_istream&& other)
-		: base(std::move(other)) {
-	}
-
-
-	template <typename Log>
-	inline void http_request_istream<Log>::reset() {
-		base::reset(http::item::method);
-	}
-
-
-	template <typename Log>
-	inline void http_request_istream<Log>::get_method(char* buffer, std::size_t size) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10053, "http_request_istream::get_method() >>>");
-		}
-
-		base::assert_next(http::item::method);
-
-		std::size_t gcount = base::get_token(buffer, size);
-
-		base::skip_spaces();
-
-		base::set_gstate(gcount, http::item::resource);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10054, "http_request_istream::get_method() <<< method='%s', gcount=%zu", buffer, gcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_request_istream<Log>::get_resource(char* buffer, std::size_t size) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10055, "http_request_istream::get_resource() >>>");
-		}
-
-		base::assert_next(http::item::resource);
-
-		// The resource is terminated by an extra '\0', so it could be split.
-		std::size_t gcount = base::get_prints(buffer, size - 1);
-		buffer[gcount + 1] = '\0';
-
-		base::skip_spaces();
-
-		base::set_gstate(gcount, http::item::protocol);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10056, "http_request_istream::get_resource() <<< resource='%s', gcount=%zu", buffer, gcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_request_istream<Log>::get_protocol(char* buffer, std::size_t size) {
-		std::size_t gcount = http_istream<Log>::get_protocol(buffer, size);
-
-		base::skip_crlf();
-
-		base::set_gstate(gcount, http::item::header_name);
-	}
-
-
-	template <typename Log>
-	inline void http_request_istream<Log>::split_resource(char* buffer, std::size_t size) {
-		const char* const end = buffer + size;
- 
-		// path?param1=...&param2=...
-		char* param = std::strchr(buffer, '?');
-
-		while (param < end && param != nullptr) {
-			*param++ = '\0';
-
-			if (param < end && *param != '\0') {
-				param = std::strchr(param, '&');
-			}
-		}
-	}
-
-
-	template <typename Log>
-	inline const char* http_request_istream<Log>::get_resource_parameter(const char* buffer, std::size_t size, const char* parameter_name) {
-		const char* const end = buffer + size;
-		const std::size_t parameter_name_len = std::strlen(parameter_name);
- 
-		// path\0param1=...\0param2=...\0\0
-		const char* param = buffer + std::strlen(buffer) + 1;
-
-		while (param < end && *param != '\0') {
-			if (std::strncmp(param, parameter_name, parameter_name_len) == 0 && param[parameter_name_len] == '=') {
-				return param + parameter_name_len + 1;
-			}
-
-			if (param < end && *param != '\0') {
-				param += std::strlen(param) + 1;
-			}
-		}
-
-		return nullptr;
-	}
-
-
-	// --------------------------------------------------------------
-
-
-	template <typename Log>
-	inline http_request_ostream<Log>::http_request_ostream(std::streambuf* sb, Log* log)
-		: base(sb, http::item::method, log) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10057, "http_request_ostream::http_request_ostream()");
-		}
-	}
-
-
-	template <typename Log>
-	inline http_request_ostream<Log>::http_request_ostream(http_request_ostream&& other)
-		: base(std::move(other)) {
-	}
-
-
-	template <typename Log>
-	inline void http_request_ostream<Log>::reset() {
-		base::reset(http::item::method);
-	}
-
-
-	template <typename Log>
-	inline void http_request_ostream<Log>::put_method(const char* buffer, std::size_t size) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10058, "http_ostream::put_method() >>>");
-		}
-
-		base::assert_next(http::item::method);
-
-		if (size == size::strlen) {
-			size = std::strlen(buffer);
-		}
-
-		std::size_t pcount = base::put_token(buffer, size);
-
-		base::put_space();
-
-		base::set_pstate(http::item::resource);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_request_ostream<Log>::put_resource(const char* buffer, std::size_t size) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x1005a, "http_ostream::put_resource() >>>");
-		}
-
-		base::assert_next(http::item::resource);
-
-		if (size == size::strlen) {
-			size = std::strlen(buffer);
-		}
-
-		std::size_t pcount = base::put_prints(buffer, size);
-
-		base::put_space();
-
-		base::set_pstate(http::item::protocol);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_request_ostream<Log>::put_protocol(const char* buffer, std::size_t size) {
-		http_ostream<Log>::put_protocol(buffer, size);
-
-		base::put_crlf();
-
-		base::set_pstate(http::item::header_name);
-	}
-
-
-	// --------------------------------------------------------------
-
-
-	template <typename Log>
-	inline http_response_istream<Log>::http_response_istream(std::streambuf* sb, Log* log)
-		: base(sb, http::item::protocol, log) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x1005c, "http_response_istream::http_response_istream()");
-		}
-	}
-
-
-	template <typename Log>
-	inline http_response_istream<Log>::http_response_istream(http_response_istream&& other)
-		: base(std::move(other)) {
-	}
-
-
-	template <typename Log>
-	inline void http_response_istream<Log>::reset() {
-		base::reset(http::item::protocol);
-	}
-
-
-	template <typename Log>
-	inline void http_response_istream<Log>::get_protocol(char* buffer, std::size_t size) {
-		std::size_t gcount = http_istream<Log>::get_protocol(buffer, size);
-
-		base::set_gstate(gcount, http::item::status_code);
-	}
-
-	template <typename Log>
-	inline void http_response_istream<Log>::get_status_code(char* buffer, std::size_t size) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x1005d, "http_response_istream::get_status_code() >>>");
-		}
-
-		base::assert_next(http::item::status_code);
-
-		std::size_t gcount = base::get_digits(buffer, size);
-
-		base::skip_spaces();
-
-		base::set_gstate(gcount, http::item::reason_phrase);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005e, "http_response_istream::get_status_code() <<< status_code='%s', gcount=%zu", buffer, gcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_response_istream<Log>::get_reason_phrase(char* buffer, std::size_t size) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x1005f, "http_response_istream::get_reason_phrase() >>>");
-		}
-
-		base::assert_next(http::item::reason_phrase);
-
-		std::size_t gcount = base::get_prints_and_spaces(buffer, size);
-
-		base::skip_spaces();
-		base::skip_crlf();
-
-		base::set_gstate(gcount, http::item::header_name);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10060, "http_response_istream::get_reson_phrase() <<< reason_phrase='%s', gcount=%zu", buffer, gcount);
-		}
-	}
-
-
-	// --------------------------------------------------------------
-
-
-	template <typename Log>
-	inline http_response_ostream<Log>::http_response_ostream(std::streambuf* sb, Log* log)
-		: base(sb, http::item::protocol, log) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10061, "http_response_ostream::http_response_ostream()");
-		}
-	}
-
-
-	template <typename Log>
-	inline http_response_ostream<Log>::http_response_ostream(http_response_ostream&& other)
-		: base(std::move(other)) {
-	}
-
-
-	template <typename Log>
-	inline void http_response_ostream<Log>::reset() {
-		base::reset(http::item::protocol);
-	}
-
-
-	template <typename Log>
-	inline void http_response_ostream<Log>::put_protocol(const char* buffer, std::size_t size) {
-		http_ostream<Log>::put_protocol(buffer, size);
-
-		base::put_space();
-
-		base::set_pstate(http::item::status_code);
-	}
-
-
-	template <typename Log>
-	inline void http_response_ostream<Log>::put_status_code(const char* buffer, std::size_t size) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10062, "http_response_ostream::put_status_code() >>>");
-		}
-
-		base::assert_next(http::item::status_code);
-
-		if (size == size::strlen) {
-			size = std::strlen(buffer);
-		}
-
-		std::size_t pcount = base::put_digits(buffer, size);
-
-		base::put_space();
-
-		base::set_pstate(http::item::reason_phrase);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
-		}
-	}
-
-
-	template <typename Log>
-	inline void http_response_ostream<Log>::put_reason_phrase(const char* buffer, std::size_t size) {
-		Log* log_local = base::log();
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::debug, 0x10064, "http_response_ostream::put_reason_phrase() >>>");
-		}
-
-		base::assert_next(http::item::reason_phrase);
-
-		std::size_t pcount = 0;
-		if (buffer != nullptr) {
-			if (size == size::strlen) {
-				size = std::strlen(buffer);
-			}
-
-			pcount = base::put_prints_and_spaces(buffer, size);
-		}
-
-		base::put_crlf();
-
-		base::set_pstate(http::item::header_name);
-
-		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%s', size=%zu, pcount=%zu", buffer != nullptr ? buffer : "<nullptr>", size, pcount);
-		}
-	}
-
-
-	// --------------------------------------------------------------
-
-
-	template <typename Log>
-	inline http_client_stream<Log>::http_client_stream(std::streambuf* sb, Log* log)
-		: http_request_ostream<Log>(sb, log)
-		, http_response_istream<Log>(sb, log) {
-	}
-
-
-	template <typename Log>
-	inline http_client_stream<Log>::http_client_stream(http_client_stream&& other)
-		: http_request_ostream<Log>(std::move(other))
-		, http_response_istream<Log>(std::move(other)) {
-	}
-
-
-	// --------------------------------------------------------------
-
-
-	template <typename Log>
-	inline http_server_stream<Log>::http_server_stream(std::streambuf* sb, Log* log)
-		: http_request_istream<Log>(sb, log)
-		, http_response_ostream<Log>(sb, log) {
-	}
-
-
-	template <typename Log>
-	inline http_server_stream<Log>::http_server_stream(http_server_stream&& other)
-		: http_request_istream<Log>(std::move(other))
-		, http_response_ostream<Log>(std::move(other)) {
-	}
-
-}
-
+/*
+MIT License
+
+Copyright (c) 2018-2023 Zlatko Michailov 
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*/
+
+
+#pragma once
+
+#include <cstring>
+
+#include "ascii.h"
+#include "exception.h"
+#include "stream.h"
+#include "i/http.i.h"
+
+
+namespace abc {
+
+	template <typename Log>
+	inline http_state<Log>::http_state(http::item_t next, Log* log) noexcept
+		: _next(next)
+		, _log(log) {
+		if (_log != nullptr) {
+			_log->put_any(category::abc::http, severity::abc::debug, 0x1003b, "http_state::http_state()");
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_state<Log>::reset(http::item_t next) {
+		if (_log != nullptr) {
+			_log->put_any(category::abc::http, severity::abc::debug, 0x1003c, "http_state::reset() next=%u", next);
+		}
+
+		_next = next;
+	}
+
+
+	template <typename Log>
+	inline http::item_t http_state<Log>::next() const noexcept {
+		return _next;
+	}
+
+
+	template <typename Log>
+	inline void http_state<Log>::assert_next(http::item_t item) {
+		if (_next != item) {
+			char buffer[100];
+			std::snprintf(buffer, sizeof(buffer), "http_state::assert_next(): actual=%u, expected=%u", _next, item);
+
+			throw exception<std::logic_error, Log>(buffer, 0x1003d, _log);
+		}
+	}
+
+
+	template <typename Log>
+	inline Log* http_state<Log>::log() const noexcept {
+		return _log;
+	}
+
+
+	// --------------------------------------------------------------
+
+
+	template <typename Log>
+	inline http_istream<Log>::http_istream(std::streambuf* sb, http::item_t next, Log* log)
+		: base(sb)
+		, state(next, log) {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x1003e, "http_istream::http_istream()");
+		}
+	}
+
+
+	template <typename Log>
+	inline http_istream<Log>::http_istream(http_istream&& other)
+		: base(std::move(other))
+		, state(std::move(other)) {
+	}
+
+
+	template <typename Log>
+	inline void http_istream<Log>::set_gstate(std::size_t gcount, http::item_t next) {
+		base::set_gcount(gcount);
+		state::reset(next);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::get_protocol(char* buffer, std::size_t size) {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x1003f, "http_istream::get_protocol() >>>");
+		}
+
+		state::assert_next(http::item::protocol);
+
+		std::size_t gcount = get_alphas(buffer, size);
+		if (gcount != 4 || !ascii::are_equal_i_n("HTTP", buffer, 4)) {
+			base::set_bad();
+		}
+
+		if (gcount == size - 1) {
+			base::set_fail();
+		}
+
+		if (base::is_good()) {
+			char ch = get_char();
+			if (ch == '/') {
+				buffer[gcount++] = '/';
+			}
+			else {
+				base::set_bad();
+			}
+		}
+
+		if (base::is_good()) {
+			gcount += get_digits(buffer + gcount, size - gcount);
+		}
+
+		if (gcount == size - 1) {
+			base::set_fail();
+		}
+
+		if (base::is_good()) {
+			char ch = get_char();
+			if (ch == '.') {
+				buffer[gcount++] = '.';
+			}
+			else {
+				base::set_bad();
+			}
+		}
+
+		if (base::is_good()) {
+			gcount += get_digits(buffer + gcount, size - gcount);
+		}
+
+		skip_spaces();
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10040, "http_istream::get_protocol() <<< protocol='%s', gcount=%zu", buffer, gcount);
+		}
+
+		return gcount;
+	}
+
+
+	template <typename Log>
+	inline void http_istream<Log>::get_header_name(char* buffer, std::size_t size) {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10041, "http_istream::get_header_name() >>>");
+		}
+
+		state::assert_next(http::item::header_name);
+
+		std::size_t gcount = get_token(buffer, size);
+		skip_spaces();
+
+		if (gcount == 0) {
+			skip_crlf();
+
+			set_gstate(gcount, http::item::body);
+			return;
+		}
+
+		if (base::is_good()) {
+			char ch = get_char();
+			if (ch != ':') {
+				base::set_bad();
+			}
+		}
+
+		skip_spaces();
+
+		set_gstate(gcount, http::item::header_value);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10042, "http_istream::get_header_name() <<< header_name='%s', gcount=%zu", buffer, gcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_istream<Log>::get_header_value(char* buffer, std::size_t size) {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10043, "http_istream::get_header_value() >>>");
+		}
+
+		state::assert_next(http::item::header_value);
+
+		std::size_t gcount = 0;
+		std::size_t gcount_local;
+
+		do {
+			do {
+				std::size_t sp = skip_spaces();
+				if (gcount > 0 && sp > 0 && ascii::is_abcprint(peek_char())) {
+					if (gcount == size - 1) {
+						base::set_fail();
+						set_gstate(gcount, http::item::header_value);
+						return;
+					}
+
+					buffer[gcount++] = ' ';
+				}
+
+				gcount_local = get_prints(buffer + gcount, size - gcount);
+				gcount += gcount_local;
+			}
+			while (base::is_good() && gcount_local > 0);
+			skip_crlf();
+		}
+		while (base::is_good() && ascii::is_space(peek_char()));
+
+		skip_spaces();
+
+		set_gstate(gcount, http::item::header_name);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10044, "http_istream::get_header_value() <<< header_value='%s', gcount=%zu", buffer, gcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_istream<Log>::get_body(char* buffer, std::size_t size) {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10045, "http_istream::get_body() >>>");
+		}
+
+		state::assert_next(http::item::body);
+
+		std::size_t gcount = get_bytes(buffer, size);
+
+		set_gstate(gcount, http::item::body);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%s', gcount=%zu", buffer, gcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::get_token(char* buffer, std::size_t size) {
+		return get_chars(ascii::http::is_token, buffer, size);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::get_prints(char* buffer, std::size_t size) {
+		return get_chars(ascii::is_abcprint, buffer, size);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::get_prints_and_spaces(char* buffer, std::size_t size) {
+		return get_chars(ascii::is_abcprint_or_space, buffer, size);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::get_alphas(char* buffer, std::size_t size) {
+		return get_chars(ascii::is_alpha, buffer, size);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::get_digits(char* buffer, std::size_t size) {
+		return get_chars(ascii::is_digit, buffer, size);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::skip_spaces() {
+		return skip_chars(ascii::is_space);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::skip_crlf() {
+		char ch = get_char();
+		if (ch != '\r') {
+			base::set_fail();
+			return 0;
+		}
+
+		ch = get_char();
+		if (ch != '\n') {
+			base::set_fail();
+			return 1;
+		}
+
+		return 2;
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::get_bytes(char* buffer, std::size_t size) {
+		std::size_t gcount = 0;
+
+		while (base::is_good() && gcount < size) {
+			std::istream::int_type ch = base::get();
+
+			// The end of the stream is not a char.
+			if (!base::is_good()) {
+				break;
+			}
+
+			buffer[gcount++] = std::istream::traits_type::to_char_type(ch);
+		}
+
+		return gcount;
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::get_chars(CharPredicate&& predicate, char* buffer, std::size_t size) {
+		std::size_t gcount = 0;
+
+		while (base::is_good() && predicate(peek_char())) {
+			if (gcount == size - 1) {
+				base::set_fail();
+				break;
+			}
+
+			buffer[gcount++] = base::get();
+		}
+		buffer[gcount] = '\0';
+
+		return gcount;
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_istream<Log>::skip_chars(CharPredicate&& predicate) {
+		std::size_t gcount = 0;
+		
+		while (base::is_good() && predicate(peek_char())) {
+			base::get();
+			gcount++;
+		}
+
+		return gcount;
+	}
+	
+	
+	template <typename Log>
+	inline char http_istream<Log>::get_char() {
+		char ch = peek_char();
+
+		if (base::is_good()) {
+			base::get();
+		}
+
+		return ch;
+	}
+
+
+	template <typename Log>
+	inline char http_istream<Log>::peek_char() {
+		char ch = base::peek();
+
+		if (!ascii::is_ascii(ch)) {
+			base::set_bad();
+			ch = '\0';
+		}
+
+		return ch;
+	}
+
+
+	// --------------------------------------------------------------
+
+
+	template <typename Log>
+	inline http_ostream<Log>::http_ostream(std::streambuf* sb, http::item_t next, Log* log)
+		: base(sb)
+		, state(next, log) {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10047, "http_ostream::http_ostream()");
+		}
+	}
+
+
+	template <typename Log>
+	inline http_ostream<Log>::http_ostream(http_ostream&& other)
+		: base(std::move(other))
+		, state(std::move(other)) {
+	}
+
+
+	template <typename Log>
+	inline void http_ostream<Log>::set_pstate(http::item_t next) {
+		base::flush();
+		state::reset(next);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_protocol(const char* buffer, std::size_t size) {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10048, "http_ostream::put_protocol() >>>");
+		}
+
+		state::assert_next(http::item::protocol);
+
+		if (size == size::strlen) {
+			size = std::strlen(buffer);
+		}
+
+		std::size_t gcount = 0;	
+
+		if (size < 5 || !ascii::are_equal_i_n(buffer, "HTTP/", 5)) {
+			base::set_bad();
+		}
+		else {
+			gcount = put_bytes("HTTP/", 5);
+		}
+
+		if (base::is_good() && gcount < size) {
+			std::size_t gcount_local = put_digits(buffer + gcount, size - gcount);
+			if (gcount_local == 0) {
+				base::set_bad();
+			}
+			else {
+				gcount += gcount_local;
+			}
+		}
+
+		if (base::is_good() && gcount < size) {
+			if (buffer[gcount] != '.') {
+				base::set_bad();
+			}
+			else {
+				base::put('.');
+				gcount++;
+			}
+		}
+
+		if (base::is_good() && gcount < size) {
+			std::size_t gcount_local = put_digits(buffer + gcount, size - gcount);
+			if (gcount_local == 0) {
+				base::set_bad();
+			}
+			else {
+				gcount += gcount_local;
+			}
+		}
+
+		if (base::is_good() && gcount < size) {
+			base::set_bad();
+		}
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%s', size=%zu, gcount=%zu", buffer, size, gcount);
+		}
+
+		return gcount;
+	}
+
+
+	template <typename Log>
+	inline void http_ostream<Log>::put_header_name(const char* buffer, std::size_t size) {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x1004a, "http_ostream::put_header_name() >>>");
+		}
+
+		state::assert_next(http::item::header_name);
+
+		if (size == size::strlen) {
+			size = std::strlen(buffer);
+		}
+
+		std::size_t pcount = put_token(buffer, size);
+
+		if (base::is_good()) {
+			if (pcount < size) {
+				base::set_bad();
+			}
+		}
+
+		if (base::is_good()) {
+			base::put(':');
+			put_space();
+		}
+
+		set_pstate(http::item::header_value);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_ostream<Log>::put_header_value(const char* buffer, std::size_t size) {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x1004c, "http_ostream::put_header_value() >>>");
+		}
+
+		state::assert_next(http::item::header_value);
+
+		if (size == size::strlen) {
+			size = std::strlen(buffer);
+		}
+
+		std::size_t pcount = 0;
+		do {
+			std::size_t sp = skip_spaces_in_header_value(buffer + pcount, size - pcount);
+
+			if (pcount > 0 && sp > 0 && pcount + sp < size) {
+				put_space();
+			}
+
+			pcount += sp;
+
+			if (pcount < size) {
+				if (ascii::is_abcprint(buffer[pcount])) {
+					pcount += put_prints(buffer + pcount, size - pcount);
+				}
+				else {
+					base::set_bad();
+				}
+			}
+		}
+		while (base::is_good() && pcount < size);
+
+		put_crlf();
+
+		set_pstate(http::item::header_name);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_ostream<Log>::end_headers() {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x1004e, "http_ostream::end_headers() >>>");
+		}
+
+		state::assert_next(http::item::header_name);
+
+		put_crlf();
+
+		set_pstate(http::item::body);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x1004f, "http_ostream::end_headers() <<<");
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_ostream<Log>::put_body(const char* buffer, std::size_t size) {
+		Log* log_local = state::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10050, "http_ostream::put_body() >>>");
+		}
+
+		state::assert_next(http::item::body);
+
+		if (size == size::strlen) {
+			size = std::strlen(buffer);
+		}
+
+		std::size_t pcount = put_bytes(buffer, size);
+
+		set_pstate(http::item::body);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_crlf() {
+		return put_char('\r') + put_char('\n');
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_space() {
+		return put_char(' ');
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_token(const char* buffer, std::size_t size) {
+		return put_chars(ascii::http::is_token, buffer, size);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_prints(const char* buffer, std::size_t size) {
+		return put_chars(ascii::is_abcprint, buffer, size);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_prints_and_spaces(const char* buffer, std::size_t size) {
+		return put_chars(ascii::is_abcprint_or_space, buffer, size);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_alphas(const char* buffer, std::size_t size) {
+		return put_chars(ascii::is_alpha, buffer, size);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_digits(const char* buffer, std::size_t size) {
+		return put_chars(ascii::is_digit, buffer, size);
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_bytes(const char* buffer, std::size_t size) {
+		std::size_t gcount = 0;
+
+		while (base::is_good() && gcount < size) {
+			base::put(buffer[gcount++]);
+		}
+
+		return gcount;
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_chars(CharPredicate&& predicate, const char* buffer, std::size_t size) {
+		std::size_t pcount = 0;
+
+		while (base::is_good() && pcount < size && predicate(buffer[pcount])) {
+			base::put(buffer[pcount++]);
+		}
+
+		return pcount;
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::put_char(char ch) {
+		if (base::is_good()) {
+			base::put(ch);
+		}
+
+		return base::is_good() ? 1 : 0;;
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::skip_spaces_in_header_value(const char* buffer, std::size_t size) {
+		std::size_t sp = 0;
+
+		while (sp < size) {
+			if (ascii::is_space(buffer[sp])) {
+				sp++;
+			}
+			else if (sp + 3 < size && buffer[sp] == '\r' && buffer[sp + 1] == '\n' && ascii::is_space(buffer[sp + 2])) {
+				sp += 3;
+			}
+			else {
+				break;
+			}
+		}
+
+		return sp;
+	}
+
+
+	template <typename Log>
+	inline std::size_t http_ostream<Log>::skip_spaces(const char* buffer, std::size_t size) {
+		std::size_t sp = 0;
+
+		while (sp < size && ascii::is_space(buffer[sp])) {
+			sp++;
+		}
+
+		return sp;
+	}
+
+
+	// --------------------------------------------------------------
+
+
+	template <typename Log>
+	inline http_request_istream<Log>::http_request_istream(std::streambuf* sb, Log* log)
+		: base(sb, http::item::method, log) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10052, "http_request_istream::http_request_istream()");
+		}
+	}
+
+
+	template <typename Log>
+	inline http_request_istream<Log>::http_request_istream(http_request_istream&& other)
+		: base(std::move(other)) {
+	}
+
+
+	template <typename Log>
+	inline void http_request_istream<Log>::reset() {
+		base::reset(http::item::method);
+	}
+
+
+	template <typename Log>
+	inline void http_request_istream<Log>::get_method(char* buffer, std::size_t size) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10053, "http_request_istream::get_method() >>>");
+		}
+
+		base::assert_next(http::item::method);
+
+		std::size_t gcount = base::get_token(buffer, size);
+
+		base::skip_spaces();
+
+		base::set_gstate(gcount, http::item::resource);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10054, "http_request_istream::get_method() <<< method='%s', gcount=%zu", buffer, gcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_request_istream<Log>::get_resource(char* buffer, std::size_t size) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10055, "http_request_istream::get_resource() >>>");
+		}
+
+		base::assert_next(http::item::resource);
+
+		// The resource is terminated by an extra '\0', so it could be split.
+		std::size_t gcount = base::get_prints(buffer, size - 1);
+		buffer[gcount + 1] = '\0';
+
+		base::skip_spaces();
+
+		base::set_gstate(gcount, http::item::protocol);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10056, "http_request_istream::get_resource() <<< resource='%s', gcount=%zu", buffer, gcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_request_istream<Log>::get_protocol(char* buffer, std::size_t size) {
+		std::size_t gcount = http_istream<Log>::get_protocol(buffer, size);
+
+		base::skip_crlf();
+
+		base::set_gstate(gcount, http::item::header_name);
+	}
+
+
+	template <typename Log>
+	inline void http_request_istream<Log>::split_resource(char* buffer, std::size_t size) {
+		const char* const end = buffer + size;
+ 
+		// path?param1=...&param2=...
+		char* param = std::strchr(buffer, '?');
+
+		while (param < end && param != nullptr) {
+			*param++ = '\0';
+
+			if (param < end && *param != '\0') {
+				param = std::strchr(param, '&');
+			}
+		}
+	}
+
+
+	template <typename Log>
+	inline const char* http_request_istream<Log>::get_resource_parameter(const char* buffer, std::size_t size, const char* parameter_name) {
+		const char* const end = buffer + size;
+		const std::size_t parameter_name_len = std::strlen(parameter_name);
+ 
+		// path\0param1=...\0param2=...\0\0
+		const char* param = buffer + std::strlen(buffer) + 1;
+
+		while (param < end && *param != '\0') {
+			if (std::strncmp(param, parameter_name, parameter_name_len) == 0 && param[parameter_name_len] == '=') {
+				return param + parameter_name_len + 1;
+			}
+
+			if (param < end && *param != '\0') {
+				param += std::strlen(param) + 1;
+			}
+		}
+
+		return nullptr;
+	}
+
+
+	// --------------------------------------------------------------
+
+
+	template <typename Log>
+	inline http_request_ostream<Log>::http_request_ostream(std::streambuf* sb, Log* log)
+		: base(sb, http::item::method, log) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10057, "http_request_ostream::http_request_ostream()");
+		}
+	}
+
+
+	template <typename Log>
+	inline http_request_ostream<Log>::http_request_ostream(http_request_ostream&& other)
+		: base(std::move(other)) {
+	}
+
+
+	template <typename Log>
+	inline void http_request_ostream<Log>::reset() {
+		base::reset(http::item::method);
+	}
+
+
+	template <typename Log>
+	inline void http_request_ostream<Log>::put_method(const char* buffer, std::size_t size) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10058, "http_ostream::put_method() >>>");
+		}
+
+		base::assert_next(http::item::method);
+
+		if (size == size::strlen) {
+			size = std::strlen(buffer);
+		}
+
+		std::size_t pcount = base::put_token(buffer, size);
+
+		base::put_space();
+
+		base::set_pstate(http::item::resource);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_request_ostream<Log>::put_resource(const char* buffer, std::size_t size) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x1005a, "http_ostream::put_resource() >>>");
+		}
+
+		base::assert_next(http::item::resource);
+
+		if (size == size::strlen) {
+			size = std::strlen(buffer);
+		}
+
+		std::size_t pcount = base::put_prints(buffer, size);
+
+		base::put_space();
+
+		base::set_pstate(http::item::protocol);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_request_ostream<Log>::put_protocol(const char* buffer, std::size_t size) {
+		http_ostream<Log>::put_protocol(buffer, size);
+
+		base::put_crlf();
+
+		base::set_pstate(http::item::header_name);
+	}
+
+
+	// --------------------------------------------------------------
+
+
+	template <typename Log>
+	inline http_response_istream<Log>::http_response_istream(std::streambuf* sb, Log* log)
+		: base(sb, http::item::protocol, log) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x1005c, "http_response_istream::http_response_istream()");
+		}
+	}
+
+
+	template <typename Log>
+	inline http_response_istream<Log>::http_response_istream(http_response_istream&& other)
+		: base(std::move(other)) {
+	}
+
+
+	template <typename Log>
+	inline void http_response_istream<Log>::reset() {
+		base::reset(http::item::protocol);
+	}
+
+
+	template <typename Log>
+	inline void http_response_istream<Log>::get_protocol(char* buffer, std::size_t size) {
+		std::size_t gcount = http_istream<Log>::get_protocol(buffer, size);
+
+		base::set_gstate(gcount, http::item::status_code);
+	}
+
+	template <typename Log>
+	inline void http_response_istream<Log>::get_status_code(char* buffer, std::size_t size) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x1005d, "http_response_istream::get_status_code() >>>");
+		}
+
+		base::assert_next(http::item::status_code);
+
+		std::size_t gcount = base::get_digits(buffer, size);
+
+		base::skip_spaces();
+
+		base::set_gstate(gcount, http::item::reason_phrase);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005e, "http_response_istream::get_status_code() <<< status_code='%s', gcount=%zu", buffer, gcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_response_istream<Log>::get_reason_phrase(char* buffer, std::size_t size) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x1005f, "http_response_istream::get_reason_phrase() >>>");
+		}
+
+		base::assert_next(http::item::reason_phrase);
+
+		std::size_t gcount = base::get_prints_and_spaces(buffer, size);
+
+		base::skip_spaces();
+		base::skip_crlf();
+
+		base::set_gstate(gcount, http::item::header_name);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10060, "http_response_istream::get_reson_phrase() <<< reason_phrase='%s', gcount=%zu", buffer, gcount);
+		}
+	}
+
+
+	// --------------------------------------------------------------
+
+
+	template <typename Log>
+	inline http_response_ostream<Log>::http_response_ostream(std::streambuf* sb, Log* log)
+		: base(sb, http::item::protocol, log) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10061, "http_response_ostream::http_response_ostream()");
+		}
+	}
+
+
+	template <typename Log>
+	inline http_response_ostream<Log>::http_response_ostream(http_response_ostream&& other)
+		: base(std::move(other)) {
+	}
+
+
+	template <typename Log>
+	inline void http_response_ostream<Log>::reset() {
+		base::reset(http::item::protocol);
+	}
+
+
+	template <typename Log>
+	inline void http_response_ostream<Log>::put_protocol(const char* buffer, std::size_t size) {
+		http_ostream<Log>::put_protocol(buffer, size);
+
+		base::put_space();
+
+		base::set_pstate(http::item::status_code);
+	}
+
+
+	template <typename Log>
+	inline void http_response_ostream<Log>::put_status_code(const char* buffer, std::size_t size) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10062, "http_response_ostream::put_status_code() >>>");
+		}
+
+		base::assert_next(http::item::status_code);
+
+		if (size == size::strlen) {
+			size = std::strlen(buffer);
+		}
+
+		std::size_t pcount = base::put_digits(buffer, size);
+
+		base::put_space();
+
+		base::set_pstate(http::item::reason_phrase);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+		}
+	}
+
+
+	template <typename Log>
+	inline void http_response_ostream<Log>::put_reason_phrase(const char* buffer, std::size_t size) {
+		Log* log_local = base::log();
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::debug, 0x10064, "http_response_ostream::put_reason_phrase() >>>");
+		}
+
+		base::assert_next(http::item::reason_phrase);
+
+		std::size_t pcount = 0;
+		if (buffer != nullptr) {
+			if (size == size::strlen) {
+				size = std::strlen(buffer);
+			}
+
+			pcount = base::put_prints_and_spaces(buffer, size);
+		}
+
+		base::put_crlf();
+
+		base::set_pstate(http::item::header_name);
+
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%s', size=%zu, pcount=%zu", buffer != nullptr ? buffer : "<nullptr>", size, pcount);
+		}
+	}
+
+
+	// --------------------------------------------------------------
+
+
+	template <typename Log>
+	inline http_client_stream<Log>::http_client_stream(std::streambuf* sb, Log* log)
+		: http_request_ostream<Log>(sb, log)
+		, http_response_istream<Log>(sb, log) {
+	}
+
+
+	template <typename Log>
+	inline http_client_stream<Log>::http_client_stream(http_client_stream&& other)
+		: http_request_ostream<Log>(std::move(other))
+		, http_response_istream<Log>(std::move(other)) {
+	}
+
+
+	// --------------------------------------------------------------
+
+
+	template <typename Log>
+	inline http_server_stream<Log>::http_server_stream(std::streambuf* sb, Log* log)
+		: http_request_istream<Log>(sb, log)
+		, http_response_ostream<Log>(sb, log) {
+	}
+
+
+	template <typename Log>
+	inline http_server_stream<Log>::http_server_stream(http_server_stream&& other)
+		: http_request_istream<Log>(std::move(other))
+		, http_response_ostream<Log>(std::move(other)) {
+	}
+
+}
+
-- 
2.43.0


From 210ba6ae84e1a655233c9586ed5e03888e6069e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 041/105] fix: http_istream must not write beyond a buffer that
 has no room for the terminator

---
 src/http.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/http.h b/src/http.h
index 03314dd..61e0352 100644
--- a/src/http.h
+++ b/src/http.h
@@ -339,6 +339,12 @@ namespace abc {
 
 	template <typename Log>
 	inline std::size_t http_istream<Log>::get_chars(CharPredicate&& predicate, char* buffer, std::size_t size) {
+		// There must be room for the terminating '\0'.
+		if (size == 0) {
+			base::set_fail();
+			return 0;
+		}
+
 		std::size_t gcount = 0;
 
 		while (base::is_good() && predicate(peek_char())) {
@@ -769,8 +775,10 @@ namespace abc {
 		base::assert_next(http::item::resource);
 
 		// The resource is terminated by an extra '\0', so it could be split.
-		std::size_t gcount = base::get_prints(buffer, size - 1);
-		buffer[gcount + 1] = '\0';
+		std::size_t gcount = base::get_prints(buffer, size > 0 ? size - 1 : 0);
+		if (gcount + 1 < size) {
+			buffer[gcount + 1] = '\0';
+		}
 
 		base::skip_spaces();
 
-- 
2.43.0


From 01bbc2c8a05bf763f7f27dbe4900c66d654bee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 042/105] fix: http readers must flag missing parts as bad

---
 src/http.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/http.h b/src/http.h
index 61e0352..4088053 100644
--- a/src/http.h
+++ b/src/http.h
@@ -135,7 +135,9 @@ namespace abc {
 		}
 
 		if (base::is_good()) {
-			gcount += get_digits(buffer + gcount, size - gcount);
+			std::size_t dcount = get_digits(buffer + gcount, size - gcount);
+			base::set_bad_if(dcount == 0);
+			gcount += dcount;
 		}
 
 		if (gcount == size - 1) {
@@ -153,7 +155,9 @@ namespace abc {
 		}
 
 		if (base::is_good()) {
-			gcount += get_digits(buffer + gcount, size - gcount);
+			std::size_t dcount = get_digits(buffer + gcount, size - gcount);
+			base::set_bad_if(dcount == 0);
+			gcount += dcount;
 		}
 
 		skip_spaces();
@@ -754,8 +758,10 @@ namespace abc {
 		base::assert_next(http::item::method);
 
 		std::size_t gcount = base::get_token(buffer, size);
+		base::set_bad_if(gcount == 0);
 
-		base::skip_spaces();
+		std::size_t spaces = base::skip_spaces();
+		base::set_bad_if(spaces == 0);
 
 		base::set_gstate(gcount, http::item::resource);
 
@@ -779,6 +785,7 @@ namespace abc {
 		if (gcount + 1 < size) {
 			buffer[gcount + 1] = '\0';
 		}
+		base::set_bad_if(gcount == 0);
 
 		base::skip_spaces();
 
@@ -966,6 +973,7 @@ namespace abc {
 		base::assert_next(http::item::status_code);
 
 		std::size_t gcount = base::get_digits(buffer, size);
+		base::set_bad_if(gcount == 0);
 
 		base::skip_spaces();
 
-- 
2.43.0


From a6f2224f4cddc25e3eed7f8b613b8a17eb689701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 043/105] fix: http writers must refuse parts they cannot write
 instead of truncating them

---
 src/http.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.h b/src/http.h
index 4088053..7b10417 100644
--- a/src/http.h
+++ b/src/http.h
@@ -511,7 +511,7 @@ namespace abc {
 		std::size_t pcount = put_token(buffer, size);
 
 		if (base::is_good()) {
-			if (pcount < size) {
+			if (pcount == 0 || pcount < size) {
 				base::set_bad();
 			}
 		}
@@ -885,6 +885,7 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_token(buffer, size);
+		base::set_bad_if(pcount == 0 || pcount < size);
 
 		base::put_space();
 
@@ -910,6 +911,7 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_prints(buffer, size);
+		base::set_bad_if(pcount == 0 || pcount < size);
 
 		base::put_space();
 
@@ -1056,6 +1058,7 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_digits(buffer, size);
+		base::set_bad_if(pcount == 0 || pcount < size);
 
 		base::put_space();
 
@@ -1083,6 +1086,7 @@ namespace abc {
 			}
 
 			pcount = base::put_prints_and_spaces(buffer, size);
+			base::set_bad_if(pcount < size);
 		}
 
 		base::put_crlf();
-- 
2.43.0


From 53eac601312dffe1b76f8136dba326220357312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 044/105] fix: split_resource must stop at the end of the
 resource

---
 src/http.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/http.h b/src/http.h
index 7b10417..56f9764 100644
--- a/src/http.h
+++ b/src/http.h
@@ -814,12 +814,11 @@ namespace abc {
 		// path?param1=...&param2=...
 		char* param = std::strchr(buffer, '?');
 
-		while (param < end && param != nullptr) {
+		while (param != nullptr && param < end) {
 			*param++ = '\0';
 
-			if (param < end && *param != '\0') {
-				param = std::strchr(param, '&');
-			}
+			// Nothing follows the '\0' of the resource.
+			param = param < end && *param != '\0' ? std::strchr(param, '&') : nullptr;
 		}
 	}
 
-- 
2.43.0


From 74e94128edb5440cae9ac98aa5774523bfaf6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 045/105] fix: an empty resource parameter must not hide the
 ones that follow

---
 src/http.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/http.h b/src/http.h
index 56f9764..d50056f 100644
--- a/src/http.h
+++ b/src/http.h
@@ -817,6 +817,11 @@ namespace abc {
 		while (param != nullptr && param < end) {
 			*param++ = '\0';
 
+			// An empty parameter would look like the end. It is skipped by get_resource_parameter().
+			while (param < end && *param == '&') {
+				param++;
+			}
+
 			// Nothing follows the '\0' of the resource.
 			param = param < end && *param != '\0' ? std::strchr(param, '&') : nullptr;
 		}
@@ -832,6 +837,10 @@ namespace abc {
 		const char* param = buffer + std::strlen(buffer) + 1;
 
 		while (param < end && *param != '\0') {
+			while (*param == '&') {
+				param++;
+			}
+
 			if (std::strncmp(param, parameter_name, parameter_name_len) == 0 && param[parameter_name_len] == '=') {
 				return param + parameter_name_len + 1;
 			}
-- 
2.43.0


From 03a57c0b032fbc56f0541a366991eef365b07c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 046/105] fix: http streams must not log beyond the caller's
 buffer

---
 src/http.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/http.h b/src/http.h
index d50056f..10b9dcc 100644
--- a/src/http.h
+++ b/src/http.h
@@ -263,7 +263,7 @@ namespace abc {
 		set_gstate(gcount, http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%s', gcount=%zu", buffer, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%.*s', gcount=%zu", static_cast<int>(gcount), buffer, gcount);
 		}
 	}
 
@@ -488,7 +488,7 @@ namespace abc {
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%s', size=%zu, gcount=%zu", buffer, size, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%.*s', size=%zu, gcount=%zu", static_cast<int>(size), buffer, size, gcount);
 		}
 
 		return gcount;
@@ -524,7 +524,7 @@ namespace abc {
 		set_pstate(http::item::header_value);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -568,7 +568,7 @@ namespace abc {
 		set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -610,7 +610,7 @@ namespace abc {
 		set_pstate(http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -900,7 +900,7 @@ namespace abc {
 		base::set_pstate(http::item::resource);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -926,7 +926,7 @@ namespace abc {
 		base::set_pstate(http::item::protocol);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -1073,7 +1073,7 @@ namespace abc {
 		base::set_pstate(http::item::reason_phrase);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -1102,7 +1102,7 @@ namespace abc {
 		base::set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%s', size=%zu, pcount=%zu", buffer != nullptr ? buffer : "<nullptr>", size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%.*s', size=%zu, pcount=%zu", buffer != nullptr ? static_cast<int>(size) : 9, buffer != nullptr ? buffer : "<nullptr>", size, pcount);
 		}
 	}
 
-- 
2.43.0


From 00eae78bcbbe3b1dca11e6581fb7befd8eed7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 047/105] fix: resetting http streams must compile and reset
 both the stream and the next item

---
 src/http.h     |   14 +
 src/i/http.i.h | 1514 ++++++++++++++++++++++++------------------------
 2 files changed, 777 insertions(+), 751 deletions(-)

diff --git a/src/http.h b/src/http.h
index 10b9dcc..d2218a2 100644
--- a/src/http.h
+++ b/src/http.h
@@ -99,6 +99,13 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void http_istream<Log>::reset(http::item_t next) {
+		base::reset();
+		state::reset(next);
+	}
+
+
 	template <typename Log>
 	inline void http_istream<Log>::set_gstate(std::size_t gcount, http::item_t next) {
 		base::set_gcount(gcount);
@@ -424,6 +431,13 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void http_ostream<Log>::reset(http::item_t next) {
+		base::reset();
+		state::reset(next);
+	}
+
+
 	template <typename Log>
 	inline void http_ostream<Log>::set_pstate(http::item_t next) {
 		base::flush();
diff --git a/src/i/http.i.h b/src/i/http.i.h
index a4ee1d1..ec0f18c 100644
--- a/src/i/http.i.h
+++ b/src/i/http.i.h
@@ -1,751 +1,763 @@
-/*
-MIT License
-
-Copyright (c) 2018-2023 Zlatko Michailov 
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*/
-
-
-#pragma once
-
-#include <streambuf>
-#include <istream>
-#include <ostream>
-
-#include "stream.i.h"
-#include "log.i.h"
-
-
-namespace abc {
-
-	namespace http {
-		using item_t = std::uint8_t;
-
-		namespace item {
-			constexpr item_t method			= 0;
-			constexpr item_t resource		= 1;
-			constexpr item_t protocol		= 2;
-			constexpr item_t status_code	= 3;
-			constexpr item_t reason_phrase	= 4;
-			constexpr item_t header_name	= 5;
-			constexpr item_t header_value	= 6;
-			constexpr item_t body			= 7;
-		}
-	}
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				Internal. http semantic state. 
-	 * @tparam Log			Logging facility.
-	 */
-	template <typename Log>
-	class http_state {
-	protected:
-		/**
-		 * @brief			Constructor.
-		 * @param next		Next item.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		http_state(http::item_t next, Log* log) noexcept;
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		http_state(http_state&& other) = default;
-
-		/**
-		 * @brief			Copy constructor.
-		 */
-		http_state(const http_state& other) = default;
-
-	public:
-		/**
-		 * @brief			Returns the next expected item.
-		 */
-		http::item_t next() const noexcept;
-
-	protected:
-		/**
-		 * @brief			Resets the next item.
-		 * @param next		Next item.
-		 */
-		void reset(http::item_t next);
-
-		/**
-		 * @brief			Throws if `item` doesn't match `next()`.
-		 * @param item		Item to verify.
-		 */
-		void assert_next(http::item_t item);
-
-		/**
-		 * @brief			Returns the log passed in to the constructor.
-		 */
-		Log* log() const noexcept;
-
-	private:
-		/**
-		 * @brief			The next expected item.
-		 */
-		http::item_t _next;
-
-		/**
-		 * @brief			The log passed in to the constructor.
-		 */
-		Log* _log;
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				Internal. Common http input stream. Used to read a request on the server or to read a response on the client.
-	 * @tparam Log			Logging facility.
-	 */
-	template <typename Log>
-	class http_istream : public istream, public http_state<Log> {
-		using base  = istream;
-		using state = http_state<Log>;
-
-	protected:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param next		Next expected item.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		http_istream(std::streambuf* sb, http::item_t next, Log* log);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		http_istream(http_istream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		http_istream(const http_istream& other) = delete;
-
-	public:
-		/**
-		 * @brief			Reads a header name from the http stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_header_name(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads a header value from the http stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_header_value(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads a body from the http stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_body(char* buffer, std::size_t size);
-
-	protected:
-		/**
-		 * @brief			Set the gcount and the next expected item for this input stream.
-		 * @param gcount	gcount.
-		 * @param next		Next expected item.
-		 */
-		void set_gstate(std::size_t gcount, http::item_t next);
-
-		/**
-		 * @brief			Reads the protocol and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t get_protocol(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads an http token and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t get_token(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads a sequence of printable chars and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t get_prints(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads a sequence of printable chars and spaces and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t get_prints_and_spaces(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads a sequence of letters and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t get_alphas(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads a sequence of digits and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t get_digits(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a sequence of spaces.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t skip_spaces();
-
-		/**
-		 * @brief			Skips a CR LF sequence.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t skip_crlf();
-
-		/**
-		 * @brief			Reads a sequence of chars with no restrictions and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t get_bytes(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads a sequence of chars that match a predicate and copies it into the given buffer.
-		 * @param predicate	Predicate.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t get_chars(CharPredicate&& predicate, char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips a sequence of chars that match a predicate.
-		 * @param predicate	Predicate.
-		 * @return			The count of chars read. 
-		 */
-		std::size_t skip_chars(CharPredicate&& predicate);
-
-		/**
-		 * @brief			Gets the next char from the stream and moves forward.
-		 * @return			The next char.
-		 */
-		char get_char();
-
-		/**
-		 * @brief			Returns the next char from the stream without moving forward.
-		 */
-		char peek_char();
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				Internal. Common http output stream. Used to write a request on the client or to write a response on the server.
-	 * @tparam Log			Logging facility.
-	 */
-	template <typename Log>
-	class http_ostream : public ostream, public http_state<Log> {
-		using base  = ostream;
-		using state = http_state<Log>;
-
-	protected:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to write to.
-		 * @param next		Next expected item.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		http_ostream(std::streambuf* sb, http::item_t next, Log* log);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		http_ostream(http_ostream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		http_ostream(const http_ostream& other) = delete;
-
-	public:
-		/**
-		 * @brief			Writes a header name to the http stream from the given buffer.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 */
-		void put_header_name(const char*buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes a header value to the http stream from the given buffer.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 */
-		void put_header_value(const char* buffer, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes the end of headers to the http stream.
-		 */
-		void end_headers();
-
-		/**
-		 * @brief			Writes a body to the http stream from the given buffer.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 */
-		void put_body(const char* buffer, std::size_t size = size::strlen);
-
-	protected:
-		/**
-		 * @brief			Sets the next expected item for the stream.
-		 * @param next		The next expected item.
-		 */
-		void set_pstate(http::item_t next);
-
-		/**
-		 * @brief			Writes a protocol to the http stream from the given buffer.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 * @return			The count of chars written. 
-		 */
-		std::size_t put_protocol(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a token to the http stream from the given buffer.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 * @return			The count of chars written. 
-		 */
-		std::size_t put_token(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a sequence of printable chars to the http stream from the given buffer.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 * @return			The count of chars written. 
-		 */
-		std::size_t put_prints(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a sequence of printable chars and spaces to the http stream from the given buffer.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 * @return			The count of chars written. 
-		 */
-		std::size_t put_prints_and_spaces(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a sequence of letters to the http stream from the given buffer.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 * @return			The count of chars written. 
-		 */
-		std::size_t put_alphas(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a sequence of digits to the http stream from the given buffer.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 * @return			The count of chars written. 
-		 */
-		std::size_t put_digits(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a CR LF sequence to the http stream.
-		 * @return			The count of chars written. 
-		 */
-		std::size_t put_crlf();
-
-		/**
-		 * @brief			Writes a space to the http stream.
-		 * @return			The count of chars written. 
-		 */
-		std::size_t put_space();
-
-		/**
-		 * @brief			Writes a sequence of bytes to the http stream from the given buffer.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 * @return			The count of chars written. 
-		 */
-		std::size_t put_bytes(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a sequence of chars that match a predicate to the http stream from the given buffer.
-		 * @param predicate	Predicate.
-		 * @param buffer	Buffer to copy from.
-		 * @param size		Content size.
-		 * @return			The count of chars written. 
-		 */
-		std::size_t put_chars(CharPredicate&& predicate, const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Writes a char to the http stream.
-		 * @param ch		Char to write.
-		 * @return			1 = success. 0 = error.
-		 */
-		std::size_t put_char(char ch);
-
-		/**
-		 * @brief			Skips/counts the leading spaces from a header value residing in the given buffer. Does not write to the http stream.
-		 * @param buffer	Buffer.
-		 * @param size		Content size.
-		 * @return			The count of chars. 
-		 */
-		std::size_t skip_spaces_in_header_value(const char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Skips/counts the leading spaces from the given buffer. Does not write to the http stream.
-		 * @param buffer	Buffer.
-		 * @param size		Content size.
-		 * @return			The count of chars. 
-		 */
-		std::size_t skip_spaces(const char* buffer, std::size_t size);
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				http request input stream. Used on the server side to read requests.
-	 * @tparam Log			Logging facility.
-	 */
-	template <typename Log = null_log>
-	class http_request_istream : public http_istream<Log> {
-		using base  = http_istream<Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		http_request_istream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		http_request_istream(http_request_istream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		http_request_istream(const http_request_istream& other) = delete;
-
-		/**
-		 * @brief			Resets the read state.
-		 */
-		void reset();
-
-	public:
-		/**
-		 * @brief			Reads an http method from the http stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_method(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads an http resource from the http stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_resource(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads an http protocol from the http stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_protocol(char* buffer, std::size_t size);
-
-	public:
-		/**
-		 * @brief			Splits an http resource by replacing the '?' and each '&' with '\0' in the given buffer.
-		 * @param buffer	Buffer where the resource is modified in place.
-		 * @param size		Buffer size.
-		 */
-		static void split_resource(char* buffer, std::size_t size);
-
-		/**
-		 * @brief Get the resource parameter object
-		 * @param buffer	Buffer where the resource is already split.
-		 * @param size		Buffer size.
-		 * @param parameter_name Parameter name
-		 * @return			Pointer to the beginning of the parameter or `nullptr` if there is no such parameter.
-		 */
-		static const char* get_resource_parameter(const char* buffer, std::size_t size, const char* parameter_name);
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				http request output stream. Used on the client side to write requests.
-	 * @tparam Log			Logging facility.
-	 */
-	template <typename Log = null_log>
-	class http_request_ostream : public http_ostream<Log> {
-		using base  = http_ostream<Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to write to.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		http_request_ostream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		http_request_ostream(http_request_ostream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		http_request_ostream(const http_request_ostream& other) = delete;
-
-		/**
-		 * @brief			Resets the write state.
-		 */
-		void reset();
-
-	public:
-		/**
-		 * @brief			Writes an http method to the http stream.
-		 * @param method	Buffer to copy from.
-		 * @param size		Content size.
-		 */
-		void put_method(const char* method, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes an http resource to the http stream.
-		 * @param resource	Buffer to copy from.
-		 * @param size		Content size.
-		 */
-		void put_resource(const char* resource, std::size_t size = size::strlen);
-
-		/**
-		 * @brief			Writes an http protocol to the http stream.
-		 * @param protocol	Buffer to copy from.
-		 * @param size		Content size.
-		 */
-		void put_protocol(const char* protocol, std::size_t size = size::strlen);
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief				http response input stream. Used on the client side to read responses.
-	 * @tparam Log			Logging facility.
-	 */
-	template <typename Log = null_log>
-	class http_response_istream : public http_istream<Log> {
-		using base  = http_istream<Log>;
-
-	public:
-		/**
-		 * @brief			Constructor.
-		 * @param sb		`std::streambuf` to read from.
-		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		http_response_istream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief			Move constructor.
-		 */
-		http_response_istream(http_response_istream&& other);
-
-		/**
-		 * @brief			Deleted.
-		 */
-		http_response_istream(const http_response_istream& other) = delete;
-
-		/**
-		 * @brief			Resets the read state.
-		 */
-		void reset();
-
-	public:
-		/**
-		 * @brief			Reads an http protocol from the http stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_protocol(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads an http status code from the http stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_status_code(char* buffer, std::size_t size);
-
-		/**
-		 * @brief			Reads an http reason phrase from the http stream, and copies it into the given buffer.
-		 * @param buffer	Buffer to copy to.
-		 * @param size		Buffer size.
-		 */
-		void get_reason_phrase(char* buffer, std::size_t size);
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief					http response output stream. Used on the server side to write responses.
-	 * @tparam Log				Logging facility.
-	 */
-	template <typename Log = null_log>
-	class http_response_ostream : public http_ostream<Log> {
-		using base  = http_ostream<Log>;
-
-	public:
-		/**
-		 * @brief				Constructor.
-		 * @param sb			`std::streambuf` to write to.
-		 * @param log			Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		http_response_ostream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief				Move constructor.
-		 */
-		http_response_ostream(http_response_ostream&& other);
-
-		/**
-		 * @brief				Deleted.
-		 */
-		http_response_ostream(const http_response_ostream& other) = delete;
-
-		/**
-		 * @brief				Resets the write state.
-		 */
-		void reset();
-
-	public:
-		/**
-		 * @brief				Writes an http protocol to the http stream.
-		 * @param protocol		Buffer to copy from.
-		 * @param size			Content size.
-		 */
-		void put_protocol(const char* protocol, std::size_t size = size::strlen);
-
-		/**
-		 * @brief				Writes an http status code to the http stream.
-		 * @param status_code	Buffer to copy from.
-		 * @param size			Content size.
-		 */
-		void put_status_code(const char* status_code, std::size_t size = size::strlen);
-
-		/**
-		 * @brief				Writes an http reason phrase to the http stream.
-		 * @param reason_phrase	Buffer to copy from.
-		 * @param size			Content size.
-		 */
-		void put_reason_phrase(const char* reason_phrase, std::size_t size = size::strlen);
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief			Combination of `http_request_ostream` and `http_response_istream`. Used on the client side.
-	 * @tparam Log		Logging facility.
-	 */
-	template <typename Log = null_log>
-	class http_client_stream : public http_request_ostream<Log>, public http_response_istream<Log> {
-	public:
-		/**
-		 * @brief		Constructor.
-		 * 
-		 * @param sb	`std::streambuf` to read from and to write to.
-		 * @param log	Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		http_client_stream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief		Move constructor.
-		 */
-		http_client_stream(http_client_stream&& other);
-
-		/**
-		 * @brief		Deleted.
-		 */
-		http_client_stream(const http_client_stream& other) = delete;
-	};
-
-
-	// --------------------------------------------------------------
-
-
-	/**
-	 * @brief			Combination of `http_request_istream` and `http_response_ostream`. Used on the server side.
-	 * @tparam Log		Logging facility.
-	 */
-	template <typename Log = null_log>
-	class http_server_stream : public http_request_istream<Log>, public http_response_ostream<Log> {
-	public:
-		/**
-		 * @brief		Constructor.
-		 * @param sb	`std::streambuf` to read from and to write to.
-		 * @param log	Pointer to a `Log` instance. May be `nullptr`.
-		 */
-		http_server_stream(std::streambuf* sb, Log* log = nullptr);
-
-		/**
-		 * @brief		Move constructor.
-		 */
-		http_server_stream(http_server_stream&& other);
-
-		/**
-		 * @brief		Deleted.
-		 */
-		http_server_stream(const http_server_stream& other) = delete;
-	};
-
-}
-
+/*
+MIT License
+
+Copyright (c) 2018-2023 Zlatko Michailov 
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*/
+
+
+#pragma once
+
+#include <streambuf>
+#include <istream>
+#include <ostream>
+
+#include "stream.i.h"
+#include "log.i.h"
+
+
+namespace abc {
+
+	namespace http {
+		using item_t = std::uint8_t;
+
+		namespace item {
+			constexpr item_t method			= 0;
+			constexpr item_t resource		= 1;
+			constexpr item_t protocol		= 2;
+			constexpr item_t status_code	= 3;
+			constexpr item_t reason_phrase	= 4;
+			constexpr item_t header_name	= 5;
+			constexpr item_t header_value	= 6;
+			constexpr item_t body			= 7;
+		}
+	}
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				Internal. http semantic state. 
+	 * @tparam Log			Logging facility.
+	 */
+	template <typename Log>
+	class http_state {
+	protected:
+		/**
+		 * @brief			Constructor.
+		 * @param next		Next item.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		http_state(http::item_t next, Log* log) noexcept;
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		http_state(http_state&& other) = default;
+
+		/**
+		 * @brief			Copy constructor.
+		 */
+		http_state(const http_state& other) = default;
+
+	public:
+		/**
+		 * @brief			Returns the next expected item.
+		 */
+		http::item_t next() const noexcept;
+
+	protected:
+		/**
+		 * @brief			Resets the next item.
+		 * @param next		Next item.
+		 */
+		void reset(http::item_t next);
+
+		/**
+		 * @brief			Throws if `item` doesn't match `next()`.
+		 * @param item		Item to verify.
+		 */
+		void assert_next(http::item_t item);
+
+		/**
+		 * @brief			Returns the log passed in to the constructor.
+		 */
+		Log* log() const noexcept;
+
+	private:
+		/**
+		 * @brief			The next expected item.
+		 */
+		http::item_t _next;
+
+		/**
+		 * @brief			The log passed in to the constructor.
+		 */
+		Log* _log;
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				Internal. Common http input stream. Used to read a request on the server or to read a response on the client.
+	 * @tparam Log			Logging facility.
+	 */
+	template <typename Log>
+	class http_istream : public istream, public http_state<Log> {
+		using base  = istream;
+		using state = http_state<Log>;
+
+	protected:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param next		Next expected item.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		http_istream(std::streambuf* sb, http::item_t next, Log* log);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		http_istream(http_istream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		http_istream(const http_istream& other) = delete;
+
+	public:
+		/**
+		 * @brief			Reads a header name from the http stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_header_name(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads a header value from the http stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_header_value(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads a body from the http stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_body(char* buffer, std::size_t size);
+
+	protected:
+		/**
+		 * @brief			Resets the read state.
+		 * @param next		Next item.
+		 */
+		void reset(http::item_t next);
+
+		/**
+		 * @brief			Set the gcount and the next expected item for this input stream.
+		 * @param gcount	gcount.
+		 * @param next		Next expected item.
+		 */
+		void set_gstate(std::size_t gcount, http::item_t next);
+
+		/**
+		 * @brief			Reads the protocol and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t get_protocol(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads an http token and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t get_token(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads a sequence of printable chars and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t get_prints(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads a sequence of printable chars and spaces and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t get_prints_and_spaces(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads a sequence of letters and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t get_alphas(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads a sequence of digits and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t get_digits(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a sequence of spaces.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t skip_spaces();
+
+		/**
+		 * @brief			Skips a CR LF sequence.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t skip_crlf();
+
+		/**
+		 * @brief			Reads a sequence of chars with no restrictions and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t get_bytes(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads a sequence of chars that match a predicate and copies it into the given buffer.
+		 * @param predicate	Predicate.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t get_chars(CharPredicate&& predicate, char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips a sequence of chars that match a predicate.
+		 * @param predicate	Predicate.
+		 * @return			The count of chars read. 
+		 */
+		std::size_t skip_chars(CharPredicate&& predicate);
+
+		/**
+		 * @brief			Gets the next char from the stream and moves forward.
+		 * @return			The next char.
+		 */
+		char get_char();
+
+		/**
+		 * @brief			Returns the next char from the stream without moving forward.
+		 */
+		char peek_char();
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				Internal. Common http output stream. Used to write a request on the client or to write a response on the server.
+	 * @tparam Log			Logging facility.
+	 */
+	template <typename Log>
+	class http_ostream : public ostream, public http_state<Log> {
+		using base  = ostream;
+		using state = http_state<Log>;
+
+	protected:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to write to.
+		 * @param next		Next expected item.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		http_ostream(std::streambuf* sb, http::item_t next, Log* log);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		http_ostream(http_ostream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		http_ostream(const http_ostream& other) = delete;
+
+	public:
+		/**
+		 * @brief			Writes a header name to the http stream from the given buffer.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 */
+		void put_header_name(const char*buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes a header value to the http stream from the given buffer.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 */
+		void put_header_value(const char* buffer, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes the end of headers to the http stream.
+		 */
+		void end_headers();
+
+		/**
+		 * @brief			Writes a body to the http stream from the given buffer.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 */
+		void put_body(const char* buffer, std::size_t size = size::strlen);
+
+	protected:
+		/**
+		 * @brief			Resets the write state.
+		 * @param next		Next item.
+		 */
+		void reset(http::item_t next);
+
+		/**
+		 * @brief			Sets the next expected item for the stream.
+		 * @param next		The next expected item.
+		 */
+		void set_pstate(http::item_t next);
+
+		/**
+		 * @brief			Writes a protocol to the http stream from the given buffer.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 * @return			The count of chars written. 
+		 */
+		std::size_t put_protocol(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a token to the http stream from the given buffer.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 * @return			The count of chars written. 
+		 */
+		std::size_t put_token(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a sequence of printable chars to the http stream from the given buffer.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 * @return			The count of chars written. 
+		 */
+		std::size_t put_prints(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a sequence of printable chars and spaces to the http stream from the given buffer.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 * @return			The count of chars written. 
+		 */
+		std::size_t put_prints_and_spaces(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a sequence of letters to the http stream from the given buffer.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 * @return			The count of chars written. 
+		 */
+		std::size_t put_alphas(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a sequence of digits to the http stream from the given buffer.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 * @return			The count of chars written. 
+		 */
+		std::size_t put_digits(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a CR LF sequence to the http stream.
+		 * @return			The count of chars written. 
+		 */
+		std::size_t put_crlf();
+
+		/**
+		 * @brief			Writes a space to the http stream.
+		 * @return			The count of chars written. 
+		 */
+		std::size_t put_space();
+
+		/**
+		 * @brief			Writes a sequence of bytes to the http stream from the given buffer.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 * @return			The count of chars written. 
+		 */
+		std::size_t put_bytes(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a sequence of chars that match a predicate to the http stream from the given buffer.
+		 * @param predicate	Predicate.
+		 * @param buffer	Buffer to copy from.
+		 * @param size		Content size.
+		 * @return			The count of chars written. 
+		 */
+		std::size_t put_chars(CharPredicate&& predicate, const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Writes a char to the http stream.
+		 * @param ch		Char to write.
+		 * @return			1 = success. 0 = error.
+		 */
+		std::size_t put_char(char ch);
+
+		/**
+		 * @brief			Skips/counts the leading spaces from a header value residing in the given buffer. Does not write to the http stream.
+		 * @param buffer	Buffer.
+		 * @param size		Content size.
+		 * @return			The count of chars. 
+		 */
+		std::size_t skip_spaces_in_header_value(const char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Skips/counts the leading spaces from the given buffer. Does not write to the http stream.
+		 * @param buffer	Buffer.
+		 * @param size		Content size.
+		 * @return			The count of chars. 
+		 */
+		std::size_t skip_spaces(const char* buffer, std::size_t size);
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				http request input stream. Used on the server side to read requests.
+	 * @tparam Log			Logging facility.
+	 */
+	template <typename Log = null_log>
+	class http_request_istream : public http_istream<Log> {
+		using base  = http_istream<Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		http_request_istream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		http_request_istream(http_request_istream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		http_request_istream(const http_request_istream& other) = delete;
+
+		/**
+		 * @brief			Resets the read state.
+		 */
+		void reset();
+
+	public:
+		/**
+		 * @brief			Reads an http method from the http stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_method(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads an http resource from the http stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_resource(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads an http protocol from the http stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_protocol(char* buffer, std::size_t size);
+
+	public:
+		/**
+		 * @brief			Splits an http resource by replacing the '?' and each '&' with '\0' in the given buffer.
+		 * @param buffer	Buffer where the resource is modified in place.
+		 * @param size		Buffer size.
+		 */
+		static void split_resource(char* buffer, std::size_t size);
+
+		/**
+		 * @brief Get the resource parameter object
+		 * @param buffer	Buffer where the resource is already split.
+		 * @param size		Buffer size.
+		 * @param parameter_name Parameter name
+		 * @return			Pointer to the beginning of the parameter or `nullptr` if there is no such parameter.
+		 */
+		static const char* get_resource_parameter(const char* buffer, std::size_t size, const char* parameter_name);
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				http request output stream. Used on the client side to write requests.
+	 * @tparam Log			Logging facility.
+	 */
+	template <typename Log = null_log>
+	class http_request_ostream : public http_ostream<Log> {
+		using base  = http_ostream<Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to write to.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		http_request_ostream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		http_request_ostream(http_request_ostream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		http_request_ostream(const http_request_ostream& other) = delete;
+
+		/**
+		 * @brief			Resets the write state.
+		 */
+		void reset();
+
+	public:
+		/**
+		 * @brief			Writes an http method to the http stream.
+		 * @param method	Buffer to copy from.
+		 * @param size		Content size.
+		 */
+		void put_method(const char* method, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes an http resource to the http stream.
+		 * @param resource	Buffer to copy from.
+		 * @param size		Content size.
+		 */
+		void put_resource(const char* resource, std::size_t size = size::strlen);
+
+		/**
+		 * @brief			Writes an http protocol to the http stream.
+		 * @param protocol	Buffer to copy from.
+		 * @param size		Content size.
+		 */
+		void put_protocol(const char* protocol, std::size_t size = size::strlen);
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief				http response input stream. Used on the client side to read responses.
+	 * @tparam Log			Logging facility.
+	 */
+	template <typename Log = null_log>
+	class http_response_istream : public http_istream<Log> {
+		using base  = http_istream<Log>;
+
+	public:
+		/**
+		 * @brief			Constructor.
+		 * @param sb		`std::streambuf` to read from.
+		 * @param log		Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		http_response_istream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief			Move constructor.
+		 */
+		http_response_istream(http_response_istream&& other);
+
+		/**
+		 * @brief			Deleted.
+		 */
+		http_response_istream(const http_response_istream& other) = delete;
+
+		/**
+		 * @brief			Resets the read state.
+		 */
+		void reset();
+
+	public:
+		/**
+		 * @brief			Reads an http protocol from the http stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_protocol(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads an http status code from the http stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_status_code(char* buffer, std::size_t size);
+
+		/**
+		 * @brief			Reads an http reason phrase from the http stream, and copies it into the given buffer.
+		 * @param buffer	Buffer to copy to.
+		 * @param size		Buffer size.
+		 */
+		void get_reason_phrase(char* buffer, std::size_t size);
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief					http response output stream. Used on the server side to write responses.
+	 * @tparam Log				Logging facility.
+	 */
+	template <typename Log = null_log>
+	class http_response_ostream : public http_ostream<Log> {
+		using base  = http_ostream<Log>;
+
+	public:
+		/**
+		 * @brief				Constructor.
+		 * @param sb			`std::streambuf` to write to.
+		 * @param log			Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		http_response_ostream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief				Move constructor.
+		 */
+		http_response_ostream(http_response_ostream&& other);
+
+		/**
+		 * @brief				Deleted.
+		 */
+		http_response_ostream(const http_response_ostream& other) = delete;
+
+		/**
+		 * @brief				Resets the write state.
+		 */
+		void reset();
+
+	public:
+		/**
+		 * @brief				Writes an http protocol to the http stream.
+		 * @param protocol		Buffer to copy from.
+		 * @param size			Content size.
+		 */
+		void put_protocol(const char* protocol, std::size_t size = size::strlen);
+
+		/**
+		 * @brief				Writes an http status code to the http stream.
+		 * @param status_code	Buffer to copy from.
+		 * @param size			Content size.
+		 */
+		void put_status_code(const char* status_code, std::size_t size = size::strlen);
+
+		/**
+		 * @brief				Writes an http reason phrase to the http stream.
+		 * @param reason_phrase	Buffer to copy from.
+		 * @param size			Content size.
+		 */
+		void put_reason_phrase(const char* reason_phrase, std::size_t size = size::strlen);
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief			Combination of `http_request_ostream` and `http_response_istream`. Used on the client side.
+	 * @tparam Log		Logging facility.
+	 */
+	template <typename Log = null_log>
+	class http_client_stream : public http_request_ostream<Log>, public http_response_istream<Log> {
+	public:
+		/**
+		 * @brief		Constructor.
+		 * 
+		 * @param sb	`std::streambuf` to read from and to write to.
+		 * @param log	Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		http_client_stream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief		Move constructor.
+		 */
+		http_client_stream(http_client_stream&& other);
+
+		/**
+		 * @brief		Deleted.
+		 */
+		http_client_stream(const http_client_stream& other) = delete;
+	};
+
+
+	// --------------------------------------------------------------
+
+
+	/**
+	 * @brief			Combination of `http_request_istream` and `http_response_ostream`. Used on the server side.
+	 * @tparam Log		Logging facility.
+	 */
+	template <typename Log = null_log>
+	class http_server_stream : public http_request_istream<Log>, public http_response_ostream<Log> {
+	public:
+		/**
+		 * @brief		Constructor.
+		 * @param sb	`std::streambuf` to read from and to write to.
+		 * @param log	Pointer to a `Log` instance. May be `nullptr`.
+		 */
+		http_server_stream(std::streambuf* sb, Log* log = nullptr);
+
+		/**
+		 * @brief		Move constructor.
+		 */
+		http_server_stream(http_server_stream&& other);
+
+		/**
+		 * @brief		Deleted.
+		 */
+		http_server_stream(const http_server_stream& other) = delete;
+	};
+
+}
+
-- 
2.43.0


From ee75fd23bcbd7b4689ad5cf804eff24b4f921f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 048/105] fix: get_resource() must terminate a buffer of a
 single byte

---
 src/http.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http.h b/src/http.h
index d2218a2..7f3f93d 100644
--- a/src/http.h
+++ b/src/http.h
@@ -799,6 +799,9 @@ namespace abc {
 		if (gcount + 1 < size) {
 			buffer[gcount + 1] = '\0';
 		}
+		else if (size == 1) {
+			buffer[0] = '\0';
+		}
 		base::set_bad_if(gcount == 0);
 
 		base::skip_spaces();
-- 
2.43.0


From b7ba5451d4b8caf938ae3c984c712742d4eca965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 049/105] fix: sizes must be logged with a complete format

---
 src/openssl_socket.h | 12 ++++++------
 src/socket.h         | 12 ++++++------
 src/x/vmem_pool.x.h  |  2 +-
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index ed8e3c8..c9ab0a2 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -187,20 +187,20 @@ namespace abc {
 
 		if (sent_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10777, "openssl_tcp_client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10777, "openssl_tcp_client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 
 			sent_size = 0;
 		}
 		else if ((std::size_t)sent_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10778, "openssl_tcp_client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10778, "openssl_tcp_client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 		}
 
 		if (log_local != nullptr) {
 			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10779, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1077a, "openssl_tcp_client_socket::send() <<< size=%zu, sent_size=%l", size, sent_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1077a, "openssl_tcp_client_socket::send() <<< size=%zu, sent_size=%ld", size, (long)sent_size);
 		}
 
 		return sent_size;
@@ -226,20 +226,20 @@ namespace abc {
 
 		if (received_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x1077e, "openssl_tcp_client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x1077e, "openssl_tcp_client_socket::receive() received_size=%ld", (long)received_size);
 			}
 
 			received_size = 0;
 		}
 		else if ((std::size_t)received_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x1077f, "openssl_tcp_client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x1077f, "openssl_tcp_client_socket::receive() received_size=%ld", (long)received_size);
 			}
 		}
 
 		if (log_local != nullptr) {
 			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10780, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10781, "openssl_tcp_client_socket::receive() <<< size=%zu, received_size=%l", size, received_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10781, "openssl_tcp_client_socket::receive() <<< size=%zu, received_size=%ld", size, (long)received_size);
 		}
 
 		return received_size;
diff --git a/src/socket.h b/src/socket.h
index 513e35e..6648ef5 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -371,20 +371,20 @@ namespace abc {
 
 		if (sent_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x1043f, "client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x1043f, "client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 
 			sent_size = 0;
 		}
 		else if ((std::size_t)sent_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10440, "client_socket::send() sent_size=%l", (long)sent_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10440, "client_socket::send() sent_size=%ld", (long)sent_size);
 			}
 		}
 
 		if (log_local != nullptr) {
 			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10066, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1001b, "client_socket::send() <<< size=%zu, sent_size=%l", size, sent_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1001b, "client_socket::send() <<< size=%zu, sent_size=%ld", size, (long)sent_size);
 		}
 
 		return sent_size;
@@ -416,20 +416,20 @@ namespace abc {
 
 		if (received_size < 0) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10441, "client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10441, "client_socket::receive() received_size=%ld", (long)received_size);
 			}
 
 			received_size = 0;
 		}
 		else if ((std::size_t)received_size < size) {
 			if (log_local != nullptr) {
-				log_local->put_any(category::abc::socket, severity::important, 0x10442, "client_socket::receive() received_size=%l", (long)received_size);
+				log_local->put_any(category::abc::socket, severity::important, 0x10442, "client_socket::receive() received_size=%ld", (long)received_size);
 			}
 		}
 
 		if (log_local != nullptr) {
 			log_local->put_binary(category::abc::socket, severity::abc::debug, 0x10067, buffer, size);
-			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10021, "client_socket::receive() <<< size=%zu, received_size=%l", size, received_size);
+			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10021, "client_socket::receive() <<< size=%zu, received_size=%ld", size, (long)received_size);
 		}
 
 		return received_size;
diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index 766caa0..cd13631 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -463,7 +463,7 @@ namespace abc {
 			page_pos = vmem_page_pos_nil;
 
 			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::abc::debug, 0x10398, "vmem_pool::create_page() wb=%l, errno=%d", (long)wb, errno);
+				_log->put_any(category::abc::vmem, severity::abc::debug, 0x10398, "vmem_pool::create_page() wb=%ld, errno=%d", (long)wb, errno);
 			}
 		}
 
-- 
2.43.0


From aeed44c7e6cb09410c76e724700cfd7951cbdc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 050/105] fix: socket addresses must not be logged beyond their
 end

---
 src/socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.h b/src/socket.h
index 6648ef5..a677d04 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -266,7 +266,7 @@ namespace abc {
 		}
 
 		if (_log != nullptr) {
-			_log->put_binary(category::abc::socket, severity::abc::optional, 0x1079b, addr.sa_data, addr_len);
+			_log->put_binary(category::abc::socket, severity::abc::optional, 0x1079b, &addr, addr_len);
 			_log->put_any(category::abc::socket, severity::abc::optional, 0x1079c, "basic_socket::tie(innermost) %s(), err=%d", tt == socket::tie::bind ? "bind" : "connect", err);
 		}
 
-- 
2.43.0


From 6250555cd381bce333dcc84b81704521783e8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 051/105] fix: socket addresses must have room for IPv6

---
 src/i/socket.i.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/i/socket.i.h b/src/i/socket.i.h
index 68395d5..8847d1b 100644
--- a/src/i/socket.i.h
+++ b/src/i/socket.i.h
@@ -90,8 +90,11 @@ namespace abc {
 		 * @brief				Convenience wrapper around `sockaddr`.
 		 */
 		struct address {
-			sockaddr			value;
-			socklen_t			size = sizeof(sockaddr);
+			union {
+				sockaddr			value;
+				sockaddr_storage	storage;	// Makes room for any family.
+			};
+			socklen_t			size = sizeof(sockaddr_storage);
 		};
 
 		using backlog_size_t = int;
-- 
2.43.0


From c3a910770d360c0b5fd30246368dfc774cf1fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 052/105] fix: sending to a peer that is gone must not raise
 SIGPIPE

---
 src/socket.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index a677d04..d9e0629 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -357,16 +357,23 @@ namespace abc {
 			throw exception<std::logic_error, Log>("client_socket::send() !is_open()", 0x10017, log_local);
 		}
 
+		// A peer that is gone should be reported as an error. It should not raise SIGPIPE.
+#ifdef MSG_NOSIGNAL
+		constexpr int send_flags = MSG_NOSIGNAL;
+#else
+		constexpr int send_flags = 0;
+#endif
+
 		ssize_t sent_size;
 		if (address != nullptr) {
 			if (base::kind() != socket::kind::dgram) {
 				throw exception<std::logic_error, Log>("client_socket::send() !dgram", 0x10018, log_local);
 			}
 
-			sent_size = ::sendto(base::fd(), buffer, size, 0, &address->value, address->size);
+			sent_size = ::sendto(base::fd(), buffer, size, send_flags, &address->value, address->size);
 		}
 		else {
-			sent_size = ::send(base::fd(), buffer, size, 0);
+			sent_size = ::send(base::fd(), buffer, size, send_flags);
 		}
 
 		if (sent_size < 0) {
-- 
2.43.0


From d658bcb2b07efcdde6f690790a3a068a67d75e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 053/105] fix: socket streams must report end-of-stream and
 failures, and deliver any byte

---
 src/socket.h | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index d9e0629..406bf05 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -559,29 +559,45 @@ namespace abc {
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::underflow() {
-		_socket->receive(&_get_ch, sizeof(char));
+		if (gptr() < egptr()) {
+			return traits_type::to_int_type(*gptr());
+		}
+
+		if (_socket == nullptr || _socket->receive(&_get_ch, sizeof(char)) != sizeof(char)) {
+			return traits_type::eof();
+		}
 
 		setg(&_get_ch, &_get_ch, &_get_ch + 1);
 
-		return _get_ch;
+		return traits_type::to_int_type(_get_ch);
 	}
 
 
 	template <typename Socket, typename Log>
 	inline std::streambuf::int_type socket_streambuf<Socket, Log>::overflow(std::streambuf::int_type ch) {
-		_socket->send(&_put_ch, sizeof(char));
-		_socket->send(&ch, sizeof(char));
+		if (sync() != 0) {
+			return traits_type::eof();
+		}
 
-		setp(&_put_ch, &_put_ch + 1);
+		if (!traits_type::eq_int_type(ch, traits_type::eof())) {
+			*pptr() = traits_type::to_char_type(ch);
+			pbump(1);
+		}
 
-		return ch;
+		return traits_type::not_eof(ch);
 	}
 
 
 	template <typename Socket, typename Log>
 	inline int socket_streambuf<Socket, Log>::sync() {
+		if (_socket == nullptr) {
+			return -1;
+		}
+
 		if (pptr() != &_put_ch) {
-			_socket->send(&_put_ch, sizeof(char));
+			if (_socket->send(&_put_ch, sizeof(char)) != sizeof(char)) {
+				return -1;
+			}
 		}
 
 		setp(&_put_ch, &_put_ch + 1);
-- 
2.43.0


From 157a31df9628d76e443de5c6c121899d5193274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 054/105] fix: moving a socket_streambuf must not lose its
 pending chars

---
 src/socket.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/socket.h b/src/socket.h
index 406bf05..28e608b 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -551,6 +551,15 @@ namespace abc {
 		setg(&_get_ch, &_get_ch, &_get_ch);
 		setp(&_put_ch, &_put_ch + 1);
 
+		// Take over the pending chars.
+		if (other.gptr() < other.egptr()) {
+			setg(&_get_ch, &_get_ch, &_get_ch + 1);
+		}
+
+		if (other.pptr() > other.pbase()) {
+			pbump(1);
+		}
+
 		other._socket = nullptr;
 		other.setg(nullptr, nullptr, nullptr);
 		other.setp(nullptr, nullptr);
-- 
2.43.0


From 52665c15f0fe4194f21b89169691931027eec3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 055/105] fix: socket operations interrupted by a signal must
 not fail

---
 src/socket.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/socket.h b/src/socket.h
index 28e608b..f77e2fe 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <cerrno>
 #include <stdexcept>
 #include <memory>
 
@@ -370,10 +371,14 @@ namespace abc {
 				throw exception<std::logic_error, Log>("client_socket::send() !dgram", 0x10018, log_local);
 			}
 
-			sent_size = ::sendto(base::fd(), buffer, size, send_flags, &address->value, address->size);
+			do {
+				sent_size = ::sendto(base::fd(), buffer, size, send_flags, &address->value, address->size);
+			} while (sent_size < 0 && errno == EINTR);
 		}
 		else {
-			sent_size = ::send(base::fd(), buffer, size, send_flags);
+			do {
+				sent_size = ::send(base::fd(), buffer, size, send_flags);
+			} while (sent_size < 0 && errno == EINTR);
 		}
 
 		if (sent_size < 0) {
@@ -415,10 +420,14 @@ namespace abc {
 				throw exception<std::logic_error, Log>("client_socket::receive() !dgram", 0x1001e, log_local);
 			}
 
-			 received_size = ::recvfrom(base::fd(), buffer, size, 0, &address->value, &address->size);
+			do {
+				received_size = ::recvfrom(base::fd(), buffer, size, 0, &address->value, &address->size);
+			} while (received_size < 0 && errno == EINTR);
 		}
 		else {
-			 received_size = ::recv(base::fd(), buffer, size, 0);
+			do {
+				received_size = ::recv(base::fd(), buffer, size, 0);
+			} while (received_size < 0 && errno == EINTR);
 		}
 
 		if (received_size < 0) {
@@ -510,7 +519,10 @@ namespace abc {
 			log_local->put_any(category::abc::socket, severity::abc::debug, 0x10025, "tcp_server_socket::accept() >>>");
 		}
 
-		socket::fd_t fd = ::accept(base::fd(), nullptr, nullptr);
+		socket::fd_t fd;
+		do {
+			fd = ::accept(base::fd(), nullptr, nullptr);
+		} while (fd == socket::fd::invalid && (errno == EINTR || errno == ECONNABORTED));
 
 		if (fd == socket::fd::invalid) {
 			throw exception<std::runtime_error, Log>("tcp_server_socket::accept() ::accept()", 0x10026, log_local);
-- 
2.43.0


From 603e6806cb44cad8287ebf6b8af1cb02ba88a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 056/105] fix: TLS clients without a log must be able to
 connect

---
 src/openssl_socket.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index c9ab0a2..34a9fe7 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -266,13 +266,19 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_set_fd()", 0x10785, log_local);
 		}
 
-		log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
+		}
 		int ret = SSL_connect(_ssl);
-		log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		if (log_local != nullptr) {
+			log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
+		}
 
 		if (ret != 1) {
 			int err = SSL_get_error(_ssl, ret);
-			log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			if (log_local != nullptr) {
+				log_local->put_any(category::abc::socket, severity::important, 0x10788, "ERR=%d", err);
+			}
 
 			throw exception<std::runtime_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_connect()", 0x10789, log_local);
 		}
-- 
2.43.0


From 94e0df06759d7b39ebb1ca67be6f2ac28f41d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 057/105] fix: TLS servers must accept a null private key
 password

---
 src/openssl_socket.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 34a9fe7..bc32dd6 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -301,6 +301,10 @@ namespace abc {
 			log_local->put_any(category::abc::socket, severity::abc::debug, 0x1078b, "openssl_tcp_server_socket::openssl_tcp_server_socket() >>>");
 		}
 
+		if (pkey_file_password == nullptr) {
+			pkey_file_password = "";
+		}
+
 		std::size_t pkey_file_password_len = std::strlen(pkey_file_password);
 		if (pkey_file_password_len >= max_password) {
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() pkey_file_password_len", 0x1078c, log_local);
-- 
2.43.0


From 8be67bc6b332562943158976ead0fa6c2d7b2299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 058/105] fix: TLS sockets must not write to a descriptor they
 have closed

---
 src/openssl_socket.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index bc32dd6..6603df9 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -120,7 +120,11 @@ namespace abc {
 		}
 
 		if (_ssl != nullptr) {
-			SSL_shutdown(_ssl);
+			// The descriptor may belong to someone else once this socket has been closed.
+			if (base::is_open() && SSL_get_fd(_ssl) == base::fd() && SSL_is_init_finished(_ssl)) {
+				SSL_shutdown(_ssl);
+			}
+
 			SSL_free(_ssl);
 			_ssl = nullptr;
 		}
-- 
2.43.0


From d58abc394afe9b7da4ff73bd5ac8b05725945f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:16 +0000
Subject: [PATCH 059/105] fix: TLS sockets must not raise SIGPIPE when the peer
 is gone

---
 src/i/openssl_socket.i.h | 25 ++++++++++++++++++++++
 src/openssl_socket.h     | 45 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 70 insertions(+)

diff --git a/src/i/openssl_socket.i.h b/src/i/openssl_socket.i.h
index 9f75a3f..365597c 100644
--- a/src/i/openssl_socket.i.h
+++ b/src/i/openssl_socket.i.h
@@ -26,6 +26,8 @@ SOFTWARE.
 #pragma once
 
 #include <cstdint>
+
+#include <signal.h>
 #include <openssl/ssl.h>
 
 #include "../size.h"
@@ -35,6 +37,29 @@ SOFTWARE.
 
 namespace abc {
 
+	namespace socket {
+
+		/**
+		 * @brief				Discards the SIGPIPE that writing to a peer that is gone raises in the current thread.
+		 * @details				OpenSSL writes to the socket on its own, so we can't ask for no signal.
+		 */
+		class sigpipe_guard {
+		public:
+			sigpipe_guard() noexcept;
+			sigpipe_guard(const sigpipe_guard& other) = delete;
+			~sigpipe_guard() noexcept;
+
+		private:
+			sigset_t _mask;
+			bool _was_pending;
+		};
+
+	}
+
+
+	// --------------------------------------------------------------
+
+
 	template <typename Log>
 	class openssl_tcp_server_socket;
 
diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 6603df9..d8b4e4b 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -27,6 +27,10 @@ SOFTWARE.
 
 #include <cstring>
 #include <memory>
+#include <csignal>
+
+#include <signal.h>
+#include <pthread.h>
 
 #include "i/openssl_socket.i.h"
 #include "socket.h"
@@ -34,6 +38,42 @@ SOFTWARE.
 
 namespace abc {
 
+	inline socket::sigpipe_guard::sigpipe_guard() noexcept {
+		sigset_t pending;
+		sigemptyset(&pending);
+		sigpending(&pending);
+		_was_pending = sigismember(&pending, SIGPIPE) == 1;
+
+		sigset_t sigpipe;
+		sigemptyset(&sigpipe);
+		sigaddset(&sigpipe, SIGPIPE);
+		pthread_sigmask(SIG_BLOCK, &sigpipe, &_mask);
+	}
+
+
+	inline socket::sigpipe_guard::~sigpipe_guard() noexcept {
+		if (!_was_pending) {
+			sigset_t pending;
+			sigemptyset(&pending);
+			sigpending(&pending);
+
+			if (sigismember(&pending, SIGPIPE) == 1) {
+				sigset_t sigpipe;
+				sigemptyset(&sigpipe);
+				sigaddset(&sigpipe, SIGPIPE);
+
+				int signum;
+				sigwait(&sigpipe, &signum);
+			}
+		}
+
+		pthread_sigmask(SIG_SETMASK, &_mask, nullptr);
+	}
+
+
+	// --------------------------------------------------------------
+
+
 	template <typename Log>
 	inline openssl_tcp_client_socket<Log>::openssl_tcp_client_socket(bool verify_server, socket::family_t family, Log* log)
 		: base(family, log)
@@ -122,6 +162,7 @@ namespace abc {
 		if (_ssl != nullptr) {
 			// The descriptor may belong to someone else once this socket has been closed.
 			if (base::is_open() && SSL_get_fd(_ssl) == base::fd() && SSL_is_init_finished(_ssl)) {
+				socket::sigpipe_guard guard;
 				SSL_shutdown(_ssl);
 			}
 
@@ -187,6 +228,7 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::send() !_ssl", 0x10776, log_local);
 		}
 
+		socket::sigpipe_guard guard;
 		int sent_size = SSL_write(_ssl, buffer, (int)size);
 
 		if (sent_size < 0) {
@@ -226,6 +268,7 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::receive() !_ssl", 0x1077d, log_local);
 		}
 
+		socket::sigpipe_guard guard;
 		int received_size = SSL_read(_ssl, buffer, (int)size);
 
 		if (received_size < 0) {
@@ -273,6 +316,7 @@ namespace abc {
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
 		}
+		socket::sigpipe_guard guard;
 		int ret = SSL_connect(_ssl);
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
@@ -397,6 +441,7 @@ namespace abc {
 		const bool verify_server = false; // This value doesn't matter.
 		openssl_tcp_client_socket<Log> openssl_client(fd, _ctx, verify_server, base::family(), base::log());
 
+		socket::sigpipe_guard guard;
 		int stat = SSL_accept(openssl_client._ssl);
 		if (stat <= 0) {
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::accept() SSL_accept()", 0x10796, log_local);
-- 
2.43.0


From 78ccdd0c45faf58e9c731210c2b2ad0f06852da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 060/105] fix: a TLS client must handshake again when it
 connects again

---
 src/openssl_socket.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index d8b4e4b..5fcb119 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -308,6 +308,15 @@ namespace abc {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() !_ssl", 0x10784, log_local);
 		}
 
+		// An SSL can only be used for one connection.
+		if (!SSL_in_before(_ssl) && _ctx != nullptr) {
+			SSL_free(_ssl);
+			_ssl = SSL_new(_ctx);
+			if (_ssl == nullptr) {
+				throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_new()", 0x10865, log_local);
+			}
+		}
+
 		int stat = SSL_set_fd(_ssl, base::fd());
 		if (stat <= 0) {
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::connect_handshake() SSL_set_fd()", 0x10785, log_local);
-- 
2.43.0


From e0bc07781437827149c998052eb6185623e96fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 061/105] fix: TLS operations interrupted by a signal must not
 fail

---
 src/i/openssl_socket.i.h |  6 ++++++
 src/openssl_socket.h     | 37 +++++++++++++++++++++++++++++++++----
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/i/openssl_socket.i.h b/src/i/openssl_socket.i.h
index 365597c..3a53a16 100644
--- a/src/i/openssl_socket.i.h
+++ b/src/i/openssl_socket.i.h
@@ -29,6 +29,7 @@ SOFTWARE.
 
 #include <signal.h>
 #include <openssl/ssl.h>
+#include <openssl/err.h>
 
 #include "../size.h"
 #include "socket.i.h"
@@ -144,6 +145,11 @@ namespace abc {
 		 */
 		void connect_handshake();
 
+		/**
+		 * @brief				Returns whether an OpenSSL operation was interrupted by a signal, and has to be repeated.
+		 */
+		static bool is_interrupted(SSL* ssl, int ret) noexcept;
+
 	private:
 		/**
 		 * @brief				Whether full security is enabled.
diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 5fcb119..55d5475 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #pragma once
 
+#include <cerrno>
 #include <cstring>
 #include <memory>
 #include <csignal>
@@ -229,7 +230,11 @@ namespace abc {
 		}
 
 		socket::sigpipe_guard guard;
-		int sent_size = SSL_write(_ssl, buffer, (int)size);
+		int sent_size;
+		do {
+			ERR_clear_error();
+			sent_size = SSL_write(_ssl, buffer, (int)size);
+		} while (is_interrupted(_ssl, sent_size));
 
 		if (sent_size < 0) {
 			if (log_local != nullptr) {
@@ -269,7 +274,11 @@ namespace abc {
 		}
 
 		socket::sigpipe_guard guard;
-		int received_size = SSL_read(_ssl, buffer, (int)size);
+		int received_size;
+		do {
+			ERR_clear_error();
+			received_size = SSL_read(_ssl, buffer, (int)size);
+		} while (is_interrupted(_ssl, received_size));
 
 		if (received_size < 0) {
 			if (log_local != nullptr) {
@@ -293,6 +302,18 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline bool openssl_tcp_client_socket<Log>::is_interrupted(SSL* ssl, int ret) noexcept {
+		if (ret > 0 || errno != EINTR) {
+			return false;
+		}
+
+		int err = SSL_get_error(ssl, ret);
+
+		return err == SSL_ERROR_WANT_READ || err == SSL_ERROR_WANT_WRITE;
+	}
+
+
 	template <typename Log>
 	inline void openssl_tcp_client_socket<Log>::connect_handshake() {
 		Log* log_local = base::log();
@@ -326,7 +347,11 @@ namespace abc {
 			log_local->put_any(category::abc::socket, severity::important, 0x10786, "Before SSL_connect()");
 		}
 		socket::sigpipe_guard guard;
-		int ret = SSL_connect(_ssl);
+		int ret;
+		do {
+			ERR_clear_error();
+			ret = SSL_connect(_ssl);
+		} while (is_interrupted(_ssl, ret));
 		if (log_local != nullptr) {
 			log_local->put_any(category::abc::socket, severity::important, 0x10787, "After SSL_connect() ret=%d", ret);
 		}
@@ -451,7 +476,11 @@ namespace abc {
 		openssl_tcp_client_socket<Log> openssl_client(fd, _ctx, verify_server, base::family(), base::log());
 
 		socket::sigpipe_guard guard;
-		int stat = SSL_accept(openssl_client._ssl);
+		int stat;
+		do {
+			ERR_clear_error();
+			stat = SSL_accept(openssl_client._ssl);
+		} while (openssl_client.is_interrupted(openssl_client._ssl, stat));
 		if (stat <= 0) {
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::accept() SSL_accept()", 0x10796, log_local);
 		}
-- 
2.43.0


From 1ed194b4ec50d0accdffa36a3553a3f7e90c110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 062/105] fix: data a TLS client sent must not be discarded
 when it closes

---
 src/openssl_socket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 55d5475..0a1c3f6 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -407,6 +407,9 @@ namespace abc {
 
 		SSL_CTX_set_verify(_ctx, _verify_client ? SSL_VERIFY_PEER : SSL_VERIFY_NONE, nullptr);
 
+		// Sessions are not resumed. A client that only sends would leave the tickets unread, and closing it would discard what it has sent.
+		SSL_CTX_set_num_tickets(_ctx, 0);
+
 		SSL_CTX_set_default_passwd_cb(_ctx, pem_passwd_cb);
 		SSL_CTX_set_default_passwd_cb_userdata(_ctx, _pkey_file_password);
 
-- 
2.43.0


From b62b1d1dd9f6fcd41935c3abcf14055e36896794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 063/105] fix: endpoint - A long or missing root_dir overran
 the path buffer

---
 src/endpoint.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index b533685..b9ad8de 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -77,6 +77,11 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102f1, "Started endpoint (%s)", _config->port);
 		}
 
+		// The paths of static files start with the root dir.
+		if (_config->root_dir_len >= Limits::resource_size) {
+			throw exception<std::logic_error, Log>("endpoint::start() root_dir_len", 0x10866, _log);
+		}
+
 		// Create a listener, bind to a port, and start listening.
 		ServerSocket listener = create_server_socket();
 		listener.bind(_config->port);
@@ -121,7 +126,7 @@ namespace abc {
 		}
 
 		char path[Limits::resource_size + 1];
-		std::strcpy(path, _config->root_dir);
+		std::strcpy(path, _config->root_dir != nullptr ? _config->root_dir : "");
 		char* resource = path + _config->root_dir_len;
 		http.get_resource(resource, sizeof(path) - _config->root_dir_len);
 		if (_log != nullptr) {
-- 
2.43.0


From ef02b8969b5d829aee77fd4dfcb45ed655f9d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 064/105] fix: endpoint - Parent path segments reached files
 outside root_dir

---
 src/endpoint.h     | 22 +++++++++++++++++++---
 src/i/endpoint.i.h |  6 ++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index b9ad8de..431ead0 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -176,7 +176,7 @@ namespace abc {
 
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
-	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* /*resource*/, const char* path) {
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_file_request(abc::http_server_stream<Log>& http, const char* method, const char* resource, const char* path) {
 		if (_log != nullptr) {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e4, "Received File Path = '%s'", path);
 		}
@@ -195,8 +195,8 @@ namespace abc {
 		struct stat st;
 		int err = ::stat(path, &st);
 
-		// If the file was not opened, return 404.
-		if (err != 0) {
+		// If the file was not opened, or if it may be outside the root dir, return 404.
+		if (err != 0 || has_parent_segment(resource)) {
 			send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x102e7);
 			return;
 		}
@@ -328,6 +328,22 @@ namespace abc {
 	}
 
 
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline bool endpoint<ServerSocket, ClientSocket, Limits, Log>::has_parent_segment(const char* resource) {
+		for (const char* segment = resource; segment != nullptr; segment = std::strchr(segment, '/')) {
+			if (*segment == '/') {
+				segment++;
+			}
+
+			if (segment[0] == '.' && segment[1] == '.' && (segment[2] == '/' || segment[2] == '\0')) {
+				return true;
+			}
+		}
+
+		return false;
+	}
+
+
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline bool endpoint<ServerSocket, ClientSocket, Limits, Log>::is_file_request(const char* method, const char* resource) {
 		return ascii::are_equal_i_n(resource, _config->files_prefix, _config->files_prefix_len)
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 7cfb4b6..9b71c19 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -299,6 +299,12 @@ namespace abc {
 		 */
 		virtual bool is_file_request(const char* method, const char* resource);
 
+		/**
+		 * @brief				Checks if any segment of the resource is `..`.
+		 * @param resource		Virtual resource path.
+		 */
+		static bool has_parent_segment(const char* resource);
+
 		/**
 		 * @brief				Sends a response with the given content.
 		 * @param http			Reference to a `http_server_stream`.
-- 
2.43.0


From 52b870f13e9eed8cf5132e263d98d4ad209d1091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 065/105] fix: endpoint - Directories, unreadable, and changing
 files got broken responses

---
 src/endpoint.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 431ead0..df31ce9 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -33,6 +33,7 @@ SOFTWARE.
 #include <atomic>
 #include <exception>
 #include <cstring>
+#include <algorithm>
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -195,8 +196,14 @@ namespace abc {
 		struct stat st;
 		int err = ::stat(path, &st);
 
+		// Only regular files are served. Opening anything else may block.
+		std::ifstream file;
+		if (err == 0 && S_ISREG(st.st_mode)) {
+			file.open(path);
+		}
+
 		// If the file was not opened, or if it may be outside the root dir, return 404.
-		if (err != 0 || has_parent_segment(resource)) {
+		if (!file.is_open() || has_parent_segment(resource)) {
 			send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x102e7);
 			return;
 		}
@@ -228,10 +235,14 @@ namespace abc {
 		http.put_header_value(fsize_buffer);
 		http.end_headers();
 
-		std::ifstream file(path);
+		// The file may have been changed. No more than the promised size should be sent.
 		char file_chunk[Limits::file_chunk_size];
-		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += Limits::file_chunk_size) {
-			file.read(file_chunk, sizeof(file_chunk));
+		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += file.gcount()) {
+			file.read(file_chunk, std::min(sizeof(file_chunk), fsize - sent_size));
+			if (file.gcount() <= 0) {
+				break;
+			}
+
 			http.put_body(file_chunk, file.gcount());
 		}
 	}
-- 
2.43.0


From 901e0769dfa3b913c154e4cdeb57ac54a489513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 066/105] fix: endpoint - Malformed request lines were
 processed as if complete

---
 src/endpoint.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index df31ce9..08734be 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -147,10 +147,17 @@ namespace abc {
 
 		++_requests_in_progress;
 
+		// The request line may be malformed, too long, or incomplete.
+		const http_request_istream<Log>& request = http;
+		const bool is_well_formed = !request.eof() && !request.fail() && !request.bad();
+
 		// This endpoint supports two kinds of requests:
 		//    a) requests for static files
 		//    b) REST requests
-		if (is_file_request(method, resource)) {
+		if (!is_well_formed) {
+			send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "Error: The request was not understood.", 0x10867);
+		}
+		else if (is_file_request(method, resource)) {
 			process_file_request(http, method, resource, path);
 		}
 		else {
-- 
2.43.0


From 7dc4bba7e9a11e3561eb9e502eaa43695b96c7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 067/105] fix: endpoint - Shutdown never completed or completed
 too early, and exceptions ended the process

---
 src/endpoint.h     | 179 +++++++++++++++++++++++++++++++++++++++------
 src/i/endpoint.i.h |  58 ++++++++++++++-
 2 files changed, 212 insertions(+), 25 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 08734be..f7ab4bf 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -32,10 +32,13 @@ SOFTWARE.
 #include <thread>
 #include <atomic>
 #include <exception>
+#include <chrono>
 #include <cstring>
 #include <algorithm>
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <sys/socket.h>
+#include <poll.h>
 #include <unistd.h>
 
 #include "exception.h"
@@ -51,7 +54,8 @@ namespace abc {
 	inline endpoint<ServerSocket, ClientSocket, Limits, Log>::endpoint(endpoint_config* config, Log* log)
 		: _config(config)
 		, _log(log)
-		, _requests_in_progress(0)
+		, _connections(0)
+		, _waiting(nullptr)
 		, _is_shutdown_requested(false) {
 	}
 
@@ -59,16 +63,28 @@ namespace abc {
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline std::future<void> endpoint<ServerSocket, ClientSocket, Limits, Log>::start_async() {
 		// We can't use std::async() here because we want to detach and return our own std::future.
+		// Therefore, we return our own future.
+		std::future<void> future = _promise.get_future();
 		std::thread(start_thread_func, this).detach();
 
-		// Therefore, we return our own future.
-		return _promise.get_future();
+		return future;
 	}
 
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::start_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr) {
-		this_ptr->start();
+		// Once the promise is set, the endpoint may be destroyed.
+		std::promise<void> promise = std::move(this_ptr->_promise);
+
+		try {
+			this_ptr->start();
+		}
+		catch (...) {
+			promise.set_exception(std::current_exception());
+			return;
+		}
+
+		promise.set_value();
 	}
 
 
@@ -93,17 +109,145 @@ namespace abc {
 			_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 		}
 
-		while (_requests_in_progress != 0 || !_is_shutdown_requested) {
-			// Accept the next request and process it asynchronously.
-			ClientSocket connection = listener.accept();
-			std::thread(process_request_thread_func, this, std::move(connection)).detach();
+		while (!_is_shutdown_requested) {
+			// Don't block in accept(), so that a shutdown request is noticed.
+			pollfd pfd{ };
+			pfd.fd = listener.fd();
+			pfd.events = POLLIN;
+			if (::poll(&pfd, 1, poll_interval_ms) <= 0) {
+				continue;
+			}
+
+			try {
+				// Accept the next request and process it asynchronously.
+				ClientSocket connection = listener.accept();
+				start_processing(connection);
+			}
+			catch (const std::exception& ex) {
+				// This connection is lost. The next one may succeed.
+				if (_log != nullptr) {
+					_log->put_any(abc::category::abc::endpoint, abc::severity::important, 0x10868, "Failed to accept (%s): %s", _config->port, ex.what());
+				}
+
+				std::this_thread::sleep_for(std::chrono::milliseconds(int(accept_retry_interval_ms)));
+			}
+		}
+
+		listener.close();
+		stop_processing();
+
+		if (_log != nullptr) {
+			_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
+			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102f3, "Stopped endpoint (%s)", _config->port);
+		}
+	}
+
+
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::start_processing(ClientSocket& connection) {
+		std::unique_lock<std::mutex> lock(_mutex);
+		_connections++;
+
+		ClientSocket* handover = &connection;
+		try {
+			std::thread(process_request_thread_func, this, &handover).detach();
+		}
+		catch (...) {
+			_connections--;
+			throw;
+		}
+
+		// The thread takes the connection over, so that nothing remains to be destroyed after the thread function returns.
+		_changed.wait(lock, [&handover] { return handover == nullptr; });
+	}
+
+
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::stop_processing() {
+		std::unique_lock<std::mutex> lock(_mutex);
+
+		// Nothing will be processed on the connections whose request hasn't been received.
+		for (waiting_connection* waiting = _waiting; waiting != nullptr; waiting = waiting->next) {
+			::shutdown(waiting->fd, SHUT_RDWR);
+		}
+
+		_changed.wait(lock, [this] { return _connections == 0; });
+	}
+
+
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline endpoint<ServerSocket, ClientSocket, Limits, Log>::waiting_connection::waiting_connection(endpoint<ServerSocket, ClientSocket, Limits, Log>* owner, socket::fd_t fd)
+		: owner(owner)
+		, fd(fd)
+		, prev(nullptr)
+		, next(nullptr) {
+		std::lock_guard<std::mutex> lock(owner->_mutex);
+
+		if (owner->_is_shutdown_requested) {
+			::shutdown(fd, SHUT_RDWR);
 		}
+
+		next = owner->_waiting;
+		if (next != nullptr) {
+			next->prev = this;
+		}
+
+		owner->_waiting = this;
 	}
 
 
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
-	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_request_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr, ClientSocket&& connection) {
-		this_ptr->process_request(std::move(connection));
+	inline endpoint<ServerSocket, ClientSocket, Limits, Log>::waiting_connection::~waiting_connection() {
+		stop_waiting();
+	}
+
+
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline bool endpoint<ServerSocket, ClientSocket, Limits, Log>::waiting_connection::stop_waiting() {
+		if (owner == nullptr) {
+			return false;
+		}
+
+		std::lock_guard<std::mutex> lock(owner->_mutex);
+
+		(prev != nullptr ? prev->next : owner->_waiting) = next;
+		if (next != nullptr) {
+			next->prev = prev;
+		}
+
+		bool can_process = !owner->_is_shutdown_requested;
+		owner = nullptr;
+
+		return can_process;
+	}
+
+
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::process_request_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr, ClientSocket** handover) {
+		std::unique_lock<std::mutex> lock(this_ptr->_mutex);
+		{
+			ClientSocket connection(std::move(**handover));
+			*handover = nullptr;
+			this_ptr->_changed.notify_all();
+			lock.unlock();
+
+			try {
+				this_ptr->process_request(std::move(connection));
+			}
+			catch (const std::exception& ex) {
+				// Only this connection is affected.
+				if (this_ptr->_log != nullptr) {
+					this_ptr->_log->put_any(abc::category::abc::endpoint, abc::severity::important, 0x10869, "Failed to process request (%s): %s", this_ptr->_config->port, ex.what());
+				}
+			}
+			catch (...) {
+			}
+		}
+
+		// Once the mutex is unlocked, the endpoint may be destroyed.
+		lock.lock();
+		this_ptr->_connections--;
+		this_ptr->_changed.notify_all();
 	}
 
 
@@ -113,6 +257,8 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102de, "Begin handling request (%s)", _config->port);
 		}
 
+		waiting_connection waiting(this, connection.fd());
+
 		// Create a socket_streambuf over the ClientSocket.
 		abc::socket_streambuf<ClientSocket, Log> sb(&connection);
 
@@ -141,12 +287,10 @@ namespace abc {
 		}
 
 		// It's OK to read a request as long as we don't return a broken response.
-		if (_is_shutdown_requested) {
+		if (!waiting.stop_waiting()) {
 			return;
 		}
 
-		++_requests_in_progress;
-
 		// The request line may be malformed, too long, or incomplete.
 		const http_request_istream<Log>& request = http;
 		const bool is_well_formed = !request.eof() && !request.fail() && !request.bad();
@@ -171,15 +315,6 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e3, "End handling request (%s)", _config->port);
 			_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 		}
-
-		if (--_requests_in_progress == 0 && _is_shutdown_requested) {
-			if (_log != nullptr) {
-				_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
-				_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102f3, "Stopped endpoint (%s)", _config->port);
-			}
-
-			_promise.set_value();
-		}
 	}
 
 
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 9b71c19..93c44dd 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -25,6 +25,9 @@ SOFTWARE.
 
 #include <future>
 #include <atomic>
+#include <mutex>
+#include <condition_variable>
+#include <cstddef>
 
 #include "log.i.h"
 #include "socket.i.h"
@@ -350,7 +353,41 @@ namespace abc {
 		/**
 		 * @brief				Thread function for the 'process_request' thread.
 		 */
-		static void process_request_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr, ClientSocket&& connection);
+		static void process_request_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr, ClientSocket** handover);
+
+		/**
+		 * @brief				Starts a thread that takes the connection over.
+		 */
+		void start_processing(ClientSocket& connection);
+
+		/**
+		 * @brief				Closes the connections that are waiting for a request, and waits for the rest to complete.
+		 */
+		void stop_processing();
+
+	private:
+		/**
+		 * @brief				Connection whose request hasn't been received yet.
+		 */
+		struct waiting_connection {
+			waiting_connection(endpoint<ServerSocket, ClientSocket, Limits, Log>* owner, socket::fd_t fd);
+			waiting_connection(const waiting_connection& other) = delete;
+			~waiting_connection();
+
+			/**
+			 * @brief			Removes this connection from the list.
+			 * @return			Whether the request should be processed.
+			 */
+			bool stop_waiting();
+
+			endpoint<ServerSocket, ClientSocket, Limits, Log>* owner;
+			const socket::fd_t fd;
+			waiting_connection* prev;
+			waiting_connection* next;
+		};
+
+		static constexpr int poll_interval_ms = 100;
+		static constexpr int accept_retry_interval_ms = 20;
 
 	protected:
 		/**
@@ -370,9 +407,24 @@ namespace abc {
 		std::promise<void> _promise;
 
 		/**
-		 * @brief				Number of requests currently in progress.
+		 * @brief				Guards `_connections` and `_waiting`.
+		 */
+		std::mutex _mutex;
+
+		/**
+		 * @brief				Notified when a connection has been taken over by its thread, and when it has been completed.
+		 */
+		std::condition_variable _changed;
+
+		/**
+		 * @brief				Number of connections that haven't been completed.
+		 */
+		std::size_t _connections;
+
+		/**
+		 * @brief				List of the connections whose request hasn't been received yet.
 		 */
-		std::atomic_int32_t _requests_in_progress;
+		waiting_connection* _waiting;
 
 		/**
 		 * @brief				Flag that gets set when `POST /shutdown` is received.
-- 
2.43.0


From d1ad4151c81b1fc80badb5be0698fab6e1b7febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 068/105] fix: endpoint - A client that delayed its TLS
 handshake blocked all other clients

---
 src/endpoint.h           |  5 ++++-
 src/i/openssl_socket.i.h | 11 +++++++++++
 src/i/socket.i.h         | 11 +++++++++++
 src/openssl_socket.h     | 37 +++++++++++++++++++++++--------------
 src/socket.h             | 11 +++++++++++
 5 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index f7ab4bf..f2db1cb 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -120,7 +120,7 @@ namespace abc {
 
 			try {
 				// Accept the next request and process it asynchronously.
-				ClientSocket connection = listener.accept();
+				ClientSocket connection = listener.accept_connection();
 				start_processing(connection);
 			}
 			catch (const std::exception& ex) {
@@ -259,6 +259,9 @@ namespace abc {
 
 		waiting_connection waiting(this, connection.fd());
 
+		// The other side may take forever.
+		connection.accept_handshake();
+
 		// Create a socket_streambuf over the ClientSocket.
 		abc::socket_streambuf<ClientSocket, Log> sb(&connection);
 
diff --git a/src/i/openssl_socket.i.h b/src/i/openssl_socket.i.h
index 3a53a16..255a293 100644
--- a/src/i/openssl_socket.i.h
+++ b/src/i/openssl_socket.i.h
@@ -127,6 +127,11 @@ namespace abc {
 		 */
 		std::size_t receive(void* buffer, std::size_t size);
 
+		/**
+		 * @brief				Does the TLS handshake on a connection returned by `accept_connection()`.
+		 */
+		void accept_handshake();
+
 	protected:
 		friend openssl_tcp_server_socket<Log>;
 
@@ -213,6 +218,12 @@ namespace abc {
 		 */
 		openssl_tcp_client_socket<Log> accept() const;
 
+		/**
+		 * @brief						Accepts the next client connection without doing the TLS handshake.
+		 * @see openssl_tcp_client_socket::accept_handshake()
+		 */
+		openssl_tcp_client_socket<Log> accept_connection() const;
+
 	private:
 		/**
 		 * @brief				Callback passed to `SSL_CTX_set_default_passwd_cb()`.
diff --git a/src/i/socket.i.h b/src/i/socket.i.h
index 8847d1b..3a0e33b 100644
--- a/src/i/socket.i.h
+++ b/src/i/socket.i.h
@@ -400,6 +400,12 @@ namespace abc {
 		 */
 		tcp_client_socket(const tcp_client_socket& other) = delete;
 
+	public:
+		/**
+		 * @brief				Does nothing. No handshake is needed for a plain connection.
+		 */
+		void accept_handshake();
+
 	protected:
 		friend tcp_server_socket<Log>;
 
@@ -455,6 +461,11 @@ namespace abc {
 		 */
 		tcp_client_socket<Log> accept() const;
 
+		/**
+		 * @brief				Same as `accept()`. No handshake is needed for a plain connection.
+		 */
+		tcp_client_socket<Log> accept_connection() const;
+
 	protected:
 		/**
 		 * @brief				Blocks until a client tries to connect.
diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 0a1c3f6..3889602 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -302,6 +302,20 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void openssl_tcp_client_socket<Log>::accept_handshake() {
+		socket::sigpipe_guard guard;
+		int stat;
+		do {
+			ERR_clear_error();
+			stat = SSL_accept(_ssl);
+		} while (is_interrupted(_ssl, stat));
+		if (stat <= 0) {
+			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::accept() SSL_accept()", 0x10796, base::log());
+		}
+	}
+
+
 	template <typename Log>
 	inline bool openssl_tcp_client_socket<Log>::is_interrupted(SSL* ssl, int ret) noexcept {
 		if (ret > 0 || errno != EINTR) {
@@ -471,24 +485,19 @@ namespace abc {
 
 	template <typename Log>
 	inline openssl_tcp_client_socket<Log> openssl_tcp_server_socket<Log>::accept() const {
-		Log* log_local = base::log();
+		openssl_tcp_client_socket<Log> openssl_client = accept_connection();
+		openssl_client.accept_handshake();
 
-		socket::fd_t fd = base::accept_fd();
+		return openssl_client;
+	}
 
-		const bool verify_server = false; // This value doesn't matter.
-		openssl_tcp_client_socket<Log> openssl_client(fd, _ctx, verify_server, base::family(), base::log());
 
-		socket::sigpipe_guard guard;
-		int stat;
-		do {
-			ERR_clear_error();
-			stat = SSL_accept(openssl_client._ssl);
-		} while (openssl_client.is_interrupted(openssl_client._ssl, stat));
-		if (stat <= 0) {
-			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::accept() SSL_accept()", 0x10796, log_local);
-		}
+	template <typename Log>
+	inline openssl_tcp_client_socket<Log> openssl_tcp_server_socket<Log>::accept_connection() const {
+		socket::fd_t fd = base::accept_fd();
 
-		return openssl_client;
+		const bool verify_server = false; // This value doesn't matter.
+		return openssl_tcp_client_socket<Log>(fd, _ctx, verify_server, base::family(), base::log());
 	}
 
 
diff --git a/src/socket.h b/src/socket.h
index f77e2fe..0f9075c 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -476,6 +476,11 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void tcp_client_socket<Log>::accept_handshake() {
+	}
+
+
 	// --------------------------------------------------------------
 
 
@@ -512,6 +517,12 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline tcp_client_socket<Log> tcp_server_socket<Log>::accept_connection() const {
+		return accept();
+	}
+
+
 	template <typename Log>
 	inline socket::fd_t tcp_server_socket<Log>::accept_fd() const {
 		Log* log_local = base::log();
-- 
2.43.0


From c7d80346af5517a99a36c1eb991a233956c50d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 069/105] fix: endpoint - The end of a response was lost when
 the request had not been read completely

---
 src/endpoint.h           | 38 ++++++++++++++++++++++++++++++++++++++
 src/i/endpoint.i.h       |  5 +++++
 src/i/openssl_socket.i.h | 10 ++++++++++
 src/i/socket.i.h         |  5 +++++
 src/openssl_socket.h     | 24 ++++++++++++++++++------
 src/socket.h             |  8 ++++++++
 6 files changed, 84 insertions(+), 6 deletions(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index f2db1cb..7ba5364 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -34,6 +34,7 @@ SOFTWARE.
 #include <exception>
 #include <chrono>
 #include <cstring>
+#include <cerrno>
 #include <algorithm>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -318,6 +319,10 @@ namespace abc {
 			_log->put_any(abc::category::abc::endpoint, abc::severity::abc::important, 0x102e3, "End handling request (%s)", _config->port);
 			_log->put_blank_line(abc::category::abc::endpoint, abc::severity::abc::important);
 		}
+
+		// Closing a connection with unread data discards the end of the response.
+		connection.shutdown_send();
+		discard_unread(connection.fd());
 	}
 
 
@@ -484,6 +489,39 @@ namespace abc {
 	}
 
 
+	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
+	inline void endpoint<ServerSocket, ClientSocket, Limits, Log>::discard_unread(socket::fd_t fd) {
+		using clock = std::chrono::steady_clock;
+		const clock::time_point start = clock::now();
+		clock::time_point last = start;
+		char buffer[size::k1];
+
+		while (true) {
+			pollfd pfd{ };
+			pfd.fd = fd;
+			pfd.events = POLLIN;
+			int ready = ::poll(&pfd, 1, poll_interval_ms);
+			clock::time_point now = clock::now();
+
+			if (ready > 0) {
+				ssize_t received_size = ::recv(fd, buffer, sizeof(buffer), 0);
+				if (received_size == 0 || (received_size < 0 && errno != EINTR)) {
+					break;
+				}
+
+				last = now;
+			}
+
+			// The other side may keep the connection open.
+			const std::chrono::seconds max_idle(_is_shutdown_requested ? 1 : 5);
+			const std::chrono::seconds max_total(_is_shutdown_requested ? 1 : 30);
+			if (now - last > max_idle || now - start > max_total) {
+				break;
+			}
+		}
+	}
+
+
 	template <typename ServerSocket, typename ClientSocket, typename Limits, typename Log>
 	inline bool endpoint<ServerSocket, ClientSocket, Limits, Log>::has_parent_segment(const char* resource) {
 		for (const char* segment = resource; segment != nullptr; segment = std::strchr(segment, '/')) {
diff --git a/src/i/endpoint.i.h b/src/i/endpoint.i.h
index 93c44dd..1af2e4d 100644
--- a/src/i/endpoint.i.h
+++ b/src/i/endpoint.i.h
@@ -355,6 +355,11 @@ namespace abc {
 		 */
 		static void process_request_thread_func(endpoint<ServerSocket, ClientSocket, Limits, Log>* this_ptr, ClientSocket** handover);
 
+		/**
+		 * @brief				Discards what the client has sent until the client closes its side, or for a limited time.
+		 */
+		void discard_unread(socket::fd_t fd);
+
 		/**
 		 * @brief				Starts a thread that takes the connection over.
 		 */
diff --git a/src/i/openssl_socket.i.h b/src/i/openssl_socket.i.h
index 255a293..7927b42 100644
--- a/src/i/openssl_socket.i.h
+++ b/src/i/openssl_socket.i.h
@@ -132,6 +132,11 @@ namespace abc {
 		 */
 		void accept_handshake();
 
+		/**
+		 * @brief				Lets the other side know that nothing more will be sent.
+		 */
+		void shutdown_send() noexcept;
+
 	protected:
 		friend openssl_tcp_server_socket<Log>;
 
@@ -155,6 +160,11 @@ namespace abc {
 		 */
 		static bool is_interrupted(SSL* ssl, int ret) noexcept;
 
+		/**
+		 * @brief				Ends the TLS session unless that has already been done.
+		 */
+		void send_close_notify() noexcept;
+
 	private:
 		/**
 		 * @brief				Whether full security is enabled.
diff --git a/src/i/socket.i.h b/src/i/socket.i.h
index 3a0e33b..891e524 100644
--- a/src/i/socket.i.h
+++ b/src/i/socket.i.h
@@ -406,6 +406,11 @@ namespace abc {
 		 */
 		void accept_handshake();
 
+		/**
+		 * @brief				Lets the other side know that nothing more will be sent. Receiving is still possible.
+		 */
+		void shutdown_send() noexcept;
+
 	protected:
 		friend tcp_server_socket<Log>;
 
diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 3889602..40bb042 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -161,12 +161,7 @@ namespace abc {
 		}
 
 		if (_ssl != nullptr) {
-			// The descriptor may belong to someone else once this socket has been closed.
-			if (base::is_open() && SSL_get_fd(_ssl) == base::fd() && SSL_is_init_finished(_ssl)) {
-				socket::sigpipe_guard guard;
-				SSL_shutdown(_ssl);
-			}
-
+			send_close_notify();
 			SSL_free(_ssl);
 			_ssl = nullptr;
 		}
@@ -316,6 +311,23 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void openssl_tcp_client_socket<Log>::shutdown_send() noexcept {
+		send_close_notify();
+		base::shutdown_send();
+	}
+
+
+	template <typename Log>
+	inline void openssl_tcp_client_socket<Log>::send_close_notify() noexcept {
+		// The descriptor may belong to someone else once this socket has been closed.
+		if (_ssl != nullptr && base::is_open() && SSL_get_fd(_ssl) == base::fd() && SSL_is_init_finished(_ssl) && (SSL_get_shutdown(_ssl) & SSL_SENT_SHUTDOWN) == 0) {
+			socket::sigpipe_guard guard;
+			SSL_shutdown(_ssl);
+		}
+	}
+
+
 	template <typename Log>
 	inline bool openssl_tcp_client_socket<Log>::is_interrupted(SSL* ssl, int ret) noexcept {
 		if (ret > 0 || errno != EINTR) {
diff --git a/src/socket.h b/src/socket.h
index 0f9075c..f78405f 100644
--- a/src/socket.h
+++ b/src/socket.h
@@ -481,6 +481,14 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void tcp_client_socket<Log>::shutdown_send() noexcept {
+		if (base::is_open()) {
+			::shutdown(base::fd(), SHUT_WR);
+		}
+	}
+
+
 	// --------------------------------------------------------------
 
 
-- 
2.43.0


From 4a1ad7a349c8abb705045d66ac0536e0687b78cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 070/105] fix: endpoint - No response was sent to a malformed
 request line

---
 src/endpoint.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 7ba5364..1ad574c 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -296,13 +296,15 @@ namespace abc {
 		}
 
 		// The request line may be malformed, too long, or incomplete.
-		const http_request_istream<Log>& request = http;
+		http_request_istream<Log>& request = http;
 		const bool is_well_formed = !request.eof() && !request.fail() && !request.bad();
 
 		// This endpoint supports two kinds of requests:
 		//    a) requests for static files
 		//    b) REST requests
 		if (!is_well_formed) {
+			// The state is shared with the response. Nothing would be sent unless it is cleared.
+			request.reset();
 			send_simple_response(http, status_code::Bad_Request, reason_phrase::Bad_Request, content_type::text, "Error: The request was not understood.", 0x10867);
 		}
 		else if (is_file_request(method, resource)) {
-- 
2.43.0


From c1c5e53d94ea07d23b48bb558be976c150a8772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 071/105] fix: endpoint - Resources that don't start with a
 slash reached files outside root_dir

---
 src/endpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/endpoint.h b/src/endpoint.h
index 1ad574c..fd2102f 100644
--- a/src/endpoint.h
+++ b/src/endpoint.h
@@ -355,7 +355,7 @@ namespace abc {
 		}
 
 		// If the file was not opened, or if it may be outside the root dir, return 404.
-		if (!file.is_open() || has_parent_segment(resource)) {
+		if (!file.is_open() || resource[0] != '/' || has_parent_segment(resource)) {
 			send_simple_response(http, status_code::Not_Found, reason_phrase::Not_Found, content_type::text, "Error: The requested resource was not found.", 0x102e7);
 			return;
 		}
-- 
2.43.0


From 8c41b5a9e5ebe107a2afc587759fb69812b0fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 072/105] fix: timestamp - The last day of leap years was shown
 as the next one

---
 src/timestamp.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index 1f78ae2..4471684 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -206,18 +206,16 @@ namespace abc {
 		if (remaining_days >= days_per_1_year) {
 			year++;
 			remaining_days -= days_per_1_year;
-		}
 
-		// The second year is leap.
-		if (remaining_days >= days_per_1_year_leap) {
-			year++;
-			remaining_days -= days_per_1_year_leap;
-		}
+			// The second year is leap.
+			if (remaining_days >= days_per_1_year_leap) {
+				year++;
+				remaining_days -= days_per_1_year_leap;
 
-		// The remaining year(s) are not leap.
-		if (remaining_days >= days_per_1_year) {
-			year += (remaining_days / days_per_1_year);
-			remaining_days = remaining_days % days_per_1_year;
+				// The remaining year(s) are not leap.
+				year += (remaining_days / days_per_1_year);
+				remaining_days = remaining_days % days_per_1_year;
+			}
 		}
 
 		// The remaining days are within 1 year (and we are based at Mar 1).
-- 
2.43.0


From 198510e4cd22024686855e800df39b510ff44ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 073/105] fix: timestamp - Dates were off by one for 70 years
 after centuries that are not leap

---
 src/timestamp.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/timestamp.h b/src/timestamp.h
index 4471684..4bade02 100644
--- a/src/timestamp.h
+++ b/src/timestamp.h
@@ -70,6 +70,7 @@ namespace abc {
 	static constexpr date_count_t days_per_4_years = 3 * days_per_1_year + days_per_1_year_leap;
 	static constexpr date_count_t days_per_100_years_leap = 25 * days_per_4_years;
 	static constexpr date_count_t days_per_100_years = days_per_100_years_leap - 1;
+	static constexpr date_count_t days_per_30_years = 7 * days_per_4_years + 2 * days_per_1_year;
 	static constexpr date_count_t days_per_400_years = days_per_100_years_leap + 3 * days_per_100_years;
 
 
@@ -188,12 +189,15 @@ namespace abc {
 		if (remaining_days >= days_per_100_years_leap) {
 			year += 100;
 			remaining_days -= days_per_100_years_leap;
-		}
 
-		// The following century boundaries are not leap.
-		// We artificailly make them leap.
-		if (remaining_days >= days_per_100_years) {
-			remaining_days += (remaining_days / days_per_100_years);
+			// The following century boundaries are not leap.
+			year += 100 * (remaining_days / days_per_100_years);
+			remaining_days = remaining_days % days_per_100_years;
+
+			// The century boundary comes 30 years after the epoch. We artificially make it leap.
+			if (remaining_days >= days_per_30_years) {
+				remaining_days++;
+			}
 		}
 
 		// Now we have homogenious 4-year chunks.
-- 
2.43.0


From 90bfb0b088354dfe063d7bedcb7159a5cff84233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 074/105] fix: buffer_streambuf - Moving lost the current
 positions

---
 src/buffer_streambuf.h | 267 +++++++++++++++++++++--------------------
 1 file changed, 138 insertions(+), 129 deletions(-)

diff --git a/src/buffer_streambuf.h b/src/buffer_streambuf.h
index 6ab0780..b6edcdf 100644
--- a/src/buffer_streambuf.h
+++ b/src/buffer_streambuf.h
@@ -1,129 +1,138 @@
-/*
-MIT License
-
-Copyright (c) 2018-2023 Zlatko Michailov 
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*/
-
-
-#pragma once
-
-#include <streambuf>
-
-
-namespace abc {
-
-	/**
-	 * @brief					`std::streambuf` implementation over a char buffer.
-	 * @details					The buffer is neither contained nor kept alive by this instance.
-	 * @tparam Char				Char type, e.g. `char` or `wchar_t`.
-	 */
-	template <typename Char>
-	class basic_buffer_streambuf : public std::basic_streambuf<Char> {
-		using base = std::basic_streambuf<Char>;
-
-	public:
-		/**
-		 * @brief				Constructor, using positions.
-		 * @param get_buffer	"Get" buffer.
-		 * @param get_begin_pos	"Begin" position on the "get" buffer.
-		 * @param get_end_pos	"End" position on the "get" buffer.
-		 * @param put_buffer	"Put" buffer.
-		 * @param put_begin_pos	"Begin" position on the "put" buffer.
-		 * @param put_end_pos	"Enc" position on the "put" buffer.
-		 */
-		basic_buffer_streambuf(Char* get_buffer, std::size_t get_begin_pos, std::size_t get_end_pos, Char* put_buffer, std::size_t put_begin_pos, std::size_t put_end_pos) noexcept;
-
-		/**
-		 * @brief				Constructor, using pointers.
-		 * @param get_begin_ptr	Pointer to the "begin" item on the "get" buffer.
-		 * @param get_end_ptr	Pointer to the "end" item on the "get" buffer.
-		 * @param put_begin_ptr	Pointer to the "begin" item on the "put" buffer.
-		 * @param put_end_ptr	Pointer to the "end" item on the "put" buffer.
-		 */
-		basic_buffer_streambuf(Char* get_begin_ptr, Char* get_end_ptr, Char* put_begin_ptr, Char* put_end_ptr) noexcept;
-
-		/**
-		 * @brief				Move constructor.
-		 */
-		basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept;
-
-		/**
-		 * @brief				Deleted.
-		 */
-		basic_buffer_streambuf(const basic_buffer_streambuf<Char>& other) = delete;
-
-	private:
-		void reset(Char* get_begin_ptr, Char* get_end_ptr, Char* put_begin_ptr, Char* put_end_ptr) noexcept;
-
-	private:
-		Char* _get_begin_ptr;
-		Char* _get_end_ptr;
-		Char* _put_begin_ptr;
-		Char* _put_end_ptr;
-	};
-
-
-	/**
-	 * @brief					`std::streambuf` implementation over a `char` buffer.
-	 */
-	using buffer_streambuf = basic_buffer_streambuf<char>;
-
-	/**
-	 * @brief					`std::streambuf` implementation over a `wchar_t` buffer.
-	 */
-	using wbuffer_streambuf = basic_buffer_streambuf<wchar_t>;
-
-
-	// --------------------------------------------------------------
-
-
-	template <typename Char>
-	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(Char* get_buffer, std::size_t get_begin_pos, std::size_t get_end_pos, Char* put_buffer, std::size_t put_begin_pos, std::size_t put_end_pos) noexcept
-		: basic_buffer_streambuf<Char>(&get_buffer[get_begin_pos], &get_buffer[get_end_pos], &put_buffer[put_begin_pos], &put_buffer[put_end_pos]) {
-	}
-
-
-	template <typename Char>
-	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(Char* get_begin_ptr, Char* get_end_ptr, Char* put_begin_ptr, Char* put_end_ptr) noexcept
-		: std::basic_streambuf<Char>() {
-		reset(get_begin_ptr, get_end_ptr, put_begin_ptr, put_end_ptr);
-	}
-
-
-	template <typename Char>
-	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept
-		: basic_buffer_streambuf<Char>(other._get_begin_ptr, other._get_end_ptr, other._put_begin_ptr, other._put_end_ptr) {
-	}
-
-
-	template <typename Char>
-	inline void basic_buffer_streambuf<Char>::reset(Char* get_begin_ptr, Char* get_end_ptr, Char* put_begin_ptr, Char* put_end_ptr) noexcept {
-		_put_begin_ptr = put_begin_ptr;
-		_put_end_ptr   = put_end_ptr;
-		_get_begin_ptr = get_begin_ptr;
-		_get_end_ptr   = get_end_ptr;
-
-		base::setg(get_begin_ptr, get_begin_ptr, get_end_ptr);
-		base::setp(put_begin_ptr, put_end_ptr);
-	}
-
-}
-
+/*
+MIT License
+
+Copyright (c) 2018-2023 Zlatko Michailov 
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*/
+
+
+#pragma once
+
+#include <cstddef>
+#include <limits>
+#include <streambuf>
+
+
+namespace abc {
+
+	/**
+	 * @brief					`std::streambuf` implementation over a char buffer.
+	 * @details					The buffer is neither contained nor kept alive by this instance.
+	 * @tparam Char				Char type, e.g. `char` or `wchar_t`.
+	 */
+	template <typename Char>
+	class basic_buffer_streambuf : public std::basic_streambuf<Char> {
+		using base = std::basic_streambuf<Char>;
+
+	public:
+		/**
+		 * @brief				Constructor, using positions.
+		 * @param get_buffer	"Get" buffer.
+		 * @param get_begin_pos	"Begin" position on the "get" buffer.
+		 * @param get_end_pos	"End" position on the "get" buffer.
+		 * @param put_buffer	"Put" buffer.
+		 * @param put_begin_pos	"Begin" position on the "put" buffer.
+		 * @param put_end_pos	"Enc" position on the "put" buffer.
+		 */
+		basic_buffer_streambuf(Char* get_buffer, std::size_t get_begin_pos, std::size_t get_end_pos, Char* put_buffer, std::size_t put_begin_pos, std::size_t put_end_pos) noexcept;
+
+		/**
+		 * @brief				Constructor, using pointers.
+		 * @param get_begin_ptr	Pointer to the "begin" item on the "get" buffer.
+		 * @param get_end_ptr	Pointer to the "end" item on the "get" buffer.
+		 * @param put_begin_ptr	Pointer to the "begin" item on the "put" buffer.
+		 * @param put_end_ptr	Pointer to the "end" item on the "put" buffer.
+		 */
+		basic_buffer_streambuf(Char* get_begin_ptr, Char* get_end_ptr, Char* put_begin_ptr, Char* put_end_ptr) noexcept;
+
+		/**
+		 * @brief				Move constructor.
+		 */
+		basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept;
+
+		/**
+		 * @brief				Deleted.
+		 */
+		basic_buffer_streambuf(const basic_buffer_streambuf<Char>& other) = delete;
+
+	private:
+		void reset(Char* get_begin_ptr, Char* get_end_ptr, Char* put_begin_ptr, Char* put_end_ptr) noexcept;
+
+	private:
+		Char* _get_begin_ptr;
+		Char* _get_end_ptr;
+		Char* _put_begin_ptr;
+		Char* _put_end_ptr;
+	};
+
+
+	/**
+	 * @brief					`std::streambuf` implementation over a `char` buffer.
+	 */
+	using buffer_streambuf = basic_buffer_streambuf<char>;
+
+	/**
+	 * @brief					`std::streambuf` implementation over a `wchar_t` buffer.
+	 */
+	using wbuffer_streambuf = basic_buffer_streambuf<wchar_t>;
+
+
+	// --------------------------------------------------------------
+
+
+	template <typename Char>
+	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(Char* get_buffer, std::size_t get_begin_pos, std::size_t get_end_pos, Char* put_buffer, std::size_t put_begin_pos, std::size_t put_end_pos) noexcept
+		: basic_buffer_streambuf<Char>(&get_buffer[get_begin_pos], &get_buffer[get_end_pos], &put_buffer[put_begin_pos], &put_buffer[put_end_pos]) {
+	}
+
+
+	template <typename Char>
+	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(Char* get_begin_ptr, Char* get_end_ptr, Char* put_begin_ptr, Char* put_end_ptr) noexcept
+		: std::basic_streambuf<Char>() {
+		reset(get_begin_ptr, get_end_ptr, put_begin_ptr, put_end_ptr);
+	}
+
+
+	template <typename Char>
+	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept
+		: basic_buffer_streambuf<Char>(other._get_begin_ptr, other._get_end_ptr, other._put_begin_ptr, other._put_end_ptr) {
+		// Carry on from the current positions.
+		base::setg(other.eback(), other.gptr(), other.egptr());
+
+		constexpr std::ptrdiff_t max_bump = std::numeric_limits<int>::max();
+		for (std::ptrdiff_t put_count = other.pptr() - other.pbase(); put_count > 0; put_count -= max_bump) {
+			base::pbump(static_cast<int>(put_count < max_bump ? put_count : max_bump));
+		}
+	}
+
+
+	template <typename Char>
+	inline void basic_buffer_streambuf<Char>::reset(Char* get_begin_ptr, Char* get_end_ptr, Char* put_begin_ptr, Char* put_end_ptr) noexcept {
+		_put_begin_ptr = put_begin_ptr;
+		_put_end_ptr   = put_end_ptr;
+		_get_begin_ptr = get_begin_ptr;
+		_get_end_ptr   = get_end_ptr;
+
+		base::setg(get_begin_ptr, get_begin_ptr, get_end_ptr);
+		base::setp(put_begin_ptr, put_end_ptr);
+	}
+
+}
+
-- 
2.43.0


From 80eecd7907642111d99316015453b9b4c3beab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 075/105] fix: multifile - The longest paths were cut, moved
 without an end, and an empty one was read before its start

---
 src/multifile.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index be5892a..4cde388 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -59,7 +59,7 @@ namespace abc {
 		}
 
 		std::strncpy(_path, path, _path_length);
-		if (_path[_path_length - 1] != path_separator) {
+		if (_path_length > 0 && _path[_path_length - 1] != path_separator) {
 			_path[_path_length++] = path_separator;
 		}
 
@@ -70,7 +70,7 @@ namespace abc {
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline multifile_streambuf<MaxPath, Clock, Log>::multifile_streambuf(multifile_streambuf&& other) noexcept
 		: base(std::move(other)) {
-		std::strncpy(_path, other._path, MaxPath);
+		std::strncpy(_path, other._path, MaxPath + 1);
 		_path_length = other._path_length;
 		_mode = other._mode;
 		_log = other._log;
@@ -92,7 +92,7 @@ namespace abc {
 		}
 
 		timestamp<Clock> ts;
-		std::snprintf(_path + _path_length, MaxPath - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
+		std::snprintf(_path + _path_length, MaxPath + 1 - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
 
 		std::filebuf* op = base::open(_path, _mode);
 
-- 
2.43.0


From d890ac5fe7726a9fe51509f16b23ee12e63a68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 076/105] fix: multifile - Reopening within a second erased the
 file

---
 src/multifile.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/multifile.h b/src/multifile.h
index 4cde388..a484a27 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -62,6 +62,7 @@ namespace abc {
 		if (_path_length > 0 && _path[_path_length - 1] != path_separator) {
 			_path[_path_length++] = path_separator;
 		}
+		_path[_path_length] = '\0';
 
 		reopen();
 	}
@@ -91,10 +92,19 @@ namespace abc {
 			}
 		}
 
+		char prev_filename[filename_length + 1];
+		std::strncpy(prev_filename, _path + _path_length, sizeof(prev_filename));
+
 		timestamp<Clock> ts;
 		std::snprintf(_path + _path_length, MaxPath + 1 - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
 
-		std::filebuf* op = base::open(_path, _mode);
+		// Within the same second, this is the same file. Its content must remain.
+		std::ios_base::openmode mode = _mode;
+		if (std::strncmp(prev_filename, _path + _path_length, sizeof(prev_filename)) == 0) {
+			mode = (mode & ~std::ios_base::trunc) | std::ios_base::app;
+		}
+
+		std::filebuf* op = base::open(_path, mode);
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::multifile, severity::abc::optional, 0x102b3, "multifile_streambuf::reopen() Open path=%s, success=%u", _path, op != nullptr);
-- 
2.43.0


From 084bba8cc5d7c480c2f620f0a67c3a3484d92136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 077/105] fix: multifile - Chars were counted twice, or not at
 all, against the size limit

---
 src/multifile.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index a484a27..7cdf2c6 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -171,18 +171,20 @@ namespace abc {
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline std::streamsize size_multifile_streambuf<MaxPath, Clock, Log>::xsputn(const char* s, std::streamsize count) {
-		_current_size += count;
-
 		return base::xsputn(s, count);
 	}
 
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		_current_size += pcount();
-
 		base::sync();
 
+		// All chars have been written. The position is the size.
+		std::streamoff size = base::seekoff(0, std::ios_base::cur, std::ios_base::out);
+		if (size > 0) {
+			_current_size = static_cast<std::size_t>(size);
+		}
+
 		if (_current_size >= _size) {
 			reopen();
 		}
-- 
2.43.0


From ad65d9c69ec71256723c769ecc10edbd556c35bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 078/105] fix: multifile - A failed flush was reported as
 successful

---
 src/multifile.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multifile.h b/src/multifile.h
index 7cdf2c6..a0ce990 100644
--- a/src/multifile.h
+++ b/src/multifile.h
@@ -139,14 +139,14 @@ namespace abc {
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int duration_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		base::sync();
+		int result = base::sync();
 
 		timestamp<Clock> ts;
 		if (ts - _ts >= _duration) {
 			reopen();
 		}
 
-		return 0;
+		return result;
 	}
 
 
@@ -177,7 +177,7 @@ namespace abc {
 
 	template <std::size_t MaxPath, typename Clock, typename Log>
 	inline int size_multifile_streambuf<MaxPath, Clock, Log>::sync() {
-		base::sync();
+		int result = base::sync();
 
 		// All chars have been written. The position is the size.
 		std::streamoff size = base::seekoff(0, std::ios_base::cur, std::ios_base::out);
@@ -189,7 +189,7 @@ namespace abc {
 			reopen();
 		}
 
-		return 0;
+		return result;
 	}
 
 
-- 
2.43.0


From e36c3aa89d07d71b538cd5d6da8ada86e8f476f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 079/105] fix: test - A test that threw anything but
 std::exception ended the whole run

---
 src/test.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/test.h b/src/test.h
index 3f3c419..e670c5b 100644
--- a/src/test.h
+++ b/src/test.h
@@ -334,6 +334,12 @@ namespace abc {
 						log->put_any(category::any, severity::critical, tag::none, "    %s%sEXCEPTION%s %s", color::begin, color::red, color::end, ex.what());
 					}
 				}
+				catch(...) {
+					method_passed = false;
+					if (log != nullptr) {
+						log->put_any(category::any, severity::critical, tag::none, "    %s%sEXCEPTION%s", color::begin, color::red, color::end);
+					}
+				}
 
 				if (method_passed) {
 					if (log != nullptr) {
-- 
2.43.0


From ce513f42878d72103baa073083219ecdb1811801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 080/105] fix: test - The last bytes of compared blobs were not
 logged

---
 src/test.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/test.h b/src/test.h
index e670c5b..d659d35 100644
--- a/src/test.h
+++ b/src/test.h
@@ -246,13 +246,11 @@ namespace abc {
 		bool are_equal = std::memcmp(actual, expected, size) == 0;
 
 		std::size_t offset = 0;
-		for (;;) {
+		while (offset < size) {
 			std::size_t original_offset = offset;
 
 			line_ostream<size::k2> line_actual;
-			if (line_actual.put_binary(actual, size, offset) == 0) {
-				break;
-			};
+			line_actual.put_binary(actual, size, offset);
 
 			line_ostream<size::k2> line_expected;
 			line_expected.put_binary(expected, size, original_offset);
-- 
2.43.0


From 0bb5ebe92e16b253116d8c073ce8ca700e3b89a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 081/105] fix: gpio - Without a log, failed SMBus operations
 were carried on and reported as successful

---
 src/x/gpio_smbus.x.h | 88 ++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index f2412b3..4242ebb 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -130,9 +130,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_ioctl_data msg{ };
@@ -143,9 +143,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e3, "gpio_smbus::put_nodata() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -161,9 +161,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -178,9 +178,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e6, "gpio_smbus::put_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -196,9 +196,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -213,9 +213,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e9, "gpio_smbus::put_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -231,17 +231,17 @@ namespace abc {
 		if (size > I2C_SMBUS_BLOCK_MAX) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106eb, "gpio_smbus::put_block() size > I2C_SMBUS_BLOCK_MAX. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ec, "gpio_smbus::put_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -257,9 +257,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ed, "gpio_smbus::put_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (_log != nullptr) {
@@ -275,9 +275,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -290,9 +290,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f0, "gpio_smbus::get_noreg() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -311,18 +311,18 @@ namespace abc {
 		if (!get_noreg(target, byte0)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f2, "gpio_smbus::get_noreg_2() byte0 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		std::uint8_t byte1;
 		if (!get_noreg(target, byte1)) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f3, "gpio_smbus::get_noreg_2() byte1 failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? ((byte0 << 8) | byte1) : ((byte1 << 8) | byte0);
@@ -340,9 +340,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -356,9 +356,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f6, "gpio_smbus::get_byte() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		byte = data.byte;
@@ -376,9 +376,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -392,9 +392,9 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f9, "gpio_smbus::get_word() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		word = target.requires_byte_swap() ? swap_bytes(data.word) : data.word;
@@ -412,9 +412,9 @@ namespace abc {
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		i2c_smbus_data data{ };
@@ -429,17 +429,17 @@ namespace abc {
 		if (safe_ioctl(I2C_SMBUS, &msg) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fc, "gpio_smbus::get_block() I2C_SMBUS failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		if (data.block[0] > size) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fd, "gpio_smbus::get_block() block[0] = %d, size = %d", data.block[0], (int)size);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		size = data.block[0];
@@ -458,18 +458,18 @@ namespace abc {
 		if (_addr == addr) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::debug, 0x106ff, "gpio_smbus::ensure_address() Skip.");
-
-				return true;
 			}
+
+			return true;
 		}
 
 		long laddr = addr;
 		if (safe_ioctl(I2C_SLAVE_FORCE, laddr) < 0) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x10700, "gpio_smbus::ensure_address() I2C_SLAVE failed. errno = %d", errno);
-
-				return false;
 			}
+
+			return false;
 		}
 
 		_addr = addr;
-- 
2.43.0


From a2646514dc6bd3c02c3841738a90ae0ec91e1b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 082/105] fix: gpio - Concurrent SMBus operations could reach
 each other's targets

---
 src/i/gpio_smbus.i.h |  2 +-
 src/x/gpio_smbus.x.h | 29 ++++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/i/gpio_smbus.i.h b/src/i/gpio_smbus.i.h
index 4cb6f20..928051b 100644
--- a/src/i/gpio_smbus.i.h
+++ b/src/i/gpio_smbus.i.h
@@ -234,7 +234,7 @@ namespace abc {
 		/**
 		 * @brief						ioctl() mutex. 
 		 */
-		std::mutex _ioctl_mutex;
+		std::recursive_mutex _ioctl_mutex;
 
 		/**
 		 * @brief						The log passed in to the constructor.
diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index 4242ebb..23dbc0b 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -127,6 +127,9 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_nodata(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg) noexcept {
+		// The address and the transfer must not be separated by another thread.
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e2, "gpio_smbus::put_nodata() ensure_address() failed. errno = %d", errno);
@@ -158,6 +161,9 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t byte) noexcept {
+		// The address and the transfer must not be separated by another thread.
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e5, "gpio_smbus::put_byte() ensure_address() failed. errno = %d", errno);
@@ -193,6 +199,9 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t word) noexcept {
+		// The address and the transfer must not be separated by another thread.
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106e8, "gpio_smbus::put_word() ensure_address() failed. errno = %d", errno);
@@ -228,6 +237,9 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::put_block(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, const void* block, std::size_t size) noexcept {
+		// The address and the transfer must not be separated by another thread.
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (size > I2C_SMBUS_BLOCK_MAX) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106eb, "gpio_smbus::put_block() size > I2C_SMBUS_BLOCK_MAX. errno = %d", errno);
@@ -272,6 +284,9 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_noreg(const gpio_smbus_target<Log>& target, std::uint8_t& byte) noexcept {
+		// The address and the transfer must not be separated by another thread.
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106ef, "gpio_smbus::get_noreg() ensure_address() failed. errno = %d", errno);
@@ -307,6 +322,9 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_noreg_2(const gpio_smbus_target<Log>& target, std::uint16_t& word) noexcept {
+		// The address and the transfer must not be separated by another thread.
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		std::uint8_t byte0;
 		if (!get_noreg(target, byte0)) {
 			if (_log != nullptr) {
@@ -337,6 +355,9 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_byte(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint8_t& byte) noexcept {
+		// The address and the transfer must not be separated by another thread.
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f5, "gpio_smbus::get_byte() ensure_address() failed. errno = %d", errno);
@@ -373,6 +394,9 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_word(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, std::uint16_t& word) noexcept {
+		// The address and the transfer must not be separated by another thread.
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106f8, "gpio_smbus::get_word() ensure_address() failed. errno = %d", errno);
@@ -409,6 +433,9 @@ namespace abc {
 
 	template <typename Log>
 	inline bool gpio_smbus<Log>::get_block(const gpio_smbus_target<Log>& target, gpio_smbus_register_t reg, void* block, std::size_t& size) noexcept {
+		// The address and the transfer must not be separated by another thread.
+		std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
+
 		if (!ensure_address(target.address())) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::gpio, severity::abc::important, 0x106fb, "gpio_smbus::get_block() ensure_address() failed. errno = %d", errno);
@@ -486,7 +513,7 @@ namespace abc {
 	template <typename Arg>
 	int gpio_smbus<Log>::safe_ioctl(int command, Arg arg) noexcept {
 		try {
-			std::lock_guard<std::mutex> lock(_ioctl_mutex);
+			std::lock_guard<std::recursive_mutex> lock(_ioctl_mutex);
 			return ioctl(_fd, command, arg);
 		}
 		catch (...) {
-- 
2.43.0


From 5f3664b4b26da3a9ffca899d3a0fb5394a255a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 083/105] fix: gpio - A failed SMBus construction left the
 device open

---
 src/x/gpio_smbus.x.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/x/gpio_smbus.x.h b/src/x/gpio_smbus.x.h
index 23dbc0b..95949b7 100644
--- a/src/x/gpio_smbus.x.h
+++ b/src/x/gpio_smbus.x.h
@@ -98,6 +98,9 @@ namespace abc {
 		}
 
 		if (safe_ioctl(I2C_FUNCS, &_functionality) < 0) {
+			close(_fd);
+			_fd = -1;
+
 			throw exception<std::logic_error, Log>("gpio_smbus::gpio_smbus() I2C_FUNCS failed", 0x106df);
 		}
 
-- 
2.43.0


From 230d99d045de1091177f2d9b33cdda223f0349fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 084/105] fix: gpio - A failed line request left the chip open

---
 src/x/gpio_line.x.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index 845c69e..0d45226 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -73,10 +73,14 @@ namespace abc {
 
 		int ret = ioctl(fd, gpio_ioctl::get_line, &line_request);
 		if (ret < 0) {
+			close(fd);
+
 			throw exception<std::runtime_error, Log>("gpio_line::gpio_line() ioctl() < 0", 0x106cb);
 		}
 
 		if (close(fd) < 0) {
+			close(line_request.fd);
+
 			throw exception<std::runtime_error, Log>("gpio_line::gpio_line() close(fd) < 0", 0x106cc);
 		}
 
-- 
2.43.0


From bce102081596b33c41e7e47d51b9ba4d600013d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 085/105] fix: gpio - Moving a line closed it

---
 src/i/gpio_line.i.h | 2 +-
 src/x/gpio_line.x.h | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/i/gpio_line.i.h b/src/i/gpio_line.i.h
index 1452d49..f5703ff 100644
--- a/src/i/gpio_line.i.h
+++ b/src/i/gpio_line.i.h
@@ -53,7 +53,7 @@ namespace abc {
 		/**
 		 * @brief			Move constructor.
 		 */
-		gpio_line(gpio_line<Log>&& other) noexcept = default;
+		gpio_line(gpio_line<Log>&& other) noexcept;
 
 		/**
 		 * @brief			Deleted.
diff --git a/src/x/gpio_line.x.h b/src/x/gpio_line.x.h
index 0d45226..d340496 100644
--- a/src/x/gpio_line.x.h
+++ b/src/x/gpio_line.x.h
@@ -92,6 +92,14 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline gpio_line<Log>::gpio_line(gpio_line<Log>&& other) noexcept
+		: _fd(other._fd)
+		, _log(other._log) {
+		other._fd = -1;
+	}
+
+
 	template <typename Log>
 	inline gpio_line<Log>::~gpio_line() noexcept {
 		if (_fd >= 0) {
-- 
2.43.0


From 0f9556a8e078898f0b2289c1a0ece7896ff8375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 086/105] fix: gpio - The maximum distance of the first
 measurement limited all later ones

---
 src/x/gpio_ultrasonic.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/gpio_ultrasonic.x.h b/src/x/gpio_ultrasonic.x.h
index 06a82e2..e7efb5c 100644
--- a/src/x/gpio_ultrasonic.x.h
+++ b/src/x/gpio_ultrasonic.x.h
@@ -52,7 +52,7 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline std::size_t gpio_ultrasonic<DistanceScale, Log>::measure_distance(std::size_t max_distance) const noexcept {
-		static const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
+		const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth
 
 		// Clear and send a pulse.
 		_trigger_line.put_level(gpio_level::low, microseconds(10));
-- 
2.43.0


From 8cd6822e3b622ba29f4c7c26b74661bd4f38f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 087/105] fix: gpio - A PWM frequency over a few hundred Hz
 divided by zero

---
 src/x/gpio_smbus_pwm.x.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_smbus_pwm.x.h b/src/x/gpio_smbus_pwm.x.h
index 76b264f..7f4f5ce 100644
--- a/src/x/gpio_smbus_pwm.x.h
+++ b/src/x/gpio_smbus_pwm.x.h
@@ -173,7 +173,14 @@ namespace abc {
 			autoreload_bit_count++;
 		}
 
-		return static_cast<gpio_smbus_clock_frequency_t>(((1ULL << autoreload_bit_count) / 1000ULL) * 1000ULL);
+		std::uint64_t u64_autoreload = 1ULL << autoreload_bit_count;
+
+		// Short periods leave nothing to round.
+		if (u64_autoreload >= 1000ULL) {
+			u64_autoreload = (u64_autoreload / 1000ULL) * 1000ULL;
+		}
+
+		return static_cast<gpio_smbus_clock_frequency_t>(u64_autoreload);
 	}
 
 
-- 
2.43.0


From 4bda0a843a919d9376410275c31654314007788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 088/105] fix: gpio - The duty cycle of a motor could not be
 read back

---
 src/x/gpio_smbus_motor.x.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/x/gpio_smbus_motor.x.h b/src/x/gpio_smbus_motor.x.h
index 67f6b45..9b44622 100644
--- a/src/x/gpio_smbus_motor.x.h
+++ b/src/x/gpio_smbus_motor.x.h
@@ -65,7 +65,14 @@ namespace abc {
 
 	template <typename Log>
 	inline void gpio_smbus_motor<Log>::set_duty_cycle(gpio_pwm_duty_cycle_t duty_cycle) noexcept {
-		_pwm.set_duty_cycle(duty_cycle);
+		_duty_cycle = duty_cycle > gpio_pwm_duty_cycle::max ? gpio_pwm_duty_cycle::max : duty_cycle;
+		_pwm.set_duty_cycle(_duty_cycle);
+	}
+
+
+	template <typename Log>
+	inline gpio_pwm_duty_cycle_t gpio_smbus_motor<Log>::get_duty_cycle() const noexcept {
+		return _duty_cycle;
 	}
 
 
-- 
2.43.0


From fbc075ff44020d4ef38690e0f53b955294431c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 089/105] fix: gpio - Refused parameters of threaded devices
 ended the process

---
 src/x/gpio_pwm_emulator.x.h         | 6 ++++--
 src/x/gpio_smbus_motion_tracker.x.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/x/gpio_pwm_emulator.x.h b/src/x/gpio_pwm_emulator.x.h
index e1b7739..7c4bfea 100644
--- a/src/x/gpio_pwm_emulator.x.h
+++ b/src/x/gpio_pwm_emulator.x.h
@@ -46,8 +46,7 @@ namespace abc {
 		, _period(gpio_pwm_period(frequency))
 		, _duty_cycle(0)
 		, _quit(false)
-		, _log(log)
-		, _thread(thread_func, this) {
+		, _log(log) {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106ce, "gpio_pwm_emulator::gpio_pwm_emulator() Start.");
 		}
@@ -60,6 +59,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_pwm_emulator::gpio_pwm_emulator() max_pulse_width", 0x106d0);
 		}
 
+		// Nothing may throw once the thread is running.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x106d1, "gpio_pwm_emulator::gpio_pwm_emulator() Done.");
 		}
diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index 0b12045..b93de3a 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -43,8 +43,7 @@ namespace abc {
 		, _speed(0)
 		, _run(false)
 		, _quit(false)
-		, _log(log)
-		, _thread(thread_func, this) {
+		, _log(log) {
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10753, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Start.");
 		}
@@ -53,6 +52,9 @@ namespace abc {
 			throw exception<std::logic_error, Log>("gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() motion", 0x10754);
 		}
 
+		// Nothing may throw once the thread is running.
+		_thread = std::thread(thread_func, this);
+
 		if (log != nullptr) {
 			log->put_any(category::abc::gpio, severity::abc::optional, 0x10755, "gpio_smbus_motion_tracker::gpio_smbus_motion_tracker() Done.");
 		}
-- 
2.43.0


From f996897f013555c600589a222d379e7dc2174c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 090/105] fix: gpio - A motion tracker started or destroyed
 soon after its construction or stop hung

---
 src/x/gpio_smbus_motion_tracker.x.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/x/gpio_smbus_motion_tracker.x.h b/src/x/gpio_smbus_motion_tracker.x.h
index b93de3a..78e7b0f 100644
--- a/src/x/gpio_smbus_motion_tracker.x.h
+++ b/src/x/gpio_smbus_motion_tracker.x.h
@@ -67,7 +67,10 @@ namespace abc {
 			_log->put_any(category::abc::gpio, severity::abc::optional, 0x10756, "gpio_smbus_motion_tracker::~gpio_smbus_motion_tracker() Start.");
 		}
 
-		_quit = true;
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_quit = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -89,7 +92,10 @@ namespace abc {
 
 	template <typename DistanceScale, typename Log>
 	inline void gpio_smbus_motion_tracker<DistanceScale, Log>::start() {
-		_run = true;
+		{
+			std::lock_guard<std::mutex> lock(_control_mutex);
+			_run = true;
+		}
 
 		// The thread may be sleeping. Notify the condition to wake it up.
 		_control_condition.notify_all();
@@ -193,7 +199,7 @@ namespace abc {
 				// Sleep until the owning instance fires the condition.
 				{
 					std::unique_lock<std::mutex> lock(this_ptr->_control_mutex);
-					this_ptr->_control_condition.wait(lock);
+					this_ptr->_control_condition.wait(lock, [this_ptr]() { return this_ptr->_quit || this_ptr->_run; });
 
 					quit = this_ptr->_quit;
 					run = this_ptr->_run;
-- 
2.43.0


From f2badac4adfc06134dd0b8385358d55df631f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 091/105] fix: gpio - Calibrating a motion sensor without a log
 dereferenced null

---
 src/x/gpio_smbus_motion.x.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index 80884b6..b6a053d 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -82,8 +82,10 @@ namespace abc {
 				continue;
 			}
 
-			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-				mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			if (_log != nullptr) {
+				_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074e, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
+					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
+			}
 
 			measurements.accel_x += temp.accel_x;
 			measurements.accel_y += temp.accel_y;
-- 
2.43.0


From ea7297ef65dd72b60772f0e1e5e46929c3ca20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 092/105] fix: gpio - A failed motion reading was reported as
 the value of another channel

---
 src/x/gpio_smbus_motion.x.h | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index b6a053d..c93adbf 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -131,38 +131,45 @@ namespace abc {
 		std::uint16_t temp_ui16;
 
 		if ((mask & gpio_smbus_motion_channel::accel_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16);
-			measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_x, temp_ui16)) {
+				measurements.accel_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16);
-			measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_y, temp_ui16)) {
+				measurements.accel_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::accel_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16);
-			measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_accel_z, temp_ui16)) {
+				measurements.accel_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_x) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16);
-			measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_x, temp_ui16)) {
+				measurements.gyro_x = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_y) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16);
-			measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_y, temp_ui16)) {
+				measurements.gyro_y = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::gyro_z) != 0) {
-			_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16);
-			measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_gyro_z, temp_ui16)) {
+				measurements.gyro_z = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if ((mask & gpio_smbus_motion_channel::temperature) != 0) {
-			_smbus->get_word(_smbus_target, reg_temperature, temp_ui16);
-			measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			if (_smbus->get_word(_smbus_target, reg_temperature, temp_ui16)) {
+				measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);
+			}
 		}
 
 		if (_log != nullptr) {
-- 
2.43.0


From c5f346d39e408851a62bf377897c3ba0ab2dc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 093/105] fix: gpio - Calibrating a motion sensor overflowed

---
 src/x/gpio_smbus_motion.x.h | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/x/gpio_smbus_motion.x.h b/src/x/gpio_smbus_motion.x.h
index c93adbf..65d4edb 100644
--- a/src/x/gpio_smbus_motion.x.h
+++ b/src/x/gpio_smbus_motion.x.h
@@ -68,7 +68,13 @@ namespace abc {
 
 	template <typename Log>
 	inline void gpio_smbus_motion<Log>::calibrate(gpio_smbus_motion_channel_t mask) noexcept {
-		gpio_smbus_motion_measurements measurements{ };
+		// The sums do not fit in measurements.
+		std::int32_t sum_accel_x = 0;
+		std::int32_t sum_accel_y = 0;
+		std::int32_t sum_accel_z = 0;
+		std::int32_t sum_gyro_x = 0;
+		std::int32_t sum_gyro_y = 0;
+		std::int32_t sum_gyro_z = 0;
 
 		constexpr int reps_skip = 5;
 		constexpr int reps_take = 20;
@@ -87,22 +93,22 @@ namespace abc {
 					mask, temp.accel_x, temp.accel_y, temp.accel_z, temp.gyro_x, temp.gyro_y, temp.gyro_z, temp.temperature);
 			}
 
-			measurements.accel_x += temp.accel_x;
-			measurements.accel_y += temp.accel_y;
-			measurements.accel_z += temp.accel_z;
+			sum_accel_x += temp.accel_x;
+			sum_accel_y += temp.accel_y;
+			sum_accel_z += temp.accel_z;
 
-			measurements.gyro_x += temp.gyro_x;
-			measurements.gyro_y += temp.gyro_y;
-			measurements.gyro_z += temp.gyro_z;
+			sum_gyro_x += temp.gyro_x;
+			sum_gyro_y += temp.gyro_y;
+			sum_gyro_z += temp.gyro_z;
 		}
 
-		_calibration.accel_x = measurements.accel_x / reps_take;
-		_calibration.accel_y = measurements.accel_y / reps_take;
-		_calibration.accel_z = measurements.accel_z / reps_take;
+		_calibration.accel_x = sum_accel_x / reps_take;
+		_calibration.accel_y = sum_accel_y / reps_take;
+		_calibration.accel_z = sum_accel_z / reps_take;
 
-		_calibration.gyro_x = measurements.gyro_x / reps_take;
-		_calibration.gyro_y = measurements.gyro_y / reps_take;
-		_calibration.gyro_z = measurements.gyro_z / reps_take;
+		_calibration.gyro_x = sum_gyro_x / reps_take;
+		_calibration.gyro_y = sum_gyro_y / reps_take;
+		_calibration.gyro_z = sum_gyro_z / reps_take;
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::gpio, severity::abc::debug, 0x1074f, "gpio_smbus_motion::calibrate() mask=%x, accel_x=%x, accel_y=%x, accel_z=%x, gyro_x=%x, gyro_y=%x, gyro_z=%x, temp=%x",
-- 
2.43.0


From c19c588ec73e52107e500bb6b5fd583dfc39e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 094/105] Fixed files with their original line endings

---
 src/buffer_streambuf.h |  9 +++++
 src/http.h             | 90 +++++++++++++++++++++++++++++++++---------
 src/i/http.i.h         | 12 ++++++
 src/i/json.i.h         |  7 ++++
 4 files changed, 99 insertions(+), 19 deletions(-)

diff --git a/src/buffer_streambuf.h b/src/buffer_streambuf.h
index 6ab0780..20b534d 100644
--- a/src/buffer_streambuf.h
+++ b/src/buffer_streambuf.h
@@ -25,6 +25,8 @@ SOFTWARE.
 
 #pragma once
 
+#include <cstddef>
+#include <limits>
 #include <streambuf>
 
 
@@ -111,6 +113,13 @@ namespace abc {
 	template <typename Char>
 	inline basic_buffer_streambuf<Char>::basic_buffer_streambuf(basic_buffer_streambuf<Char>&& other) noexcept
 		: basic_buffer_streambuf<Char>(other._get_begin_ptr, other._get_end_ptr, other._put_begin_ptr, other._put_end_ptr) {
+		// Carry on from the current positions.
+		base::setg(other.eback(), other.gptr(), other.egptr());
+
+		constexpr std::ptrdiff_t max_bump = std::numeric_limits<int>::max();
+		for (std::ptrdiff_t put_count = other.pptr() - other.pbase(); put_count > 0; put_count -= max_bump) {
+			base::pbump(static_cast<int>(put_count < max_bump ? put_count : max_bump));
+		}
 	}
 
 
diff --git a/src/http.h b/src/http.h
index 67c8cb7..eb0c953 100644
--- a/src/http.h
+++ b/src/http.h
@@ -99,6 +99,13 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void http_istream<Log>::reset(http::item_t next) {
+		base::reset();
+		state::reset(next);
+	}
+
+
 	template <typename Log>
 	inline void http_istream<Log>::set_gstate(std::size_t gcount, http::item_t next) {
 		base::set_gcount(gcount);
@@ -135,7 +142,9 @@ namespace abc {
 		}
 
 		if (base::is_good()) {
-			gcount += get_digits(buffer + gcount, size - gcount);
+			std::size_t dcount = get_digits(buffer + gcount, size - gcount);
+			base::set_bad_if(dcount == 0);
+			gcount += dcount;
 		}
 
 		if (gcount == size - 1) {
@@ -153,7 +162,9 @@ namespace abc {
 		}
 
 		if (base::is_good()) {
-			gcount += get_digits(buffer + gcount, size - gcount);
+			std::size_t dcount = get_digits(buffer + gcount, size - gcount);
+			base::set_bad_if(dcount == 0);
+			gcount += dcount;
 		}
 
 		skip_spaces();
@@ -259,7 +270,7 @@ namespace abc {
 		set_gstate(gcount, http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%s', gcount=%zu", buffer, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10046, "http_istream::get_body() <<< body='%.*s', gcount=%zu", static_cast<int>(gcount), buffer, gcount);
 		}
 	}
 
@@ -323,7 +334,14 @@ namespace abc {
 		std::size_t gcount = 0;
 
 		while (base::is_good() && gcount < size) {
-			buffer[gcount++] = base::get();
+			std::istream::int_type ch = base::get();
+
+			// The end of the stream is not a char.
+			if (!base::is_good()) {
+				break;
+			}
+
+			buffer[gcount++] = std::istream::traits_type::to_char_type(ch);
 		}
 
 		return gcount;
@@ -332,6 +350,12 @@ namespace abc {
 
 	template <typename Log>
 	inline std::size_t http_istream<Log>::get_chars(CharPredicate&& predicate, char* buffer, std::size_t size) {
+		// There must be room for the terminating '\0'.
+		if (size == 0) {
+			base::set_fail();
+			return 0;
+		}
+
 		std::size_t gcount = 0;
 
 		while (base::is_good() && predicate(peek_char())) {
@@ -407,6 +431,13 @@ namespace abc {
 	}
 
 
+	template <typename Log>
+	inline void http_ostream<Log>::reset(http::item_t next) {
+		base::reset();
+		state::reset(next);
+	}
+
+
 	template <typename Log>
 	inline void http_ostream<Log>::set_pstate(http::item_t next) {
 		base::flush();
@@ -471,7 +502,7 @@ namespace abc {
 		}
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%s', size=%zu, gcount=%zu", buffer, size, gcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10049, "http_ostream::put_protocol() <<< buffer='%.*s', size=%zu, gcount=%zu", static_cast<int>(size), buffer, size, gcount);
 		}
 
 		return gcount;
@@ -494,7 +525,7 @@ namespace abc {
 		std::size_t pcount = put_token(buffer, size);
 
 		if (base::is_good()) {
-			if (pcount < size) {
+			if (pcount == 0 || pcount < size) {
 				base::set_bad();
 			}
 		}
@@ -507,7 +538,7 @@ namespace abc {
 		set_pstate(http::item::header_value);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004b, "http_ostream::put_header_name() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -551,7 +582,7 @@ namespace abc {
 		set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1004d, "http_ostream::put_header_value() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -593,7 +624,7 @@ namespace abc {
 		set_pstate(http::item::body);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10051, "http_ostream::put_body() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -741,8 +772,10 @@ namespace abc {
 		base::assert_next(http::item::method);
 
 		std::size_t gcount = base::get_token(buffer, size);
+		base::set_bad_if(gcount == 0);
 
-		base::skip_spaces();
+		std::size_t spaces = base::skip_spaces();
+		base::set_bad_if(spaces == 0);
 
 		base::set_gstate(gcount, http::item::resource);
 
@@ -762,8 +795,14 @@ namespace abc {
 		base::assert_next(http::item::resource);
 
 		// The resource is terminated by an extra '\0', so it could be split.
-		std::size_t gcount = base::get_prints(buffer, size - 1);
-		buffer[gcount + 1] = '\0';
+		std::size_t gcount = base::get_prints(buffer, size > 0 ? size - 1 : 0);
+		if (gcount + 1 < size) {
+			buffer[gcount + 1] = '\0';
+		}
+		else if (size == 1) {
+			buffer[0] = '\0';
+		}
+		base::set_bad_if(gcount == 0);
 
 		base::skip_spaces();
 
@@ -792,12 +831,16 @@ namespace abc {
 		// path?param1=...&param2=...
 		char* param = std::strchr(buffer, '?');
 
-		while (param < end && param != nullptr) {
+		while (param != nullptr && param < end) {
 			*param++ = '\0';
 
-			if (param < end && *param != '\0') {
-				param = std::strchr(param, '&');
+			// An empty parameter would look like the end. It is skipped by get_resource_parameter().
+			while (param < end && *param == '&') {
+				param++;
 			}
+
+			// Nothing follows the '\0' of the resource.
+			param = param < end && *param != '\0' ? std::strchr(param, '&') : nullptr;
 		}
 	}
 
@@ -811,6 +854,10 @@ namespace abc {
 		const char* param = buffer + std::strlen(buffer) + 1;
 
 		while (param < end && *param != '\0') {
+			while (*param == '&') {
+				param++;
+			}
+
 			if (std::strncmp(param, parameter_name, parameter_name_len) == 0 && param[parameter_name_len] == '=') {
 				return param + parameter_name_len + 1;
 			}
@@ -863,13 +910,14 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_token(buffer, size);
+		base::set_bad_if(pcount == 0 || pcount < size);
 
 		base::put_space();
 
 		base::set_pstate(http::item::resource);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10059, "http_ostream::put_method() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -888,13 +936,14 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_prints(buffer, size);
+		base::set_bad_if(pcount == 0 || pcount < size);
 
 		base::put_space();
 
 		base::set_pstate(http::item::protocol);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x1005b, "http_ostream::put_resource() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -951,6 +1000,7 @@ namespace abc {
 		base::assert_next(http::item::status_code);
 
 		std::size_t gcount = base::get_digits(buffer, size);
+		base::set_bad_if(gcount == 0);
 
 		base::skip_spaces();
 
@@ -1033,13 +1083,14 @@ namespace abc {
 		}
 
 		std::size_t pcount = base::put_digits(buffer, size);
+		base::set_bad_if(pcount == 0 || pcount < size);
 
 		base::put_space();
 
 		base::set_pstate(http::item::reason_phrase);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%s', size=%zu, pcount=%zu", buffer, size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10063, "http_response_ostream::put_status_code() <<< buffer='%.*s', size=%zu, pcount=%zu", static_cast<int>(size), buffer, size, pcount);
 		}
 	}
 
@@ -1060,6 +1111,7 @@ namespace abc {
 			}
 
 			pcount = base::put_prints_and_spaces(buffer, size);
+			base::set_bad_if(pcount < size);
 		}
 
 		base::put_crlf();
@@ -1067,7 +1119,7 @@ namespace abc {
 		base::set_pstate(http::item::header_name);
 
 		if (log_local != nullptr) {
-			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%s', size=%zu, pcount=%zu", buffer != nullptr ? buffer : "<nullptr>", size, pcount);
+			log_local->put_any(category::abc::http, severity::abc::optional, 0x10065, "http_response_ostream::put_reason_phrase() <<< buffer='%.*s', size=%zu, pcount=%zu", buffer != nullptr ? static_cast<int>(size) : 9, buffer != nullptr ? buffer : "<nullptr>", size, pcount);
 		}
 	}
 
diff --git a/src/i/http.i.h b/src/i/http.i.h
index a4ee1d1..a26ef1f 100644
--- a/src/i/http.i.h
+++ b/src/i/http.i.h
@@ -169,6 +169,12 @@ namespace abc {
 		void get_body(char* buffer, std::size_t size);
 
 	protected:
+		/**
+		 * @brief			Resets the read state.
+		 * @param next		Next item.
+		 */
+		void reset(http::item_t next);
+
 		/**
 		 * @brief			Set the gcount and the next expected item for this input stream.
 		 * @param gcount	gcount.
@@ -332,6 +338,12 @@ namespace abc {
 		void put_body(const char* buffer, std::size_t size = size::strlen);
 
 	protected:
+		/**
+		 * @brief			Resets the write state.
+		 * @param next		Next item.
+		 */
+		void reset(http::item_t next);
+
 		/**
 		 * @brief			Sets the next expected item for the stream.
 		 * @param next		The next expected item.
diff --git a/src/i/json.i.h b/src/i/json.i.h
index 59c4a11..e28df8f 100644
--- a/src/i/json.i.h
+++ b/src/i/json.i.h
@@ -437,6 +437,13 @@ namespace abc {
 		 */
 		std::size_t put_chars(const char* buffer, std::size_t size);
 
+		/**
+		 * @brief			Writes the content of a string or a property name to the stream. Escapes the chars that may not appear verbatim.
+		 * @param buffer	Content.
+		 * @param size		Content length.
+		 */
+		void put_string_content(const char* buffer, std::size_t size);
+
 		/**
 		 * @brief			Writes a char to the stream.
 		 * @param ch		Char to write.
-- 
2.43.0


From baedf83e431c22bc39a73d8ce0b27a44ca42fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 095/105] fix: vmem - A page that could not be written in full
 made the pool unreadable

---
 src/x/vmem_pool.x.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index cd13631..b8f1c31 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -465,6 +465,13 @@ namespace abc {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::vmem, severity::abc::debug, 0x10398, "vmem_pool::create_page() wb=%ld, errno=%d", (long)wb, errno);
 			}
+
+			// Do not leave a partial page at the end of the file.
+			if (wb > 0 && ftruncate(_fd, page_off) != 0) {
+				if (_log != nullptr) {
+					_log->put_any(category::abc::vmem, severity::important, 0x10872, "vmem_pool::create_page() ftruncate() errno=%d", errno);
+				}
+			}
 		}
 
 		if (_log != nullptr) {
-- 
2.43.0


From 908fb1229f73a3b10b5ffc9a449cd5152e60b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:20 +0000
Subject: [PATCH 096/105] fix: vmem - A map that ran out of pages lost items,
 reported success, or ended the process

---
 src/i/vmem_map.i.h | 10 +++++
 src/x/vmem_map.x.h | 94 ++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 92 insertions(+), 12 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index 0aae8ea..85eef99 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -300,6 +300,7 @@ namespace abc {
 
 	private:
 		using path_reverse_iterator		= typename vmem_stack<vmem_page_pos_t, Pool, Log>::reverse_iterator;
+		using path_const_reverse_iterator	= typename vmem_stack<vmem_page_pos_t, Pool, Log>::const_reverse_iterator;
 		using key_level_stack			= vmem_map_key_level_stack<Key, Pool, Log>;
 		using key_level_stack_iterator	= typename vmem_map_key_level_stack<Key, Pool, Log>::iterator;
 		using key_level_iterator		= typename vmem_map_key_level<Key, Pool, Log>::iterator;
@@ -446,6 +447,15 @@ namespace abc {
 		 */
 		std::size_t erase2(find_result2&& find_result) noexcept;
 
+	// insert2()/erase() helpers
+	private:
+		/**
+		 * @brief				Makes sure an insert is not going to run out of pages after it has changed some.
+		 * @param find_result	`find_result2`
+		 * @return				`true` = the insert may proceed; `false` = the insert must not be attempted.
+		 */
+		bool reserve_pages(const find_result2& find_result) noexcept;
+
 	// update_key_levels() helpers
 	private:
 		/**
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 7e9fb8a..b64cd5c 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -312,13 +312,16 @@ namespace abc {
 			_log->put_any(category::abc::vmem, severity::abc::important, 0x10519, "vmem_map::insert2() Start.");
 		}
 
-		value_level_iterator values_itr(&_values, find_result.iterator.page_pos(), find_result.iterator.item_pos(), find_result.iterator.edge(), _log);
+		result2 result(nullptr);
 
-		value_level_result2 values_result = _values.insert2(values_itr, item);
+		if (reserve_pages(find_result)) {
+			value_level_iterator values_itr(&_values, find_result.iterator.page_pos(), find_result.iterator.item_pos(), find_result.iterator.edge(), _log);
 
-		result2 result(nullptr);
-		if (values_result.iterator.is_valid()) {
-			result = update_key_levels(true, std::move(find_result), std::move(values_result));
+			value_level_result2 values_result = _values.insert2(values_itr, item);
+
+			if (values_result.iterator.can_deref()) {
+				result = update_key_levels(true, std::move(find_result), std::move(values_result));
+			}
 		}
 
 		if (_log != nullptr) {
@@ -330,6 +333,69 @@ namespace abc {
 	}
 
 
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline bool vmem_map<Key, T, Pool, Log>::reserve_pages(const find_result2& find_result) noexcept {
+		if (_values.empty()) {
+			// A single page is needed. There is nothing to change before it is available.
+			return true;
+		}
+
+		if (find_result.iterator.page_pos() == vmem_page_pos_nil || find_result.path.size() != _key_stack.size()) {
+			// The item was searched for without the necessary pages.
+			return false;
+		}
+
+		// Every full page on the path is going to be split.
+		std::size_t page_count = 0;
+		bool is_full = true;
+		{
+			vmem_page<Pool, Log> page(_pool, find_result.iterator.page_pos(), _log);
+			if (page.ptr() == nullptr) {
+				return false;
+			}
+
+			is_full = reinterpret_cast<vmem_map_value_page<Key, T>*>(page.ptr())->item_count == value_page_capacity();
+			page_count += is_full ? 1 : 0;
+		}
+
+		for (path_const_reverse_iterator path_itr = find_result.path.rend(); is_full && path_itr != find_result.path.rbegin(); path_itr--) {
+			vmem_page<Pool, Log> page(_pool, *path_itr, _log);
+			if (page.ptr() == nullptr) {
+				return false;
+			}
+
+			is_full = reinterpret_cast<vmem_map_key_page<Key>*>(page.ptr())->item_count == key_page_capacity();
+			page_count += is_full ? 1 : 0;
+		}
+
+		if (is_full) {
+			// A new key level is going to be added. It may need a new page on the key stack too.
+			page_count += _key_stack.size() % key_level_stack::page_capacity() == 0 ? 2 : 1;
+		}
+
+		// Allocate the pages, and free them, so that they are available.
+		vmem_linked_state reserved_state;
+		vmem_linked<Pool, Log> reserved(&reserved_state, _pool, _log);
+		bool ok = true;
+		for (; ok && page_count > 0; page_count--) {
+			vmem_page<Pool, Log> page(_pool, _log);
+			ok = page.ptr() != nullptr;
+			if (ok) {
+				// The page that is allocated first should also be used first.
+				vmem_linked_iterator<Pool, Log> page_itr = reserved.insert(reserved.begin(), page.pos());
+				ok = page_itr != reserved.end();
+				if (!ok) {
+					page.free();
+				}
+			}
+		}
+
+		reserved.clear();
+
+		return ok;
+	}
+
+
 	// ..............................................................
 
 
@@ -343,7 +409,7 @@ namespace abc {
 
 		find_result2 find_result = find2(key);
 
-		if (find_result.ok) {
+		if (find_result.ok && find_result.path.size() == _key_stack.size()) {
 			if (_log != nullptr) {
 				_log->put_any(category::abc::vmem, severity::abc::debug, 0x1051c, "vmem_map::erase(key) Found. itr.page_pos=0x%llx, itr.item_pos=0x%x, itr.edge=%d",
 					(long long)find_result.iterator.page_pos(), find_result.iterator.item_pos(), find_result.iterator.edge());
@@ -377,10 +443,12 @@ namespace abc {
 
 		value_level_iterator values_itr(&_values, find_result.iterator.page_pos(), find_result.iterator.item_pos(), find_result.iterator.edge(), _log);
 
+		std::size_t size = _values.size();
 		value_level_result2 values_result = _values.erase2(values_itr);
+		bool is_erased = _values.size() != size;
 
 		result2 result(nullptr);
-		if (values_result.iterator.is_valid()) {
+		if (is_erased) {
 			result = update_key_levels(false, std::move(find_result), std::move(values_result));
 		}
 
@@ -389,7 +457,7 @@ namespace abc {
 				(long long)values_result.iterator.page_pos(), values_result.iterator.item_pos(), values_result.iterator.edge());
 		}
 
-		return values_result.iterator.is_valid() ? 1 : 0;
+		return is_erased ? 1 : 0;
 	}
 
 
@@ -717,13 +785,15 @@ namespace abc {
 
 		if (!_key_stack.empty()) {
 			if (_log != nullptr) {
-				_log->put_any(category::abc::vmem, severity::abc::debug, 0x1052e, "vmem_map::find2() %zu key levels. root page_pos=0x%llx",
-					_key_stack.size(), (long long)_key_stack.back().front_page_pos);
+				_log->put_any(category::abc::vmem, severity::abc::debug, 0x1052e, "vmem_map::find2() %zu key levels.", _key_stack.size());
 			}
 
 			// There are key levels.
-			page_pos = _key_stack.back().front_page_pos;
-			result.path.push_back(page_pos);
+			vmem_ptr<vmem_container_state, Pool, Log> top_keys_state_ptr = _key_stack.backptr();
+			if (top_keys_state_ptr != nullptr) {
+				page_pos = top_keys_state_ptr->front_page_pos;
+				result.path.push_back(page_pos);
+			}
 
 			for (std::size_t lev = 0; page_pos != vmem_page_pos_nil && lev < _key_stack.size(); lev++) {
 				vmem_page<Pool, Log> page(_pool, page_pos, _log);
-- 
2.43.0


From 308e0e37e4410c8015a2836b36061456dd925b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 097/105] fix: vmem - A map over a pool of 3 mapped pages lost
 items

---
 src/i/vmem_map.i.h | 16 +++++++++++++++
 src/x/vmem_map.x.h | 49 ++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/src/i/vmem_map.i.h b/src/i/vmem_map.i.h
index 85eef99..de551b2 100644
--- a/src/i/vmem_map.i.h
+++ b/src/i/vmem_map.i.h
@@ -467,6 +467,22 @@ namespace abc {
 		 */
 		result2 update_key_levels(bool is_insert, find_result2&& find_result, value_level_result2&& values_result) noexcept;
 
+		/**
+		 * @brief				Copies the state of a key level.
+		 * @param key_stack_itr	Key level.
+		 * @param state			Copy of the state.
+		 * @return				`true` = success; `false` = error.
+		 */
+		bool get_key_level_state(key_level_stack_iterator key_stack_itr, vmem_container_state& state) noexcept;
+
+		/**
+		 * @brief				Stores the state of a key level.
+		 * @param key_stack_itr	Key level.
+		 * @param state			State to be stored.
+		 * @return				`true` = success; `false` = error.
+		 */
+		bool set_key_level_state(key_level_stack_iterator key_stack_itr, const vmem_container_state& state) noexcept;
+
 		/**
 		 * @brief				Replaces the key that references a page, and the keys above it as long as it is the first one on its page.
 		 * @param key_stack_itr	Key level to start from.
diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index b64cd5c..71ab474 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -492,10 +492,14 @@ namespace abc {
 				while ((page_leads[0].operation != vmem_container_page_lead_operation::none || page_leads[1].operation != vmem_container_page_lead_operation::none)
 						&& key_stack_itr != _key_stack.end()
 						&& path_itr != find_result.path.rbegin()) {
-					// IMPORTANT: Save the vmem_ptr instance to keep the page locked.
-					vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = key_stack_itr.operator->();
+					// IMPORTANT: Work on a copy, so that the page of the state doesn't stay locked - an operation on the level may need all mapped pages.
+					vmem_container_state key_level_state;
+					if (!get_key_level_state(key_stack_itr, key_level_state)) {
+						ok = false;
+						break;
+					}
 
-					vmem_map_key_level<Key, Pool, Log> parent_keys(key_level_state_ptr.operator->(), _pool, _log);
+					vmem_map_key_level<Key, Pool, Log> parent_keys(&key_level_state, _pool, _log);
 					vmem_page_pos_t parent_page_pos = *path_itr;
 
 					key_level_result2 keys_result;
@@ -545,6 +549,11 @@ namespace abc {
 						keys_result = parent_keys.erase2(parent_keys_itr);
 					}
 
+					if (!set_key_level_state(key_stack_itr, key_level_state)) {
+						ok = false;
+						break;
+					}
+
 					if (!keys_result.iterator.is_valid()) {
 						if (_log != nullptr) {
 							_log->put_any(category::abc::vmem, severity::warning, 0x10522, "vmem_map::update_key_levels() Could not insert key to page pos=0x%llx", (long long)parent_page_pos);
@@ -623,6 +632,30 @@ namespace abc {
 	}
 
 
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline bool vmem_map<Key, T, Pool, Log>::get_key_level_state(key_level_stack_iterator key_stack_itr, vmem_container_state& state) noexcept {
+		vmem_ptr<vmem_container_state, Pool, Log> ptr = key_stack_itr.operator->();
+		if (ptr.operator->() == nullptr) {
+			return false;
+		}
+
+		state = *ptr;
+		return true;
+	}
+
+
+	template <typename Key, typename T, typename Pool, typename Log>
+	inline bool vmem_map<Key, T, Pool, Log>::set_key_level_state(key_level_stack_iterator key_stack_itr, const vmem_container_state& state) noexcept {
+		vmem_ptr<vmem_container_state, Pool, Log> ptr = key_stack_itr.operator->();
+		if (ptr.operator->() == nullptr) {
+			return false;
+		}
+
+		*ptr = state;
+		return true;
+	}
+
+
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline bool vmem_map<Key, T, Pool, Log>::replace_key(key_level_stack_iterator key_stack_itr, path_reverse_iterator path_itr, path_reverse_iterator path_end, vmem_page_pos_t page_pos, const Key& key) noexcept {
 		// When the first key on a key page gets replaced, the key that references that page on the level above gets replaced too.
@@ -711,11 +744,11 @@ namespace abc {
 	template <typename Key, typename T, typename Pool, typename Log>
 	inline void vmem_map<Key, T, Pool, Log>::clear() noexcept {
 		for (key_level_stack_iterator key_stack_itr = _key_stack.rend(); key_stack_itr != _key_stack.rbegin(); key_stack_itr--) {
-			// IMPORTANT: Save the vmem_ptr instance to keep the page locked.
-			vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = key_stack_itr.operator->();
-
-			vmem_map_key_level<Key, Pool, Log> keys(key_level_state_ptr.operator->(), _pool, _log);
-			keys.clear();
+			vmem_container_state key_level_state;
+			if (get_key_level_state(key_stack_itr, key_level_state)) {
+				vmem_map_key_level<Key, Pool, Log> keys(&key_level_state, _pool, _log);
+				keys.clear();
+			}
 		}
 
 		_key_stack.clear();
-- 
2.43.0


From c075fdd7158559395e1905c66dd7e189af0fc979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 098/105] fix: vmem - A map could be opened with a key of
 another size, and a null state was dereferenced

---
 src/x/vmem_map.x.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/x/vmem_map.x.h b/src/x/vmem_map.x.h
index 71ab474..a2b0ddc 100644
--- a/src/x/vmem_map.x.h
+++ b/src/x/vmem_map.x.h
@@ -115,8 +115,8 @@ namespace abc {
 		: _state(state)
 		, _pool(pool)
 		, _log(log)
-		, _key_stack(&state->keys, pool, log)
-		, _values(&state->values, pool, log) {
+		, _key_stack(state != nullptr ? &state->keys : nullptr, pool, log)
+		, _values(state != nullptr ? &state->values : nullptr, pool, log) {
 
 		if (_log != nullptr) {
 			_log->put_any(category::abc::vmem, severity::abc::debug, 0x1050a, "vmem_map::vmem_map() state=%p, pool=%p", state, pool);
@@ -150,6 +150,14 @@ namespace abc {
 			throw exception<std::logic_error, Log>("vmem_map::vmem_map(key size) mismatch", 0x10511);
 		}
 
+		if (!_key_stack.empty()) {
+			// The key levels know the size of the keys they were built with.
+			vmem_ptr<vmem_container_state, Pool, Log> key_level_state_ptr = _key_stack.backptr();
+			if (key_level_state_ptr != nullptr && sizeof(vmem_map_key<Key>) != key_level_state_ptr->item_size) {
+				throw exception<std::logic_error, Log>("vmem_map::vmem_map(key size) mismatch", 0x10873);
+			}
+		}
+
 		if (sizeof(vmem_map_value<Key, T>) != _state->values.item_size) {
 			throw exception<std::logic_error, Log>("vmem_map::vmem_map(value size) mismatch", 0x10512);
 		}
-- 
2.43.0


From cfcec15ff08b548abf16af5b60322f1f09c0b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 099/105] fix: vmem - Inserting in front of the place before a
 list of one page appended

---
 src/x/vmem_container.x.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 8a5d7a4..52ac019 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -325,7 +325,7 @@ namespace abc {
 			throw exception<std::logic_error, Log>("vmem_container::insert2(itr.page_pos)", 0x1044a);
 		}
 
-		if (itr.item_pos() == vmem_item_pos_nil && (itr.page_pos() != _state->back_page_pos && itr.edge() != vmem_iterator_edge::end)) {
+		if (itr.item_pos() == vmem_item_pos_nil && (itr.page_pos() != _state->back_page_pos || itr.edge() != vmem_iterator_edge::end)) {
 			throw exception<std::logic_error, Log>("vmem_container::insert2(itr.item_pos)", 0x1044b);
 		}
 
-- 
2.43.0


From 992fffbb666adf831c3e5a0847d0ed91219e81b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:53 +0000
Subject: [PATCH 100/105] fix: vmem - Merging pages in a pool of 3 mapped pages
 lost the freed page

---
 src/x/vmem_container.x.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/x/vmem_container.x.h b/src/x/vmem_container.x.h
index 52ac019..54c0a5e 100644
--- a/src/x/vmem_container.x.h
+++ b/src/x/vmem_container.x.h
@@ -960,9 +960,13 @@ namespace abc {
 				// Update the item count on this page.
 				container_page->item_count += next_container_page->item_count;
 
-				// Free the next page.
-				erase_page(next_page);
+				// Free the next page. Unlock both pages first, because freeing a page needs mapped pages too.
+				vmem_page_pos_t erase_page_pos = next_page.pos();
+				next_page = vmem_page<Pool, Log>(nullptr);
 				next_container_page = nullptr;
+				page = vmem_page<Pool, Log>(nullptr);
+
+				this->erase_page_pos(erase_page_pos);
 			}
 		}
 
@@ -1031,9 +1035,13 @@ namespace abc {
 				// Update the item count on the previous page.
 				prev_container_page->item_count += container_page->item_count;
 
-				// Free this page.
-				erase_page(page);
-				container_page = nullptr;
+				// Free this page. Unlock both pages first, because freeing a page needs mapped pages too.
+				vmem_page_pos_t erase_page_pos = page.pos();
+				page = vmem_page<Pool, Log>(nullptr);
+				prev_page = vmem_page<Pool, Log>(nullptr);
+				prev_container_page = nullptr;
+
+				this->erase_page_pos(erase_page_pos);
 			}
 		}
 
-- 
2.43.0


From 5af0bd2ff0a5847a75993159b38fe8aea0985eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 101/105] fix: vmem - Taking a free page needed 3 mapped pages,
 so a small pool kept growing

---
 src/x/vmem_pool.x.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/x/vmem_pool.x.h b/src/x/vmem_pool.x.h
index b8f1c31..d72d39c 100644
--- a/src/x/vmem_pool.x.h
+++ b/src/x/vmem_pool.x.h
@@ -392,12 +392,35 @@ namespace abc {
 					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10393, "vmem_pool::pop_free_page_pos() Non-empty");
 				}
 
-				// Hand out the page only if it has been taken off the list.
-				// Popping fails when there is no capacity to map the pages that have to be updated.
+				// Hand out the page only if it can be taken off the list, i.e. if there is capacity to map the pages that have to be updated.
+				// Map those pages one at a time, so that a page can be taken while the caller is keeping others locked.
 				vmem_page_pos_t back_page_pos = root_page->free_pages.back_page_pos;
-				free_pages_linked.pop_back();
+				vmem_page_pos_t prev_page_pos = vmem_page_pos_nil;
+				bool ok = false;
+				{
+					vmem_page<Pool, Log> back_page(this, back_page_pos, _log);
+					if (back_page.ptr() != nullptr) {
+						prev_page_pos = reinterpret_cast<vmem_linked_page*>(back_page.ptr())->prev_page_pos;
+						ok = true;
+					}
+				}
+
+				if (ok && prev_page_pos != vmem_page_pos_nil) {
+					vmem_page<Pool, Log> prev_page(this, prev_page_pos, _log);
+					if (prev_page.ptr() != nullptr) {
+						reinterpret_cast<vmem_linked_page*>(prev_page.ptr())->next_page_pos = vmem_page_pos_nil;
+					}
+					else {
+						ok = false;
+					}
+				}
+
+				if (ok) {
+					root_page->free_pages.back_page_pos = prev_page_pos;
+					if (prev_page_pos == vmem_page_pos_nil) {
+						root_page->free_pages.front_page_pos = vmem_page_pos_nil;
+					}
 
-				if (root_page->free_pages.back_page_pos != back_page_pos) {
 					page_pos = back_page_pos;
 				}
 
-- 
2.43.0


From 7242bf941eec4076d3348601d6a0a8020fa7f308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 102/105] fix: gpio_input_line must request the input direction
 on the older kernel interface

---
 src/i/gpio_base.i.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/i/gpio_base.i.h b/src/i/gpio_base.i.h
index 17e5e05..5c72447 100644
--- a/src/i/gpio_base.i.h
+++ b/src/i/gpio_base.i.h
@@ -140,7 +140,7 @@ namespace abc {
 		constexpr gpio_line_flags_t	none					= static_cast<gpio_line_flags_t>(0);
 		constexpr gpio_line_flags_t	used					= static_cast<gpio_line_flags_t>(GPIOLINE_FLAG_KERNEL);
 		constexpr gpio_line_flags_t	active_low				= static_cast<gpio_line_flags_t>(GPIOLINE_FLAG_ACTIVE_LOW);
-		constexpr gpio_line_flags_t	input					= static_cast<gpio_line_flags_t>(0);
+		constexpr gpio_line_flags_t	input					= static_cast<gpio_line_flags_t>(GPIOHANDLE_REQUEST_INPUT);
 		constexpr gpio_line_flags_t	output					= static_cast<gpio_line_flags_t>(GPIOLINE_FLAG_IS_OUT);
 		//constexpr gpio_line_flags_t	edge_rising				= static_cast<gpio_line_flags_t>(GPIOLINE_FLAG_EDGE_RISING);
 		//constexpr gpio_line_flags_t	edge_falling			= static_cast<gpio_line_flags_t>(GPIO_V2_LINE_FLAG_EDGE_FALLING);
-- 
2.43.0


From 8fd71a482396df74364035df66f46cd61da3ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:44 +0000
Subject: [PATCH 103/105] fix: vmem_pool - The counts of mappings overflowed,
 which failed mapping and divided by zero

---
 src/i/vmem_pool.i.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/i/vmem_pool.i.h b/src/i/vmem_pool.i.h
index 9c71eb0..69c48b8 100644
--- a/src/i/vmem_pool.i.h
+++ b/src/i/vmem_pool.i.h
@@ -37,7 +37,7 @@ namespace abc {
 	using vmem_page_pos_t		= std::uint64_t;
 	using vmem_item_pos_t		= std::uint16_t;
 	using vmem_version_t		= std::uint16_t;
-	using vmem_page_hit_count_t	= std::uint32_t;
+	using vmem_page_hit_count_t	= std::uint64_t;
 
 
 	constexpr std::size_t		vmem_page_size			= size::k4;
-- 
2.43.0


From eb8d02e221183a251385d69abb828dc0cc44f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:15 +0000
Subject: [PATCH 104/105] fix: openssl sockets leaked their TLS context or
 session when the construction failed

---
 src/openssl_socket.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openssl_socket.h b/src/openssl_socket.h
index 40bb042..1aa2752 100644
--- a/src/openssl_socket.h
+++ b/src/openssl_socket.h
@@ -98,6 +98,7 @@ namespace abc {
 
 		_ssl = SSL_new(_ctx);
 		if (_ssl == nullptr) {
+			SSL_CTX_free(_ctx);
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_new()", 0x10766, log_local);
 		}
 
@@ -144,6 +145,7 @@ namespace abc {
 
 		int stat = SSL_set_fd(_ssl, fd);
 		if (stat <= 0) {
+			SSL_free(_ssl);
 			throw exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_set_fd()", 0x1076c, log_local);
 		}
 
@@ -441,11 +443,13 @@ namespace abc {
 
 		int stat = SSL_CTX_use_certificate_file(_ctx, cert_file_path, SSL_FILETYPE_PEM);
 		if (stat <= 0) {
+			SSL_CTX_free(_ctx);
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_use_certificate_file()", 0x1078f, log_local);
 		}
 
 	    stat = SSL_CTX_use_PrivateKey_file(_ctx, pkey_file_path, SSL_FILETYPE_PEM);
 		if (stat <= 0) {
+			SSL_CTX_free(_ctx);
 			throw exception<std::logic_error, Log>("openssl_tcp_server_socket::openssl_tcp_server_socket() SSL_CTX_use_PrivateKey_file()", 0x10790, log_local);
 		}
 
-- 
2.43.0


From 66e9a5b27854ab32f0eaeeea43636fe33f3b9166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 105/105] fix: refuse to write an incomplete protocol

---
 src/http.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/http.h b/src/http.h
index eb0c953..948641f 100644
--- a/src/http.h
+++ b/src/http.h
@@ -467,7 +467,8 @@ namespace abc {
 			gcount = put_bytes("HTTP/", 5);
 		}
 
-		if (base::is_good() && gcount < size) {
+		// An incomplete protocol is bad.
+		if (base::is_good()) {
 			std::size_t gcount_local = put_digits(buffer + gcount, size - gcount);
 			if (gcount_local == 0) {
 				base::set_bad();
@@ -477,8 +478,8 @@ namespace abc {
 			}
 		}
 
-		if (base::is_good() && gcount < size) {
-			if (buffer[gcount] != '.') {
+		if (base::is_good()) {
+			if (gcount == size || buffer[gcount] != '.') {
 				base::set_bad();
 			}
 			else {
@@ -487,7 +488,7 @@ namespace abc {
 			}
 		}
 
-		if (base::is_good() && gcount < size) {
+		if (base::is_good()) {
 			std::size_t gcount_local = put_digits(buffer + gcount, size - gcount);
 			if (gcount_local == 0) {
 				base::set_bad();
-- 
2.43.0

