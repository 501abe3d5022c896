// Shared: items of a given size whose every byte is derived from an id, so torn or stale copies are visible.
#pragma once
#include "vh.h"
#include "vlog.h"
#include "vmem.h"
#include <memory>

template <std::size_t N>
struct Item {
	unsigned char b[N];
	Item() { memset(b, 0, N); }
	explicit Item(vh::u64 id) {
		for (std::size_t i = 0; i < N; i++) b[i] = i < 8 ? static_cast<unsigned char>(id >> (8 * i)) : static_cast<unsigned char>(vh::mix(id + i / 64) >> (8 * (i % 8)));
	}
	vh::u64 id() const { vh::u64 v = 0; for (std::size_t i = 0; i < N && i < 8; i++) v |= static_cast<vh::u64>(b[i]) << (8 * i); return v; }
	bool whole() const { Item<N> o(id()); return memcmp(o.b, b, N) == 0; }
	static vh::u64 mask() { return N >= 8 ? ~0ull : ((1ull << (8 * N)) - 1); }
};
