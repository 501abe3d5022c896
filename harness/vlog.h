// A log for the vmem monitors: every message is formatted (so that its arguments are really read) and dropped. Some cases run with it, the others without a log.
#pragma once
#include "vh.h"
#include "log.h"
#include <cstdarg>
namespace vh {
	struct VLog {
		void put_any(abc::category_t c, abc::severity_t s, abc::tag_t t, const char* format, ...) noexcept { va_list v; va_start(v, format); put_anyv(c, s, t, format, v); va_end(v); }
		void put_anyv(abc::category_t, abc::severity_t, abc::tag_t t, const char* format, va_list v) noexcept { unsigned n = seen[t % 4096]++; if (n % 256 < 4 || n < 200) { char b[512]; vsnprintf(b, sizeof b, format, v); } lines++; }
		void put_binary(abc::category_t, abc::severity_t, abc::tag_t, const void* p, std::size_t n) noexcept { unsigned s = 0; for (std::size_t i = 0; i < n; i++) s += static_cast<const volatile unsigned char*>(p)[i]; sum += s; lines++; }
		void put_blank_line(abc::category_t, abc::severity_t) noexcept { lines++; }
		u64 lines = 0; unsigned sum = 0; unsigned seen[4096] = {};
	};
	inline VLog* L() { static VLog l; return g_logged ? &l : nullptr; }
}
