// Common support for the monitors: deterministic RNG per case, violation records, counters of what was observed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <atomic>
#include <memory>
#include <mutex>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <signal.h>
#include <time.h>

namespace vh { inline bool g_logged = false; }
namespace vh {
	using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;

	inline u64 mix(u64 x) {
		x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
	}
	inline u64 hcomb(u64 h, u64 v) { return mix(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))); }
	inline u64 hbytes(const void* p, std::size_t n, u64 h = 0xcbf29ce484222325ull) {
		const u8* b = static_cast<const u8*>(p);
		for (std::size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
		return mix(h);
	}
	inline u64 hstr(const std::string& s, u64 h = 0xcbf29ce484222325ull) { return hbytes(s.data(), s.size(), h); }

	struct Rng {
		u64 s;
		explicit Rng(u64 seed = 1) : s(mix(seed)) {}
		u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
		u64 below(u64 n) { return n ? next() % n : 0; }
		std::int64_t range(std::int64_t a, std::int64_t b) { return a + static_cast<std::int64_t>(below(static_cast<u64>(b - a) + 1)); }
		bool chance(unsigned num, unsigned den) { return below(den) < num; }
		template <typename C> auto& pick(C& c) { return c[below(c.size())]; }
	};

	struct CaseAbort { };

	struct Ctx {
		std::string prop; u64 seed = 1; u64 ncases = 0; u64 start = 0; u64 stride = 1; std::string out; std::string scratch; bool verbose = false; bool thorough = false;
		u64 case_idx = 0; u64 violations = 0; u64 evals = 0;
		volatile u64* progress = nullptr;
		std::map<std::string, u64> counters; std::unordered_set<u64> sigs; std::vector<std::string> samples; std::map<std::string, u64> vkeys;
		std::map<std::string, std::set<u64>> distinct;
		std::mutex mtx;
	};
	inline Ctx& ctx() { static Ctx* c = new Ctx; return *c; }

	inline std::string fmtv(const char* fmt, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, fmt, ap); return b; }
	__attribute__((format(printf, 1, 2))) inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap); return s; }

	inline std::string jesc(const std::string& s) {
		std::string o;
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
			else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
			else o += static_cast<char>(c);
		}
		return o;
	}
	inline std::string printable(const std::string& s, std::size_t max = 200) {
		std::string o;
		for (unsigned char c : s) {
			if (o.size() >= max) { o += "..."; break; }
			if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += static_cast<char>(c);
		}
		return o;
	}

	inline void record_violation(const std::string& key, const std::string& msg) {
		Ctx& c = ctx();
		std::lock_guard<std::mutex> g(c.mtx);
		c.violations++;
		if (++c.vkeys[key] <= 3) {
			std::string line = "{\"key\":\"" + jesc(key) + "\",\"case\":" + std::to_string(c.case_idx) + ",\"msg\":\"" + jesc(msg.substr(0, 2000)) + "\"}\n";
			int fd = ::open((c.out + ".viol").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
			if (fd >= 0) { ssize_t r = ::write(fd, line.data(), line.size()); (void)r; ::close(fd); }
		}
		if (c.verbose) fprintf(stderr, "VIOL key=%s case=%llu %s\n", key.c_str(), (unsigned long long)c.case_idx, msg.c_str());
	}
	// record and abandon the case
	[[noreturn]] __attribute__((format(printf, 2, 3))) inline void fail(const char* key, const char* f, ...) {
		va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap);
		record_violation(key, s);
		throw CaseAbort();
	}
	// record and go on
	__attribute__((format(printf, 2, 3))) inline void note(const char* key, const char* f, ...) {
		va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap);
		record_violation(key, s);
	}
#define VH_CHECK(cond, key, ...) do { if (!(cond)) ::vh::fail(key, __VA_ARGS__); } while (0)

	__attribute__((format(printf, 1, 2))) inline void trace(const char* f, ...) {
		if (!ctx().verbose) return;
		va_list ap; va_start(ap, f); std::string s = fmtv(f, ap); va_end(ap); fprintf(stderr, "  %s\n", s.c_str());
	}
	inline void tick() { if (ctx().progress) ctx().progress[2]++; }	// a long case is alive
	inline void cnt(const char* name, u64 n = 1) { ctx().counters[name] += n; }
	inline void cnt_mt(const char* name, u64 n = 1) { std::lock_guard<std::mutex> g(ctx().mtx); ctx().counters[name] += n; }
	inline void eval(u64 n = 1) { ctx().evals += n; }
	inline void nontrivial(u64 h) { if (ctx().sigs.size() < 2000000) ctx().sigs.insert(h); }
	inline void distinct(const char* name, u64 h) { auto& s = ctx().distinct[name]; if (s.size() < 200000) s.insert(h); }
	inline void sample(const std::string& s) { if (ctx().samples.size() < 3) ctx().samples.push_back(s.substr(0, 600)); }

	[[noreturn]] inline void harness_error(const std::string& s) { fprintf(stderr, "HARNESS-ERROR: %s\n", s.c_str()); fflush(stderr); _exit(99); }

	inline std::string slurp(const std::string& p) {
		std::string r; int fd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC); if (fd < 0) return r; char b[65536]; ssize_t n;
		while ((n = ::read(fd, b, sizeof b)) > 0) r.append(b, static_cast<std::size_t>(n));
		::close(fd); return r;
	}
	inline void spit(const std::string& p, const std::string& d) {
		int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (fd < 0) harness_error("cannot write " + p);
		std::size_t o = 0; while (o < d.size()) { ssize_t n = ::write(fd, d.data() + o, d.size() - o); if (n <= 0) harness_error("write " + p); o += static_cast<std::size_t>(n); }
		::close(fd);
	}
	inline u64 file_size(const std::string& p) { struct stat st; if (::stat(p.c_str(), &st) != 0) return ~0ull; return static_cast<u64>(st.st_size); }
	inline std::map<int, std::string> open_fds() {
		std::map<int, std::string> r; DIR* d = ::opendir("/proc/self/fd"); if (!d) harness_error("proc fd");
		int dfd = dirfd(d);
		while (dirent* e = ::readdir(d)) {
			if (e->d_name[0] == '.') continue; int fd = atoi(e->d_name); if (fd == dfd) continue;
			char b[512]; std::string l = std::string("/proc/self/fd/") + e->d_name; ssize_t n = ::readlink(l.c_str(), b, sizeof b); if (n < 0) continue;
			r[fd] = std::string(b, static_cast<std::size_t>(n));
		}
		::closedir(d); return r;
	}
	inline std::size_t count_fds() { return open_fds().size(); }
	// a program whose standard input is closed gets descriptor 0 for the next file or socket it opens
	struct StdinClosed {
		int keep; StdinClosed(const StdinClosed&) = delete;
		StdinClosed(bool on) : keep(-1) { if (on && (keep = ::fcntl(0, F_DUPFD_CLOEXEC, 300)) >= 0) { ::syscall(SYS_close, 0); cnt("stdin_closed"); } }
		~StdinClosed() { if (keep >= 0) { ::dup2(keep, 0); ::syscall(SYS_close, keep); } }
	};
	// number of 4k pages of the given file currently mapped into this process
	inline u64 mapped_pages_of(const std::string& path) {
		std::string m = slurp("/proc/self/maps"); u64 pages = 0; std::size_t p = 0;
		while (p < m.size()) {
			std::size_t e = m.find('\n', p); if (e == std::string::npos) e = m.size();
			std::string_view l(m.data() + p, e - p); p = e + 1;
			if (l.size() < path.size() || l.find(path) == std::string_view::npos) continue;
			unsigned long a, b; if (sscanf(std::string(l.substr(0, 64)).c_str(), "%lx-%lx", &a, &b) == 2) pages += (b - a) / 4096;
		}
		return pages;
	}
	inline std::string scratch(const std::string& n) { return ctx().scratch + "/" + n; }
	inline u64 now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<u64>(t.tv_sec) * 1000000000ull + static_cast<u64>(t.tv_nsec); }

	// guarded heap copy: exact-size allocation so the sanitizer sees the first byte outside
	struct Exact {
		char* p; std::size_t n;
		explicit Exact(std::size_t size, int fill = 0x5a) : p(static_cast<char*>(malloc(size ? size : 1))), n(size) { memset(p, fill, size ? size : 1); }
		explicit Exact(const std::string& s) : Exact(s.size()) { memcpy(p, s.data(), s.size()); }
		Exact(const Exact&) = delete; Exact& operator=(const Exact&) = delete;
		~Exact() { free(p); }
	};

	using CaseFn = void (*)(u64 idx, Rng& rng);
	struct Reg { const char* prop; int part; CaseFn fn; void (*init)(); };
	inline std::vector<Reg>& regs() { static std::vector<Reg>* r = new std::vector<Reg>; return *r; }
	struct RegIt { RegIt(const char* p, CaseFn f, void (*init)() = nullptr, int part = 0) { regs().push_back({ p, part, f, init }); } };
// A property may have several parts (say template instantiations), compiled in parallel: case i runs part (i / 8) % parts.
#ifdef VH_PART
#define VH_IS_PART(k) (VH_PART == (k))
#else
#define VH_IS_PART(k) 1
#endif

	inline void write_stats() {
		Ctx& c = ctx();
		std::string s = "{\"evals\":" + std::to_string(c.evals) + ",\"violations\":" + std::to_string(c.violations) + ",\"counters\":{";
		bool f = true;
		for (auto& k : c.counters) { s += (f ? "" : ",") + std::string("\"") + k.first + "\":" + std::to_string(k.second); f = false; }
		s += "},\"samples\":["; f = true;
		for (auto& k : c.samples) { s += (f ? "" : ",") + std::string("\"") + jesc(k) + "\""; f = false; }
		s += "],\"distinct\":{"; f = true;
		for (auto& k : c.distinct) { s += (f ? "" : ",") + std::string("\"") + k.first + "\":["; bool g = true; for (u64 h : k.second) { s += (g ? "" : ",") + std::to_string(h); g = false; } s += "]"; f = false; }
		s += "}}\n";
		spit(c.out + ".stats", s);
		std::string b; for (u64 h : c.sigs) b.append(reinterpret_cast<const char*>(&h), 8);
		spit(c.out + ".sigs", b);
	}

	inline int main_impl(int argc, char** argv) {
		Ctx& c = ctx(); u64 only = ~0ull;
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
			if (a == "--prop") c.prop = val(); else if (a == "--seed") c.seed = strtoull(val().c_str(), 0, 10); else if (a == "--cases") c.ncases = strtoull(val().c_str(), 0, 10);
			else if (a == "--start") c.start = strtoull(val().c_str(), 0, 10); else if (a == "--stride") c.stride = strtoull(val().c_str(), 0, 10);
			else if (a == "--out") c.out = val(); else if (a == "--scratch") c.scratch = val(); else if (a == "--only") only = strtoull(val().c_str(), 0, 10); else if (a == "--verbose") c.verbose = true; else if (a == "--thorough") c.thorough = true;
		}
		std::vector<Reg> r; for (auto& x : regs()) if (c.prop == x.prop) r.push_back(x);
		if (r.empty()) harness_error("unknown property " + c.prop);
		std::sort(r.begin(), r.end(), [](const Reg& a, const Reg& b) { return a.part < b.part; });
		int pfd = ::open((c.out + ".progress").c_str(), O_RDWR | O_CREAT, 0644); if (pfd < 0 || ftruncate(pfd, 4096) != 0) harness_error("progress file");
		c.progress = static_cast<volatile u64*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, pfd, 0)); ::close(pfd);
		c.progress[1] = 1;
		for (auto& x : r) if (x.init) x.init();
		u64 from = c.start, to = c.ncases, step = c.stride;
		if (only != ~0ull) { from = only; to = only + 1; step = 1; }
		for (u64 i = from; i < to; i += step) {
			c.case_idx = i; c.progress[0] = i; c.progress[2]++;
			Rng rng(hcomb(hcomb(c.seed, hstr(c.prop)), i)); g_logged = (hcomb(i, 77) >> 13) % (c.prop == "C02" || c.prop == "C03" ? 16 : 4) == 0;
			bool describe = c.samples.size() < 3; std::map<std::string, u64> before; u64 given = c.samples.size(); if (describe) { std::lock_guard<std::mutex> g(c.mtx); for (auto& k : c.counters) before[k.first] = k.second; }
			try { r[(i / 8) % r.size()].fn(i, rng); }
			catch (const CaseAbort&) { }
			catch (const std::exception& ex) { record_violation("uncaught-exception", std::string("library call threw: ") + ex.what()); }
			// a case that does not describe itself is described by what its monitors counted
			if (describe && c.samples.size() == given) { std::string d; { std::lock_guard<std::mutex> g(c.mtx); for (auto& k : c.counters) if (k.second != before[k.first]) d += fmt(" %s=%llu", std::string(k.first).c_str(), static_cast<unsigned long long>(k.second - before[k.first])); } if (!d.empty()) sample(fmt("case %llu:", static_cast<unsigned long long>(i)) + d); }
			if (c.violations > 200) break;
		}
		write_stats();
		c.progress[1] = 2;
		return 0;
	}

	// an object that is now and then moved to another place, seen through one of its bases
	template <typename T, typename V = T> struct Moving {
		std::unique_ptr<T> p; Rng* rng; unsigned den;
		template <typename... A> explicit Moving(Rng& r, A&&... a) : p(new T(std::forward<A>(a)...)), rng(&r), den(r.chance(1, 2) ? 0 : r.chance(1, 2) ? 3 : 12) {}
		void maybe() { if (den && rng->chance(1, den)) { std::unique_ptr<T> n(new T(std::move(*p))); p = std::move(n); cnt("moves"); } }
		V* operator->() { return p.get(); } V& operator*() { return *p; }
	};
}
#if !defined(VH_NO_MAIN) && VH_IS_PART(0)
int main(int argc, char** argv) { ::prctl(PR_SET_PDEATHSIG, SIGKILL); int r = vh::main_impl(argc, argv); fflush(nullptr); _exit(r); } // does not outlive run.py
#endif
