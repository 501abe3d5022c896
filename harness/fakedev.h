// Recording stand-ins for the GPIO and SMBus devices: open, close and ioctl on /dev/gpiochip*, /dev/i2c-* and /fake/* never reach the system.
// Also a virtual monotonic clock: with vtime::on, sleeping takes no time but moves the clock of the thread.
#pragma once
#include "vh.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <linux/gpio.h>
#include <linux/i2c.h>
#include <linux/i2c-dev.h>
#include <thread>
#ifdef VH_GPIO_V1 // the older kernel interface
using dev_line_info = gpioline_info; using dev_line_request = gpiohandle_request; using dev_line_values = gpiohandle_data;
constexpr unsigned long DEV_LINEINFO = GPIO_GET_LINEINFO_IOCTL, DEV_LINE = GPIO_GET_LINEHANDLE_IOCTL, DEV_GET = GPIOHANDLE_GET_LINE_VALUES_IOCTL, DEV_SET = GPIOHANDLE_SET_LINE_VALUES_IOCTL;
constexpr unsigned DEV_IN = GPIOHANDLE_REQUEST_INPUT, DEV_OUT = GPIOHANDLE_REQUEST_OUTPUT, DEV_OD = GPIOHANDLE_REQUEST_OPEN_DRAIN;
inline __u32& dev_offset(gpioline_info* l) { return l->line_offset; } inline __u32& dev_offset(gpiohandle_request* l) { return l->lineoffsets[0]; }
inline unsigned dev_values(const gpiohandle_data* v) { return v->values[0]; } inline bool dev_one(const gpiohandle_data*) { return true; } inline void dev_values(gpiohandle_data* v, unsigned b) { v->values[0] = static_cast<__u8>(b ? 0xff : 0xfe); }
inline unsigned long long dev_flags(const gpiohandle_request* l) { return l->flags; } inline unsigned dev_lines(const gpiohandle_request* l) { return l->lines; } inline std::string dev_consumer(const gpiohandle_request* l) { return std::string(l->consumer_label, strnlen(l->consumer_label, sizeof l->consumer_label)); } inline bool dev_attrs(const gpiohandle_request*) { return false; }
#else
using dev_line_info = gpio_v2_line_info; using dev_line_request = gpio_v2_line_request; using dev_line_values = gpio_v2_line_values;
constexpr unsigned long DEV_LINEINFO = GPIO_V2_GET_LINEINFO_IOCTL, DEV_LINE = GPIO_V2_GET_LINE_IOCTL, DEV_GET = GPIO_V2_LINE_GET_VALUES_IOCTL, DEV_SET = GPIO_V2_LINE_SET_VALUES_IOCTL;
constexpr unsigned long long DEV_IN = GPIO_V2_LINE_FLAG_INPUT, DEV_OUT = GPIO_V2_LINE_FLAG_OUTPUT, DEV_OD = GPIO_V2_LINE_FLAG_OPEN_DRAIN;
inline __u32& dev_offset(gpio_v2_line_info* l) { return l->offset; } inline __u32& dev_offset(gpio_v2_line_request* l) { return l->offsets[0]; }
inline unsigned dev_values(const gpio_v2_line_values* v) { return static_cast<unsigned>(v->bits & 1); } inline bool dev_one(const gpio_v2_line_values* v) { return v->mask == 1; } inline void dev_values(gpio_v2_line_values* v, unsigned b) { v->bits = b ? 0xffffffffffffffffull : 0; }
inline unsigned long long dev_flags(const gpio_v2_line_request* l) { return l->config.flags; } inline unsigned dev_lines(const gpio_v2_line_request* l) { return l->num_lines; } inline std::string dev_consumer(const gpio_v2_line_request* l) { return std::string(l->consumer, strnlen(l->consumer, sizeof l->consumer)); } inline bool dev_attrs(const gpio_v2_line_request* l) { return l->config.num_attrs != 0; }
#endif

namespace vtime {
	inline std::atomic<bool>& on() { static std::atomic<bool> b{ false }; return b; }
	inline std::atomic<unsigned>& delay_us() { static std::atomic<unsigned> b{ 0 }; return b; } // real delay of a virtual sleep
	inline std::atomic<long long>& longest() { static std::atomic<long long> b{ 0 }; return b; }
	inline long long& now() { static thread_local long long t = 1000000000000000ll; return t; }
	inline void advance(long long ns) { now() += ns; }
	inline long long real() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
	inline void real_sleep(long long ns) { timespec t; t.tv_sec = ns / 1000000000; t.tv_nsec = ns % 1000000000; syscall(SYS_nanosleep, &t, nullptr); }
	inline void slept(long long ns) { if (ns > 0) { advance(ns); long long l = longest(); while (ns > l && !longest().compare_exchange_weak(l, ns)) {} } if (unsigned d = delay_us()) real_sleep(d * 1000ll); }
}
namespace dev {
	using namespace vh;
	constexpr int BASE = 1000000;
	enum Kind { chip, line, bus };
	struct File { Kind kind; std::string path; bool open = true; long addr = 0; u32 offset = 0; u64 flags = 0; std::string consumer; u32 lines = 0; u32 level = 0; };
	struct Ev { char what; int fd = -1; bool ok = true; long addr = 0; u8 rw = 0, cmd = 0; u32 size = 0; u8 data[34] = {}; u32 val = 0; bool has_data = false; long long t = 0, rt = 0; u32 offset = 0; };
	struct State {
		std::mutex m; std::vector<File> files; std::vector<Ev> log; bool record = true; u64 dropped = 0; std::vector<std::string> bad;
		std::function<bool(const Ev&)> fail;                       // the call is made to fail (under the mutex)
		std::function<void(const Ev&, i2c_smbus_data*)> reply;     // fills what is read from a bus
		std::function<u32(const File&, const Ev&)> level;          // the level of a line
		std::function<void(const Ev&)> before;                     // outside the mutex
		unsigned long funcs = 0; gpiochip_info chip_info{}; u64 line_flags = 0; u32 tick_ns = 0; std::atomic<bool> hand_zero{ false }, zero_lines{ false }; std::atomic<int> zero{ -1 }; // one descriptor is shown to the library as number 0
	};
	inline State& st() { static State* s = new State; return *s; }
	inline void reset() { State& s = st(); std::lock_guard<std::mutex> g(s.m); s.files.clear(); s.log.clear(); s.bad.clear(); s.fail = nullptr; s.reply = nullptr; s.level = nullptr; s.before = nullptr; s.funcs = 0; s.tick_ns = 0; s.record = true; s.zero = -1; s.hand_zero = ctx().case_idx % 5 == 3; s.zero_lines = ctx().case_idx % 3 == 0; }
	struct NoFail { ~NoFail() { st().fail = nullptr; } }; // declare after what the fault uses
	inline std::size_t open_count() { State& s = st(); std::lock_guard<std::mutex> g(s.m); std::size_t n = 0; for (auto& f : s.files) n += f.open; return n; }
	inline std::vector<Ev> take() { State& s = st(); std::lock_guard<std::mutex> g(s.m); std::vector<Ev> v; v.swap(s.log); return v; }
	inline bool mine(const char* p) { return p && (strncmp(p, "/dev/gpiochip", 13) == 0 || strncmp(p, "/dev/i2c-", 9) == 0 || strncmp(p, "/fake/", 6) == 0); }
	inline void rec(Ev& e) { e.t = vtime::now(); e.rt = vtime::real(); if (st().record) st().log.push_back(e); }
	inline int do_open(const char* p) {
		State& s = st(); Ev e; e.what = 'o'; e.fd = BASE; { std::lock_guard<std::mutex> g(s.m); if (s.fail && s.fail(e)) { e.ok = false; rec(e); errno = ENOENT; return -1; } File f; f.kind = strstr(p, "i2c") ? bus : chip; f.path = p; s.files.push_back(f); e.fd = BASE + static_cast<int>(s.files.size()) - 1; rec(e); return e.fd; }
	}
	inline int do_close(int fd) {
		State& s = st(); std::lock_guard<std::mutex> g(s.m); Ev e; e.what = 'c'; e.fd = fd; std::size_t i = static_cast<std::size_t>(fd - BASE);
		if (i >= s.files.size() || !s.files[i].open) { s.bad.push_back("close of a descriptor that is not open"); errno = EBADF; return -1; }
		s.files[i].open = false; if (s.fail && s.fail(e)) { e.ok = false; rec(e); errno = EIO; return -1; } rec(e); return 0;
	}
	inline int shown(int fd) { State& s = st(); if (fd < BASE || !s.hand_zero) return fd; int none = -1; if (!s.zero.compare_exchange_strong(none, fd)) return fd; cnt("descriptor_zero"); return 0; }
	inline int meant(int fd) { int z = fd == 0 ? st().zero.load() : -1; return z >= 0 ? z : fd; }
	inline int do_ioctl(int fd, unsigned long req, void* arg) {
		State& s = st(); Ev e; e.fd = fd; std::unique_lock<std::mutex> g(s.m); std::size_t i = static_cast<std::size_t>(fd - BASE);
		if (i >= s.files.size() || !s.files[i].open) { s.bad.push_back("ioctl on a descriptor that is not open"); errno = EBADF; return -1; }
		Kind k = s.files[i].kind; e.addr = s.files[i].addr; i2c_smbus_ioctl_data* x = nullptr;
		if (k == bus && req == I2C_FUNCS) e.what = 'F';
		else if (k == bus && (req == I2C_SLAVE || req == I2C_SLAVE_FORCE)) { e.what = 'a'; e.addr = reinterpret_cast<long>(arg); }
		else if (k == bus && req == I2C_SMBUS) { e.what = 'x'; x = static_cast<i2c_smbus_ioctl_data*>(arg); e.rw = x->read_write; e.cmd = x->command; e.size = x->size; if (x->data && e.rw == I2C_SMBUS_WRITE) { e.has_data = true; std::size_t n = e.size == I2C_SMBUS_BYTE_DATA ? 1 : e.size == I2C_SMBUS_WORD_DATA ? 2 : e.size == I2C_SMBUS_BLOCK_DATA ? 34 : 0; memcpy(e.data, x->data, n); } }
		else if (k == chip && req == GPIO_GET_CHIPINFO_IOCTL) e.what = 'i';
		else if (k == chip && req == DEV_LINEINFO) { e.what = 'n'; e.val = dev_offset(static_cast<dev_line_info*>(arg)); }
		else if (k == chip && req == DEV_LINE) { e.what = 'l'; e.val = dev_offset(static_cast<dev_line_request*>(arg)); }
		else if (k == line && req == DEV_GET) { e.what = 'g'; e.offset = s.files[i].offset; }
		else if (k == line && req == DEV_SET) { e.what = 's'; e.offset = s.files[i].offset; auto* v = static_cast<dev_line_values*>(arg); e.val = dev_values(v); if (!dev_one(v)) s.bad.push_back("a level put on other lines"); }
		else { s.bad.push_back(fmt("unknown ioctl 0x%lx on a %s", req, k == chip ? "chip" : k == line ? "line" : "bus")); errno = ENOTTY; return -1; }
		if (s.before) { auto b = s.before; g.unlock(); b(e); g.lock(); if (!s.files[i].open) { s.bad.push_back("a descriptor closed while in use"); errno = EBADF; return -1; } if (e.what != 'a') e.addr = s.files[i].addr; }
		vtime::advance(s.tick_ns);
		if (s.fail && s.fail(e)) { e.ok = false; rec(e); errno = EREMOTEIO; return -1; }
		File& f = s.files[i];
		switch (e.what) {
		case 'F': *static_cast<unsigned long*>(arg) = s.funcs; break;
		case 'a': if (e.addr < 0 || e.addr > 0x7f) { e.ok = false; rec(e); errno = EINVAL; return -1; } f.addr = e.addr; break;
		case 'x':
			if (e.rw == I2C_SMBUS_READ) { if (!x->data) { s.bad.push_back("read without a place"); errno = EINVAL; return -1; } i2c_smbus_data d; memset(&d, 0, sizeof d); if (s.reply) s.reply(e, &d); std::size_t n = e.size == I2C_SMBUS_BYTE || e.size == I2C_SMBUS_BYTE_DATA ? 1 : e.size == I2C_SMBUS_WORD_DATA ? 2 : e.size == I2C_SMBUS_BLOCK_DATA ? 34 : 0; if (!n) { s.bad.push_back(fmt("unknown read size %u", e.size)); errno = EINVAL; return -1; } memcpy(x->data, &d, n); memcpy(e.data, &d, n); }
			else if (e.size != I2C_SMBUS_BYTE && !x->data) { s.bad.push_back("write without data"); errno = EINVAL; return -1; }
			break;
		case 'i': *static_cast<gpiochip_info*>(arg) = s.chip_info; break;
		case 'n': { auto* l = static_cast<dev_line_info*>(arg); u32 o = dev_offset(l); memset(l, 0, sizeof *l); dev_offset(l) = o; snprintf(l->name, sizeof l->name, "line%u", o); l->flags = static_cast<decltype(l->flags)>(s.line_flags ^ o); break; }
		case 'l': { auto* l = static_cast<dev_line_request*>(arg); File n; n.kind = line; n.path = f.path; n.offset = dev_offset(l); n.flags = dev_flags(l); n.lines = dev_lines(l); n.consumer = dev_consumer(l); if (dev_attrs(l)) s.bad.push_back("unexpected line attributes"); s.files.push_back(n); e.val = static_cast<u32>(BASE + static_cast<int>(s.files.size()) - 1); l->fd = shown(static_cast<int>(e.val)); break; }
		case 'g': { auto* v = static_cast<dev_line_values*>(arg); if (!dev_one(v)) s.bad.push_back("a level read from other lines"); e.val = s.level ? s.level(f, e) & 1 : f.level; dev_values(v, e.val); break; }
		case 's': f.level = e.val; break;
		}
		rec(e); return 0;
	}
	inline void check_clean(const char* what) { State& s = st(); std::size_t n = open_count(); std::vector<std::string> b; { std::lock_guard<std::mutex> g(s.m); b = s.bad; } if (!b.empty()) fail("device-misuse", "%s: %s", what, b[0].c_str()); VH_CHECK(n == 0, "left-open", "%s: %zu device descriptors left open", what, n); cnt("ledgers"); }
	inline void check_bad(const char* what) { State& s = st(); std::string b; { std::lock_guard<std::mutex> g(s.m); if (!s.bad.empty()) b = s.bad[0]; } if (!b.empty()) fail("device-misuse", "%s: %s", what, b.c_str()); }
}
#define DEV_REAL(name) static auto real = reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name))
#if VH_IS_PART(0)
extern "C" {
	int dev_open(const char* p, int fl, ...) __asm__("open"); int dev_open64(const char* p, int fl, ...) __asm__("open64");
	int dev_open(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = static_cast<mode_t>(va_arg(ap, unsigned)); va_end(ap); } if (dev::mine(p)) return dev::st().zero_lines ? dev::do_open(p) : dev::shown(dev::do_open(p)); return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, m)); }
	int dev_open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = static_cast<mode_t>(va_arg(ap, unsigned)); va_end(ap); } if (dev::mine(p)) return dev::st().zero_lines ? dev::do_open(p) : dev::shown(dev::do_open(p)); return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, m)); }
	int close(int fd) { int shown = fd; fd = dev::meant(fd); if (fd >= dev::BASE) { if (shown == 0) dev::st().zero = -1; return dev::do_close(fd); } return static_cast<int>(syscall(SYS_close, fd)); }
	int ioctl(int fd, unsigned long req, ...) noexcept { va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap); fd = dev::meant(fd); if (fd >= dev::BASE) return dev::do_ioctl(fd, req, a); return static_cast<int>(syscall(SYS_ioctl, fd, req, a)); }
	int clock_gettime(clockid_t c, timespec* t) noexcept { if (c == CLOCK_MONOTONIC && vtime::on()) { long long n = vtime::now(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; } return static_cast<int>(syscall(SYS_clock_gettime, c, t)); }
	int nanosleep(const timespec* r, timespec* rem) { if (vtime::on()) { vtime::slept(r->tv_sec * 1000000000ll + r->tv_nsec); return 0; } return static_cast<int>(syscall(SYS_nanosleep, r, rem)); }
	int clock_nanosleep(clockid_t c, int fl, const timespec* r, timespec* rem) { if (c == CLOCK_MONOTONIC && vtime::on()) { long long n = r->tv_sec * 1000000000ll + r->tv_nsec; vtime::slept(fl & TIMER_ABSTIME ? n - vtime::now() : n); return 0; } long k = syscall(SYS_clock_nanosleep, c, fl, r, rem); return k < 0 ? errno : 0; }
	int usleep(useconds_t u) { timespec t; t.tv_sec = u / 1000000; t.tv_nsec = u % 1000000 * 1000; return nanosleep(&t, nullptr); }
	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* a) {
		DEV_REAL(pthread_cond_clockwait); if (k != CLOCK_MONOTONIC || !vtime::on()) return real(c, m, k, a);
		long long dl = a->tv_sec * 1000000000ll + a->tv_nsec, left = dl - vtime::now(), cap = 20000000; if (left < 0) left = 0; long long r = vtime::real() + (left < cap ? left : cap); timespec t; t.tv_sec = r / 1000000000; t.tv_nsec = r % 1000000000; // a long wait is cut short: waking early is allowed
		int e = real(c, m, k, &t); if (e == ETIMEDOUT && dl > vtime::now()) vtime::now() = dl; return e;
	}
}
#endif
