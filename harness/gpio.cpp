// G01 SMBus and the devices on it, G02 GPIO lines, pulses and echoes, G03 motion sensing and tracking. The devices are stand-ins that record every call.
#include "log.h"
#include "gpio.h"
#include "fakedev.h"
#include <cmath>
#include <memory>
#include <ratio>
using namespace vh;
namespace {
	struct NullBuf : std::streambuf { int_type overflow(int_type c) override { return traits_type::not_eof(c); } std::streamsize xsputn(const char*, std::streamsize k) override { return k; } };
	using FullLog = abc::log_ostream<abc::debug_line_ostream<>, abc::log_filter>; using NoLog = abc::null_log;
	template <typename Log> struct LogOf { Log* get() { return nullptr; } };
	template <> struct LogOf<FullLog> { NullBuf nb; abc::log_filter f; FullLog l; LogOf() : f(abc::severity::abc::debug), l(&nb, &f) {} FullLog* get() { return &l; } };
	using dev::Ev; using us = std::chrono::microseconds;
	template <typename F> bool refuses(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
	inline std::string dev_path(Rng& rng, const char* kind, int& pos) { pos = -1; if (rng.chance(1, 2)) { pos = static_cast<int>(rng.below(1000)); return std::string(strcmp(kind, "i2c") == 0 ? "/dev/i2c-" : "/dev/gpiochip") + std::to_string(pos); } std::string p = std::string("/fake/") + kind; std::size_t n = rng.chance(1, 2) ? 31 : p.size() + rng.below(32 - p.size()); while (p.size() < n) p += static_cast<char>('a' + rng.below(26)); return p; }
	constexpr long long MS = 1000000;
	struct Done { ~Done() { vtime::on() = false; vtime::delay_us() = 0; } };
}

#if defined(G01) || defined(G03)
namespace {
	inline u16 word_of(const Ev& e) { u16 w; memcpy(&w, e.data, 2); return w; }
	inline u16 swapped(u16 w) { return static_cast<u16>(w << 8 | w >> 8); }
	// what happened on the bus, addresses resolved
	inline std::vector<Ev> transfers(const char* what, int addr) { std::vector<Ev> v; for (auto& e : dev::take()) { if (e.what == 'a') { VH_CHECK(e.addr == addr, "address", "%s: the bus was addressed to 0x%lx instead of 0x%x", what, e.addr, addr); cnt("addressings"); } else if (e.what == 'x') { VH_CHECK(e.addr == addr, "address", "%s: a transfer reached target 0x%lx instead of 0x%x", what, e.addr, addr); v.push_back(e); cnt("transfers"); } else VH_CHECK(e.what == 's', "unexpected-call", "%s: unexpected device call '%c'", what, e.what); } dev::check_bad(what); return v; }
	inline std::string show(const Ev& e) { return fmt("%s reg 0x%02x size %u data %02x %02x", e.rw == I2C_SMBUS_READ ? "read" : "write", e.cmd, e.size, e.data[0], e.data[1]); }
	inline void is_transfer(const char* what, const Ev& e, u8 rw, u32 size, int reg) { VH_CHECK(e.rw == rw && e.size == size && (reg < 0 || e.cmd == reg), "transfer", "%s: the transfer was %s instead of %s reg 0x%02x size %u", what, show(e).c_str(), rw == I2C_SMBUS_READ ? "read" : "write", reg, size); }
	inline u16 is_word_write(const char* what, const Ev& e, int reg, bool swap) { is_transfer(what, e, I2C_SMBUS_WRITE, I2C_SMBUS_WORD_DATA, reg); return swap ? swapped(word_of(e)) : word_of(e); }
}
#endif

#ifdef G01
namespace {
	template <typename Log> void g01_ops(abc::gpio_smbus<Log>& bus, std::vector<abc::gpio_smbus_target<Log>>& ts, Rng& rng, u64& h) {
		auto& S = dev::st(); u64 serial = rng.next(); S.reply = [&](const Ev& e, i2c_smbus_data* d) { u64 x = mix(serial++ ^ (e.cmd * 0x10001ull)); for (int i = 0; i < 34; i++) reinterpret_cast<u8*>(d)[i] = static_cast<u8>(mix(x + static_cast<u64>(i))); if (e.size == I2C_SMBUS_BLOCK_DATA) d->block[0] = static_cast<u8>(x % 33); };
		for (u64 n = 5 + rng.below(40); n--;) {
			auto& t = ts[rng.below(ts.size())]; int addr = t.address(); bool sw = t.requires_byte_swap(); u8 reg = static_cast<u8>(rng.next()); int failing = rng.chance(1, 5) ? static_cast<int>(rng.below(3)) : -1, seen = 0; bool failed = false; S.fail = [&](const Ev&) { bool f = seen++ == failing; failed |= f; return f; }; dev::NoFail nf;
			unsigned op = static_cast<unsigned>(rng.below(9)); static const char* names[] = { "put_nodata", "put_byte", "put_word", "put_block", "get_noreg", "get_noreg_2", "get_byte", "get_word", "get_block" }; const char* what = names[op]; bool r; std::vector<Ev> v; h = hcomb(h, op * 256 + reg);
			bool bad_addr = addr > 0x7f; auto outcome = [&](std::size_t want) { v = transfers(what, addr); bool fails = failed || bad_addr; VH_CHECK(r == !fails, "outcome", "%s is reported as %s after the bus %s", what, r ? "successful" : "failed", fails ? "failed" : "succeeded"); if (failed) { VH_CHECK(v.empty() || !v.back().ok || v.size() <= want, "after-failure", "%s went on after a failure", what); for (std::size_t i = 0; i + 1 < v.size(); i++) VH_CHECK(v[i].ok, "after-failure", "%s went on after a failed transfer", what); cnt("failures"); } else if (bad_addr) VH_CHECK(v.empty(), "after-failure", "%s went on without the target", what); else VH_CHECK(v.size() == want, "transfer-count", "%s made %zu transfers instead of %zu", what, v.size(), want); cnt("ops"); return r; };
			switch (op) {
			case 0: r = bus.put_nodata(t, reg); if (outcome(1)) is_transfer(what, v[0], I2C_SMBUS_WRITE, I2C_SMBUS_BYTE, reg); break;
			case 1: { u8 b = static_cast<u8>(rng.next()); r = bus.put_byte(t, reg, b); if (outcome(1)) { is_transfer(what, v[0], I2C_SMBUS_WRITE, I2C_SMBUS_BYTE_DATA, reg); VH_CHECK(v[0].data[0] == b, "data", "put_byte(0x%02x) put 0x%02x on the bus", b, v[0].data[0]); } break; }
			case 2: { u16 w = static_cast<u16>(rng.next()); r = bus.put_word(t, reg, w); if (outcome(1)) { u16 g = is_word_write(what, v[0], reg, sw); VH_CHECK(g == w, "data", "put_word(0x%04x), swap %d, put 0x%04x on the bus", w, sw, word_of(v[0])); } break; }
			case 3: { std::size_t k = rng.chance(1, 6) ? 33 + rng.below(300) : rng.chance(1, 4) ? 32 : rng.below(33); Exact b(k); for (std::size_t i = 0; i < k; i++) b.p[i] = static_cast<char>(rng.next()); r = bus.put_block(t, reg, b.p, k); if (k > 32) { v = transfers(what, addr); VH_CHECK(!r && v.empty(), "too-long", "put_block of %zu bytes is reported as %d after %zu transfers", k, r, v.size()); cnt("too_long"); break; } if (outcome(1)) { is_transfer(what, v[0], I2C_SMBUS_WRITE, I2C_SMBUS_BLOCK_DATA, reg); VH_CHECK(v[0].data[0] == k && memcmp(v[0].data + 1, b.p, k) == 0, "data", "put_block of %zu bytes put %u bytes, or others, on the bus", k, v[0].data[0]); cnt("blocks"); } break; }
			case 4: { u8 b = 0; r = bus.get_noreg(t, b); if (outcome(1)) { is_transfer(what, v[0], I2C_SMBUS_READ, I2C_SMBUS_BYTE, -1); VH_CHECK(b == v[0].data[0], "data", "get_noreg returned 0x%02x, the bus 0x%02x", b, v[0].data[0]); } break; }
			case 5: { u16 w = 0; r = bus.get_noreg_2(t, w); if (outcome(2)) { for (auto& e : v) is_transfer(what, e, I2C_SMBUS_READ, I2C_SMBUS_BYTE, -1); u16 g = sw ? static_cast<u16>(v[0].data[0] << 8 | v[1].data[0]) : static_cast<u16>(v[1].data[0] << 8 | v[0].data[0]); VH_CHECK(w == g, "data", "get_noreg_2, swap %d, returned 0x%04x, the bus 0x%02x 0x%02x", sw, w, v[0].data[0], v[1].data[0]); } break; }
			case 6: { u8 b = 0; r = bus.get_byte(t, reg, b); if (outcome(1)) { is_transfer(what, v[0], I2C_SMBUS_READ, I2C_SMBUS_BYTE_DATA, reg); VH_CHECK(b == v[0].data[0], "data", "get_byte returned 0x%02x, the bus 0x%02x", b, v[0].data[0]); } break; }
			case 7: { u16 w = 0; r = bus.get_word(t, reg, w); if (outcome(1)) { is_transfer(what, v[0], I2C_SMBUS_READ, I2C_SMBUS_WORD_DATA, reg); u16 g = sw ? swapped(word_of(v[0])) : word_of(v[0]); VH_CHECK(w == g, "data", "get_word, swap %d, returned 0x%04x, the bus 0x%04x", sw, w, word_of(v[0])); } break; }
			default: {
				std::size_t cap = rng.chance(1, 3) ? 32 + rng.below(20) : rng.below(33), k = cap; Exact b(cap, 0x77); r = bus.get_block(t, reg, b.p, k); v = transfers(what, addr); cnt("ops");
				if (failed || bad_addr) { VH_CHECK(!r, "outcome", "get_block is reported as successful after the bus failed"); cnt("failures"); break; }
				VH_CHECK(v.size() == 1, "transfer-count", "get_block made %zu transfers", v.size()); is_transfer(what, v[0], I2C_SMBUS_READ, I2C_SMBUS_BLOCK_DATA, reg); std::size_t got = v[0].data[0];
				if (got > cap) { VH_CHECK(!r, "too-long", "get_block of %zu bytes into %zu bytes is reported as successful", got, cap); for (std::size_t i = 0; i < cap; i++) VH_CHECK(b.p[i] == 0x77, "too-long", "a refused block was stored"); cnt("blocks_refused"); } else { VH_CHECK(r && k == got && memcmp(b.p, v[0].data + 1, got) == 0, "data", "get_block returned %d, %zu bytes, the bus %zu bytes", r, k, got); cnt("blocks"); }
				break; } }
			S.fail = nullptr;
		}
	}
	struct Pwm { double ar, psc; long long clock; int freq; bool sw; int addr; int reg; double lo = -1, hi = -1; }; // widths in us
	template <typename T> void pwm_regs(const char* what, T& t, u8 reg_ar, u8 reg_psc, Pwm& p) {
		p.addr = t.address(); p.sw = t.requires_byte_swap(); auto v = transfers(what, p.addr); VH_CHECK(v.size() == 2, "pwm-setup", "%s made %zu transfers", what, v.size()); if (v[0].cmd == reg_psc) std::swap(v[0], v[1]);
		p.ar = is_word_write(what, v[0], reg_ar, p.sw) + 1.0; p.psc = is_word_write(what, v[1], reg_psc, p.sw) + 1.0; double period = static_cast<double>(p.clock / p.freq);
		VH_CHECK(std::abs(p.ar * p.psc - period) <= p.ar, "pwm-period", "%s at %d Hz and a clock of %lld: autoreload %.0f times prescaler %.0f is not the period of %.0f ticks", what, p.freq, p.clock, p.ar, p.psc, period);
		VH_CHECK(p.ar >= std::sqrt(period) / 3 && p.ar <= std::sqrt(period) * 3, "pwm-resolution", "%s at %d Hz and a clock of %lld: autoreload %.0f is far from the square root of the period of %.0f ticks", what, p.freq, p.clock, p.ar, period); cnt("pwm_setups");
	}
	inline void pwm_value(const char* what, const Ev& e, const Pwm& p, int duty) {
		double ccr = is_word_write(what, e, p.reg, p.sw); bool widths = p.hi >= 0; if (duty > 100) duty = 100; cnt("pulses");
		auto ticks = [&](double w) { return w * static_cast<double>(p.clock) / 1e6 / p.psc; };
		if (duty == 0) VH_CHECK(ccr == 0, "duty", "%s: duty cycle 0 puts %.0f of %.0f", what, ccr, p.ar);
		else if (duty == 100) VH_CHECK(ccr == p.ar || (widths && std::abs(ccr - ticks(p.hi)) <= 2.5), "duty", "%s: duty cycle 100 puts %.0f of %.0f", what, ccr, p.ar);
		else if (widths) VH_CHECK(std::abs(ccr - ticks(p.lo + (p.hi - p.lo) * duty / 100)) <= 2.5, "pulse-width", "%s: duty cycle %d between %.0f and %.0f us at a clock of %lld with prescaler %.0f puts %.0f instead of %.1f", what, duty, p.lo, p.hi, p.clock, p.psc, ccr, ticks(p.lo + (p.hi - p.lo) * duty / 100));
		else VH_CHECK(std::abs(ccr - p.ar * duty / 100) <= 1.01, "duty", "%s: duty cycle %d puts %.0f of %.0f", what, duty, ccr, p.ar);
	}
	template <typename D> void duty_ops(const char* what, D& d, const Pwm& p, Rng& rng, u64& h) {
		for (u64 n = 1 + rng.below(8); n--;) { int duty = rng.chance(1, 4) ? (rng.chance(1, 3) ? 0 : rng.chance(1, 2) ? 100 : 101 + static_cast<int>(rng.below(65000))) : static_cast<int>(rng.below(101)); h = hcomb(h, static_cast<u64>(duty)); if (rng.chance(2, 3)) { d.set_duty_cycle(static_cast<abc::gpio_pwm_duty_cycle_t>(duty)); auto v = transfers(what, p.addr); VH_CHECK(v.size() == 1, "duty-transfers", "%s: setting the duty cycle made %zu transfers", what, v.size()); pwm_value(what, v[0], p, duty); } else { long long t0 = vtime::now(); auto dur = us(rng.below(3000)); d.set_duty_cycle(static_cast<abc::gpio_pwm_duty_cycle_t>(duty), dur); auto v = transfers(what, p.addr); VH_CHECK(v.size() == 2 && vtime::now() - t0 >= dur.count() * 1000, "timed-duty", "%s: a duty cycle for %lld us made %zu transfers in %lld ns", what, static_cast<long long>(dur.count()), v.size(), vtime::now() - t0); pwm_value(what, v[0], p, duty); pwm_value(what, v[1], p, 0); VH_CHECK(v[1].t - v[0].t >= dur.count() * 1000, "timed-duty", "%s: the duty cycle was kept for %lld ns instead of %lld us", what, v[1].t - v[0].t, static_cast<long long>(dur.count())); cnt("timed"); } }
	}
	template <typename Log> void g01_devices(abc::gpio_smbus<Log>& bus, const std::string& chip_path, LogOf<Log>& log, Rng& rng, u64& h) {
		using T = abc::gpio_smbus_target<Log>; auto& S = dev::st(); abc::gpio_chip<Log> chip(chip_path.c_str(), "tester", log.get()); dev::take();
		for (u64 n = 1 + rng.below(3); n--;) {
			static const long long clocks[] = { 72000000, 64000000, 16000000, 8000000, 1000000, 200000000, 1000 }; Pwm p; p.clock = rng.chance(2, 3) ? clocks[rng.below(7)] : 1000 + static_cast<long long>(rng.below(rng.chance(1, 2) ? 100000000 : 1000000)); p.freq = static_cast<int>(rng.chance(1, 2) ? 1 + rng.below(400) : rng.chance(1, 2) ? 50 : 1 + rng.below(65535)); while (p.clock / p.freq < 4) p.freq = 1 + p.freq / 2; if (p.clock / p.freq > (1 << 30)) p.freq = 50;
			T t(static_cast<u8>(rng.below(128)), static_cast<u64>(p.clock), rng.chance(1, 2), log.get()); u8 r0 = static_cast<u8>(rng.below(64)), ra = static_cast<u8>(64 + rng.below(64)), rp = static_cast<u8>(128 + rng.below(64)); if (rng.chance(1, 3)) { ra = static_cast<u8>(r0 + 1); rp = static_cast<u8>(r0 + (rng.chance(1, 2) ? 2 : 3)); cnt("adjacent_registers"); } p.reg = r0; auto f = static_cast<abc::gpio_pwm_pulse_frequency_t>(p.freq); long long per = 1000000 / p.freq; long long lo = per ? static_cast<long long>(rng.below(static_cast<u64>(per))) : 0, hi = per ? lo + 1 + static_cast<long long>(rng.below(static_cast<u64>(per - lo))) : 0; h = hcomb(h, static_cast<u64>(p.clock * 70000 + p.freq)); unsigned kind = static_cast<unsigned>(rng.below(5)); if ((hi == 0 || p.clock < 1000000) && (kind == 1 || kind == 2)) kind = 0;
			switch (kind) {
			case 0: { abc::gpio_smbus_pwm<Log> d(&bus, t, f, r0, ra, rp, log.get()); pwm_regs("pwm", t, ra, rp, p); duty_ops("pwm", d, p, rng, h); abc::gpio_smbus_pwm<Log> m(std::move(d)); duty_ops("moved pwm", m, p, rng, h); break; }
			case 1: { p.lo = static_cast<double>(lo); p.hi = static_cast<double>(hi); std::unique_ptr<abc::gpio_smbus_pwm<Log>> d; if (rng.chance(1, 3) && per >= 2) { lo = lo / 1000; hi = hi / 1000; if (hi == 0) hi = 1; if (hi * 1000 > per) { break; } p.lo = static_cast<double>(lo) * 1000; p.hi = static_cast<double>(hi) * 1000; d.reset(new abc::gpio_smbus_pwm<Log>(&bus, t, std::chrono::milliseconds(lo), std::chrono::milliseconds(hi), f, r0, ra, rp, log.get())); } else d.reset(new abc::gpio_smbus_pwm<Log>(&bus, t, us(lo), us(hi), f, r0, ra, rp, log.get())); pwm_regs("pwm with widths", t, ra, rp, p); duty_ops("pwm with widths", *d, p, rng, h); break; }
			case 2: { p.lo = static_cast<double>(lo); p.hi = static_cast<double>(hi); us dur(rng.below(5000)); abc::gpio_smbus_servo<us, Log> d(&bus, t, us(lo), us(hi), dur, f, r0, ra, rp, log.get()); pwm_regs("servo", t, ra, rp, p); for (u64 k = 1 + rng.below(4); k--;) { int duty = static_cast<int>(rng.below(102)); d.set_duty_cycle(static_cast<abc::gpio_pwm_duty_cycle_t>(duty)); auto v = transfers("servo", p.addr); VH_CHECK(v.size() == 2, "servo", "turning a servo made %zu transfers", v.size()); pwm_value("servo", v[0], p, duty); pwm_value("servo", v[1], p, 0); VH_CHECK(v[1].t - v[0].t >= dur.count() * 1000 && v[1].t - v[0].t <= dur.count() * 1000 + 1000000, "servo", "a servo was turned for %lld ns instead of %lld us", v[1].t - v[0].t, static_cast<long long>(dur.count())); cnt("servo_turns"); } break; }
			case 3: {
				u32 lp = static_cast<u32>(rng.below(64)); abc::gpio_smbus_motor<Log> m0(&chip, lp, &bus, t, f, r0, ra, rp, log.get()); { auto ev = dev::take(); std::vector<Ev> keep; for (auto& e : ev) if (e.what == 'a' || e.what == 'x') keep.push_back(e); std::lock_guard<std::mutex> g(S.m); S.log = keep; } pwm_regs("motor", t, ra, rp, p); abc::gpio_smbus_motor<Log> m(std::move(m0)); dev::check_bad("motor");
				VH_CHECK(m.is_forward(), "motor", "a new motor does not go forward"); VH_CHECK(m.get_duty_cycle() == 0, "motor", "a new motor has a duty cycle");
				for (u64 k = 1 + rng.below(6); k--;) { if (rng.chance(1, 2)) { bool fw = rng.chance(1, 2); m.set_forward(fw); auto ev = dev::take(); VH_CHECK(ev.size() == 1 && ev[0].what == 's' && ev[0].offset == lp && ev[0].val == (fw ? 0u : 1u), "motor", "the direction of a motor was not put on its line"); VH_CHECK(m.is_forward() == fw, "motor", "is_forward() is not the direction set"); } else { int duty = static_cast<int>(rng.below(120)); m.set_duty_cycle(static_cast<abc::gpio_pwm_duty_cycle_t>(duty)); auto v = transfers("motor", p.addr); VH_CHECK(v.size() == 1, "duty-transfers", "a motor's duty cycle made %zu transfers", v.size()); pwm_value("motor", v[0], p, duty); VH_CHECK(m.get_duty_cycle() == std::min(duty, 100), "motor", "get_duty_cycle() is %d after %d was set", m.get_duty_cycle(), duty); } cnt("motor_ops"); } break; }
			default: { u64 serial = rng.next(); S.reply = [&](const Ev&, i2c_smbus_data* d) { d->byte = static_cast<u8>(mix(serial++)); }; abc::gpio_smbus_grayscale<Log> g0(&bus, t, r0, ra, rp, log.get()); abc::gpio_smbus_grayscale<Log> g(std::move(g0)); for (u64 k = 1 + rng.below(4); k--;) { u16 l = 1, c = 2, r = 3; g.get_values(l, c, r); auto v = transfers("grayscale", t.address()); VH_CHECK(v.size() == 9, "grayscale", "a grayscale reading made %zu transfers", v.size()); u16* out[] = { &l, &c, &r }; u8 regs[] = { r0, ra, rp }; for (std::size_t i = 0; i < 3; i++) { VH_CHECK(is_word_write("grayscale", v[i * 3], regs[i], false) == 0, "grayscale", "a channel is not selected by a zero"); for (std::size_t j = 1; j < 3; j++) is_transfer("grayscale", v[i * 3 + j], I2C_SMBUS_READ, I2C_SMBUS_BYTE, -1); u8 a = v[i * 3 + 1].data[0], b = v[i * 3 + 2].data[0]; u16 want = t.requires_byte_swap() ? static_cast<u16>(a << 8 | b) : static_cast<u16>(b << 8 | a); VH_CHECK(*out[i] == want, "grayscale", "channel %zu is 0x%04x, the bus 0x%02x 0x%02x", i, *out[i], a, b); } cnt("grayscale_readings"); } break; } }
			dev::take();
		}
		if (rng.chance(1, 4)) { T t(1, 72000000, false); VH_CHECK(refuses([&] { abc::gpio_smbus_pwm<Log> p(nullptr, t, 50, 1, 2, 3, log.get()); }), "accepted", "a pwm without a bus was accepted"); VH_CHECK(refuses([&] { abc::gpio_smbus_grayscale<Log> p(nullptr, t, 1, 2, 3, log.get()); }), "accepted", "a grayscale sensor without a bus was accepted"); VH_CHECK(refuses([&] { abc::gpio_smbus_motor<Log> m(nullptr, 1, &bus, t, 50, 1, 2, 3, log.get()); }), "accepted", "a motor without a chip was accepted"); VH_CHECK(refuses([&] { abc::gpio_smbus_motor<Log> m(&chip, 1, nullptr, t, 50, 1, 2, 3, log.get()); }), "accepted", "a motor without a bus was accepted"); cnt("refused"); dev::take(); }
	}
	// each thread has its own target; what arrives at a target must come from its thread
	template <typename Log> void g01_threads(abc::gpio_smbus<Log>& bus, LogOf<Log>& log, Rng& rng, u64& h) {
		auto& S = dev::st(); unsigned n = 2 + static_cast<unsigned>(rng.below(3)); u64 serial = rng.next(); S.before = [&](const Ev& e) { u64 x = mix(serial + static_cast<u64>(vtime::real())); if (x % 4 == 0) std::this_thread::yield(); else if (x % 64 == 1) vtime::real_sleep(20000); (void)e; };
		S.reply = [](const Ev& e, i2c_smbus_data* d) { memset(d, 0, sizeof *d); d->block[0] = static_cast<u8>(e.size == I2C_SMBUS_BLOCK_DATA ? 3 : e.addr); d->block[1] = static_cast<u8>(e.addr); d->block[2] = static_cast<u8>(e.addr); d->block[3] = static_cast<u8>(e.addr); };
		std::vector<std::thread> th; std::atomic<unsigned> go{ 0 }; std::atomic<u64> wrong{ 0 }; unsigned rounds = 30 + static_cast<unsigned>(rng.below(100));
		for (unsigned k = 0; k < n; k++) th.emplace_back([&, k] {
			u8 addr = static_cast<u8>(0x10 + k); abc::gpio_smbus_target<Log> t(addr, 72000000, false, log.get()); Rng r(hcomb(h, k)); go++; while (go < n) std::this_thread::yield(); // register = address: a misdirected transfer shows
			for (unsigned i = 0; i < rounds; i++) { u8 b = 0; u16 w = 0; bool ok = true; switch (r.below(7)) { case 0: ok = bus.put_byte(t, addr, addr); break; case 1: ok = bus.put_word(t, addr, addr); break; case 2: ok = bus.put_nodata(t, addr); break; case 3: ok = bus.get_byte(t, addr, b) && b == addr; break; case 4: ok = bus.get_word(t, addr, w) && w == addr * 257; break; case 5: ok = bus.get_noreg(t, b) && b == addr; break; default: ok = bus.get_noreg_2(t, w) && w == addr * 257; } if (!ok) wrong++; }
		});
		for (auto& t : th) t.join();
		S.before = nullptr; auto ev = dev::take(); u64 sw = 0, last = 0; for (auto& e : ev) if (e.what == 'x') { sw += static_cast<u64>(e.addr) != last; last = static_cast<u64>(e.addr); if (e.rw == I2C_SMBUS_WRITE || e.size != I2C_SMBUS_BYTE) VH_CHECK(e.addr == e.cmd, "crossed-targets", "a transfer for target 0x%02x reached target 0x%02lx", e.cmd, e.addr); cnt("concurrent_transfers"); }
		VH_CHECK(wrong == 0, "crossed-targets", "%llu concurrent operations failed or read another target", static_cast<unsigned long long>(wrong.load())); cnt("target_switches", sw); dev::check_bad("threads"); h = hcomb(h, sw);
	}
	template <typename Log> void g01(u64 idx, Rng& rng) {
		dev::reset(); Done done; vtime::on() = true; auto& S = dev::st(); u64 h = 0; LogOf<Log> log; int pos; std::string path = dev_path(rng, "i2c", pos); S.funcs = rng.next() & 0xffffffff;
		if (rng.chance(1, 6)) {
			std::string lng(32 + rng.below(200), 'x'); lng.replace(0, 9, "/fake/i2c"); VH_CHECK(refuses([&] { abc::gpio_smbus<Log> b(lng.c_str(), log.get()); }), "accepted", "a path of %zu chars was accepted", lng.size()); VH_CHECK(refuses([&] { abc::gpio_smbus<Log> b(static_cast<const char*>(nullptr), log.get()); }), "accepted", "no path was accepted");
			char which = rng.chance(1, 2) ? 'o' : 'F'; S.fail = [which](const Ev& e) { return e.what == which; }; VH_CHECK(refuses([&] { abc::gpio_smbus<Log> b(path.c_str(), log.get()); }), "accepted", "a bus that cannot be opened was accepted"); S.fail = nullptr; dev::check_clean("a failed bus"); cnt("refused"); dev::take();
		}
		{
			std::unique_ptr<abc::gpio_smbus<Log>> b(pos >= 0 ? new abc::gpio_smbus<Log>(pos, log.get()) : new abc::gpio_smbus<Log>(path.c_str(), log.get())); abc::gpio_smbus<Log>& bus = *b; VH_CHECK(bus.path() == path, "path", "path() is %s instead of %s", bus.path(), path.c_str()); VH_CHECK(bus.functionality() == S.funcs, "functionality", "functionality() is 0x%lx instead of 0x%lx", bus.functionality(), S.funcs); { auto ev = dev::take(); VH_CHECK(ev.size() == 2 && ev[0].what == 'o' && ev[1].what == 'F', "construction", "opening a bus made %zu calls", ev.size()); VH_CHECK(S.files[static_cast<std::size_t>(ev[0].fd - dev::BASE)].path == path, "path", "another device was opened"); }
			std::vector<abc::gpio_smbus_target<Log>> ts; for (u64 n = 1 + rng.below(4); n--;) { u8 a = static_cast<u8>(rng.chance(1, 12) ? 0x80 + rng.below(128) : 1 + rng.below(127)); bool sw = rng.chance(1, 2); u64 c = rng.next(); abc::gpio_smbus_target<Log> t(a, c, sw, log.get()); ts.push_back(t); VH_CHECK(ts.back().address() == a && ts.back().clock_frequency() == c && ts.back().requires_byte_swap() == sw, "target", "a target is not what was asked for"); }
			unsigned mode = static_cast<unsigned>(idx % 8); if (mode == 7) g01_threads<Log>(bus, log, rng, h); else { if (mode < 5) g01_ops<Log>(bus, ts, rng, h); if (mode > 3) g01_devices<Log>(bus, rng.chance(1, 2) ? "/dev/gpiochip0" : "/fake/chip", log, rng, h); }
		}
		dev::check_clean("a bus"); eval(); nontrivial(h);
	}
}
static RegIt r_g01("G01", [](u64 i, Rng& r) { if (r.chance(1, 3)) g01<FullLog>(i, r); else g01<NoLog>(i, r); });
#endif // G01

#ifdef G02
namespace {
	template <typename Log> void g02_chip(Rng& rng, u64& h) {
		auto& S = dev::st(); LogOf<Log> log; int pos; std::string path = dev_path(rng, "chip", pos), who; for (std::size_t n = rng.chance(1, 3) ? 31 : rng.below(32); n--;) who += static_cast<char>('a' + rng.below(26));
		if (rng.chance(1, 4)) { std::string lng = "/fake/" + std::string(26 + rng.below(100), 'c'); VH_CHECK(refuses([&] { abc::gpio_chip<Log> c(lng.c_str(), "x", log.get()); }) && refuses([&] { abc::gpio_chip<Log> c(path.c_str(), lng.c_str(), log.get()); }) && refuses([&] { abc::gpio_chip<Log> c(static_cast<const char*>(nullptr), "x", log.get()); }) && refuses([&] { abc::gpio_chip<Log> c(path.c_str(), nullptr, log.get()); }), "accepted", "a bad path or consumer was accepted"); S.fail = [](const Ev& e) { return e.what == 'o'; }; VH_CHECK(refuses([&] { abc::gpio_chip<Log> c(path.c_str(), "x", log.get()); }), "accepted", "a chip that cannot be opened was accepted"); S.fail = nullptr; dev::check_clean("refused chips"); cnt("refused"); }
		memset(&S.chip_info, 0, sizeof S.chip_info); snprintf(S.chip_info.name, 32, "n%u", static_cast<unsigned>(rng.below(1000000))); snprintf(S.chip_info.label, 32, "l%u", static_cast<unsigned>(rng.below(1000000))); S.chip_info.lines = static_cast<u32>(rng.next()); S.line_flags = rng.next();
		std::unique_ptr<abc::gpio_chip<Log>> c0(pos >= 0 ? new abc::gpio_chip<Log>(pos, who.c_str(), log.get()) : new abc::gpio_chip<Log>(path.c_str(), who.c_str(), log.get())); abc::gpio_chip<Log> c = rng.chance(1, 2) ? abc::gpio_chip<Log>(*c0) : abc::gpio_chip<Log>(std::move(*c0)); c0.reset();
		VH_CHECK(c.path() == path && c.consumer() == who, "chip", "a chip is at %s for %s instead of %s for %s", c.path(), c.consumer(), path.c_str(), who.c_str()); VH_CHECK(dev::open_count() == 0, "left-open", "a chip is left open");
		for (u64 n = 1 + rng.below(4); n--;) {
			char f = rng.chance(1, 4) ? (rng.chance(1, 2) ? 'o' : 'i') : 0; S.fail = [f](const Ev& e) { return e.what == f || (f == 'i' && e.what == 'n'); }; dev::take();
			abc::gpio_chip_info ci = c.chip_info(); VH_CHECK(ci.is_valid == (f == 0), "chip-info", "chip_info() is valid: %d after the device %s", ci.is_valid, f ? "failed" : "answered"); if (!f) VH_CHECK(memcmp(static_cast<gpiochip_info*>(&ci), &S.chip_info, sizeof S.chip_info) == 0, "chip-info", "chip_info() is not what the device says");
			u32 p = static_cast<u32>(rng.next()); abc::gpio_line_info li = c.line_info(p); VH_CHECK(li.is_valid == (f == 0), "line-info", "line_info() is valid: %d after the device %s", li.is_valid, f ? "failed" : "answered"); if (!f) VH_CHECK(dev_offset(&li) == p && li.flags == static_cast<decltype(li.flags)>(S.line_flags ^ p) && std::string(li.name) == fmt("line%u", p), "line-info", "line_info(%u) is that of line %u", p, dev_offset(&li));
			S.fail = nullptr; VH_CHECK(dev::open_count() == 0, "left-open", "a chip is left open after a query"); cnt("infos", 2); h = hcomb(h, p);
		}
		auto ev = dev::take(); for (auto& e : ev) if (e.what == 'o' && e.ok) VH_CHECK(S.files[static_cast<std::size_t>(e.fd - dev::BASE)].path == path, "path", "another device was opened");
		// lines
		std::vector<std::unique_ptr<abc::gpio_output_line<Log>>> outs; std::vector<std::unique_ptr<abc::gpio_input_line<Log>>> ins; std::vector<std::unique_ptr<abc::gpio_line<Log>>> gen; std::map<void*, u32> at; u64 live = 0;
		auto requested = [&](u32 p, u64 flags) { auto e = dev::take(); const Ev* l = nullptr; for (auto& x : e) if (x.what == 'l') { VH_CHECK(!l, "line-request", "a line is requested twice"); l = &x; } VH_CHECK(l && l->ok, "line-request", "a line is not requested"); dev::File& f = S.files[static_cast<std::size_t>(l->val) - dev::BASE]; VH_CHECK(f.offset == p && f.lines == 1 && f.flags == flags && f.consumer == who && f.path == path, "line-request", "line %u of %u lines with flags 0x%llx for %s was requested instead of line %u with flags 0x%llx for %s", f.offset, f.lines, static_cast<unsigned long long>(f.flags), f.consumer.c_str(), p, static_cast<unsigned long long>(flags), who.c_str()); live++; VH_CHECK(dev::open_count() == live, "left-open", "%zu descriptors are open for %llu lines", dev::open_count(), static_cast<unsigned long long>(live)); cnt("lines"); };
		auto put = [&](auto& l, u32 p) { u32 lv = rng.chance(1, 6) ? 2 + static_cast<u32>(rng.below(1000)) : static_cast<u32>(rng.below(2)); bool f = rng.chance(1, 5), timed = rng.chance(1, 4); if (f) S.fail = [](const Ev& e) { return e.what == 's'; }; dev::take(); auto dur = us(rng.below(20000)); long long t0 = vtime::now(); u32 r = timed ? l.put_level(lv, dur) : l.put_level(lv); S.fail = nullptr; auto e = dev::take(); if (lv > 1) VH_CHECK(r == abc::gpio_level::invalid && e.empty(), "put-level", "level %u was put on a line", lv); else { VH_CHECK(e.size() == 1 && e[0].what == 's' && e[0].offset == p && e[0].val == lv, "put-level", "level %u was not put on line %u", lv, p); VH_CHECK(r == (f ? static_cast<u32>(abc::gpio_level::invalid) : lv), "put-level", "put_level(%u) returned %u after the device %s", lv, r, f ? "failed" : "succeeded"); if (timed && !f) VH_CHECK(vtime::now() - t0 >= dur.count() * 1000, "put-level", "a level was put for %lld ns instead of %lld us", vtime::now() - t0, static_cast<long long>(dur.count())); } cnt("puts"); };
		auto get = [&](auto& l, u32 p) {
			bool f = rng.chance(1, 5); u32 lv = static_cast<u32>(rng.below(2)); S.level = [lv](const dev::File&, const Ev&) { return lv; }; if (f) S.fail = [](const Ev& e) { return e.what == 'g'; }; dev::take(); u32 r = l.get_level(); S.fail = nullptr; auto e = dev::take(); VH_CHECK(e.size() == 1 && e[0].what == 'g' && e[0].offset == p, "get-level", "line %u was not read", p); VH_CHECK(r == (f ? static_cast<u32>(abc::gpio_level::invalid) : lv), "get-level", "get_level() is %u on a line at %u after the device %s", r, lv, f ? "failed" : "succeeded"); cnt("gets");
			// waiting: the level comes at a time, or never, or the line fails all the while
			long long timeout = 1 + static_cast<long long>(rng.below(50000)), when = rng.chance(1, 4) ? -1 : static_cast<long long>(rng.below(static_cast<u64>(timeout) * 2)), start = vtime::now(); S.tick_ns = 1000 + static_cast<u32>(rng.below(20000)); bool dead = rng.chance(1, 8); if (dead) S.fail = [](const Ev& x) { return x.what == 'g'; }; S.level = [&](const dev::File&, const Ev&) { return (when >= 0 && vtime::now() - start >= when * 1000) ? lv : 1 - lv; }; r = l.expect_level(lv, us(timeout)); S.fail = nullptr; u32 tick = S.tick_ns; S.tick_ns = 0; S.level = nullptr; e = dev::take(); long long took = vtime::now() - start;
			if (dead || when < 0) VH_CHECK(r == abc::gpio_level::invalid, "expect-level", "a level that never came was seen"); else if (r == lv) VH_CHECK(took >= when * 1000, "expect-level", "a level was seen before it came"); else { VH_CHECK(r == abc::gpio_level::invalid, "expect-level", "expect_level() returned %u", r); VH_CHECK(when * 1000 >= timeout * 1000 - 2 * tick, "expect-level", "a level that came after %lld us of %lld us was missed", when, timeout); }
			if (r != lv) VH_CHECK(took >= timeout * 1000, "expect-level", "gave up after %lld ns of %lld us", took, timeout); VH_CHECK(took <= (timeout + 1) * 1000 + 4ll * tick, "expect-level", "waited %lld ns for %lld us", took, timeout); for (auto& x : e) VH_CHECK(x.what == 'g' && x.offset == p, "expect-level", "another line was read"); cnt("waits"); cnt(r == lv ? "seen" : "timeouts");
		};
		for (u64 n = 4 + rng.below(16); n--;) {
			unsigned op = static_cast<unsigned>(rng.below(10)); u32 p = static_cast<u32>(rng.next()); h = hcomb(h, op);
			if (op < 3) {
				char f = rng.chance(1, 6) ? (rng.chance(1, 2) ? 'o' : 'l') : 0; S.fail = [f](const Ev& e) { return e.what == f; }; dev::take(); bool threw = false; void* key = nullptr;
				try { if (op == 0) { outs.emplace_back(new abc::gpio_output_line<Log>(&c, p, log.get())); key = outs.back().get(); } else if (op == 1) { ins.emplace_back(new abc::gpio_input_line<Log>(&c, p, log.get())); key = ins.back().get(); } else { gen.emplace_back(new abc::gpio_line<Log>(&c, p, abc::gpio_line_flag::output | abc::gpio_line_flag::open_drain, log.get())); key = gen.back().get(); } } catch (const std::exception&) { threw = true; }
				S.fail = nullptr; VH_CHECK(threw == (f != 0), "line-request", "requesting a line %s after the device %s", threw ? "failed" : "succeeded", f ? "failed" : "granted it"); if (threw) { VH_CHECK(dev::open_count() == live, "left-open", "a refused line left a descriptor open"); cnt("refused_lines"); } else { at[key] = p; requested(p, op == 0 ? DEV_OUT : op == 1 ? DEV_IN : (DEV_OUT | DEV_OD)); }
			}
			else if (op < 5 && !outs.empty()) { auto& l = *outs[rng.below(outs.size())]; put(l, at[&l]); }
			else if (op < 7 && !ins.empty()) { auto& l = *ins[rng.below(ins.size())]; get(l, at[&l]); }
			else if (op == 7 && !gen.empty()) { auto& l = *gen[rng.below(gen.size())]; if (rng.chance(1, 2)) put(l, at[&l]); else get(l, at[&l]); }
			else if (op == 8) { if (!outs.empty()) { std::size_t i = rng.below(outs.size()); u32 q = at[outs[i].get()]; std::unique_ptr<abc::gpio_output_line<Log>> m(new abc::gpio_output_line<Log>(std::move(*outs[i]))); outs[i] = std::move(m); at[outs[i].get()] = q; put(*outs[i], q); cnt("moves"); } if (!ins.empty()) { std::size_t i = rng.below(ins.size()); u32 q = at[ins[i].get()]; std::unique_ptr<abc::gpio_input_line<Log>> m(new abc::gpio_input_line<Log>(std::move(*ins[i]))); ins[i] = std::move(m); at[ins[i].get()] = q; get(*ins[i], q); cnt("moves"); } }
			else if (op == 9) { bool done = false; if (!outs.empty() && rng.chance(1, 2)) { outs.erase(outs.begin() + static_cast<long>(rng.below(outs.size()))); done = true; } else if (!ins.empty()) { ins.erase(ins.begin() + static_cast<long>(rng.below(ins.size()))); done = true; } if (done) { live--; cnt("destroyed"); } }
			VH_CHECK(dev::open_count() == live, "left-open", "%zu descriptors are open for %llu lines", dev::open_count(), static_cast<unsigned long long>(live)); dev::check_bad("lines");
		}
		VH_CHECK(refuses([&] { abc::gpio_output_line<Log> l(nullptr, 1, log.get()); }), "accepted", "a line without a chip was accepted"); outs.clear(); ins.clear(); gen.clear(); dev::check_clean("lines");
	}
	template <typename Scale, typename Log> void g02_sonic(Rng& rng, u64& h) {
		auto& S = dev::st(); LogOf<Log> log; abc::gpio_chip<Log> c("/dev/gpiochip0", "x", log.get()); u32 tp = static_cast<u32>(rng.below(100)), ep = 100 + static_cast<u32>(rng.below(100)); abc::gpio_ultrasonic<Scale, Log> u0(&c, tp, ep, log.get()); abc::gpio_ultrasonic<Scale, Log> u(std::move(u0)); dev::check_bad("ultrasonic");
		double per_m = static_cast<double>(Scale::den) / Scale::num; std::size_t unit_max = static_cast<std::size_t>(4 * per_m);
		for (u64 n = 1 + rng.below(5); n--;) {
			std::size_t max = 1 + rng.below(unit_max); double timeout = 2.0 * static_cast<double>(max) / per_m / 343 * 1e9; S.tick_ns = 500 + static_cast<u32>(rng.below(3000)); // the echo: a delay, then high for the flight
			long long gap = static_cast<long long>(timeout * (rng.chance(1, 6) ? 1.5 : 0.1) * static_cast<double>(rng.below(1000)) / 1000), width = static_cast<long long>(timeout * (rng.chance(1, 5) ? 2.0 : 0.8) * static_cast<double>(rng.below(1000)) / 1000), stale = rng.chance(1, 4) ? static_cast<long long>(timeout * 0.1 * static_cast<double>(rng.below(1000)) / 1000) : 0; bool silent = rng.chance(1, 8), stuck = rng.chance(1, 16); int fell = 0; bool high = false; long long t0 = 0; dev::take();
			S.fail = nullptr; S.level = [&](const dev::File&, const Ev&) -> u32 { long long t = vtime::now() - t0; if (stuck) return 1; if (t < stale) return 1; if (silent) return 0; return t >= stale + gap && t < stale + gap + width; };
			S.before = [&](const Ev& e) { if (e.what == 's') { if (dev::st().files[static_cast<std::size_t>(e.fd - dev::BASE)].offset != tp) fell = 100; else if (e.val) { high = true; } else { if (high) { fell++; t0 = vtime::now(); } high = false; } } };
			std::size_t d = u.measure_distance(max); S.level = nullptr; S.before = nullptr; auto ev = dev::take(); VH_CHECK(fell == 1, "trigger", "measuring did not send one pulse on the trigger line (%d)", fell); long long up = -1, down = -1, begin = -1, start_rise = -1, end = -1, first = 0, low_seen = -1; (void)begin;
			for (std::size_t i = 0; i < ev.size(); i++) { auto& e = ev[i]; if (e.what == 's' && e.val == 1) up = e.t; if (e.what == 's' && e.val == 0 && up >= 0 && down < 0) down = e.t; if (e.what != 'g') continue; VH_CHECK(e.offset == ep, "echo-line", "the echo was read from line %u", e.offset); if (!first) first = e.t; if (low_seen < 0) { if (!e.val) low_seen = e.t; } else if (start_rise < 0) { if (e.val) start_rise = e.t; } else if (end < 0 && !e.val) end = e.t; }
			VH_CHECK(down - up >= 10000, "trigger", "the trigger pulse lasted %lld ns", down - up);
			double tick = S.tick_ns, unit_ns = 1e9 / 343 / per_m; cnt("measurements"); h = hcomb(h, static_cast<u64>(d) + max * 1000003);
			if (end >= 0 && static_cast<double>(end - first) <= timeout - 4 * tick) { double want = static_cast<double>(end - start_rise) / unit_ns / 2; VH_CHECK(std::abs(static_cast<double>(d) - want) <= 1.01 + (2 * tick + 1000) / unit_ns, "distance", "an echo of %lld ns is measured as %zu units of %.4f m instead of %.2f (max %zu)", end - start_rise, d, 1 / per_m, want, max); cnt("echoes"); }
			else if (end < 0) { VH_CHECK(d == max, "no-echo", "without an echo the distance is %zu instead of %zu", d, max); VH_CHECK(static_cast<double>(vtime::now() - first) >= timeout - 4000 - 4 * tick, "gave-up", "gave up after %lld ns of %.0f ns (max %zu)", vtime::now() - first, timeout, max); cnt("no_echo"); }
			VH_CHECK(static_cast<double>(vtime::now() - first) <= timeout + 8 * tick + 8000, "waited", "waited %lld ns for %.0f ns", vtime::now() - first, timeout);
		}
		S.tick_ns = 0;
	}
	// the pulses of the emulator: its thread lives in virtual time, so the recorded times are exact
	template <typename Log> void g02_emulator(Rng& rng, u64& h) {
		auto& S = dev::st(); LogOf<Log> log; abc::gpio_chip<Log> c("/dev/gpiochip0", "x", log.get()); u32 p = static_cast<u32>(rng.below(100)); dev::take(); vtime::delay_us() = 1 + static_cast<unsigned>(rng.below(60));
		if (rng.chance(1, 3)) { VH_CHECK(refuses([&] { abc::gpio_pwm_emulator<Log> e(&c, p, us(500), us(400), 50, log.get()); }) && refuses([&] { abc::gpio_pwm_emulator<Log> e(&c, p, us(500), us(20001), 50, log.get()); }) && refuses([&] { abc::gpio_pwm_emulator<Log> e(nullptr, p, us(500), us(600), 50, log.get()); }), "accepted", "impossible pulse widths, or no chip, were accepted"); dev::check_clean("refused emulators"); cnt("refused"); dev::take(); }
		{
			u16 freq = static_cast<u16>(1 + rng.below(rng.chance(1, 2) ? 400 : 5000)); long long per = 1000000 / freq; bool widths = rng.chance(1, 2); long long lo = widths ? static_cast<long long>(rng.below(static_cast<u64>(per))) : 0, hi = widths ? lo + static_cast<long long>(rng.below(static_cast<u64>(per - lo) + 1)) : per; std::unique_ptr<abc::gpio_pwm_emulator<Log>> e(widths ? new abc::gpio_pwm_emulator<Log>(&c, p, us(lo), us(hi), freq, log.get()) : new abc::gpio_pwm_emulator<Log>(&c, p, freq, log.get()));
			auto puts = [&] { std::lock_guard<std::mutex> g(S.m); std::vector<Ev> v; for (auto& x : S.log) if (x.what == 's') v.push_back(x); return v; };
			for (u64 n = rng.chance(1, 8) ? 0 : 1 + rng.below(4); n--;) {
				int duty = rng.chance(1, 4) ? (rng.chance(1, 2) ? 0 : 100 + static_cast<int>(rng.below(50))) : 1 + static_cast<int>(rng.below(99)); int d = std::min(duty, 100); h = hcomb(h, static_cast<u64>(duty) * 65536 + freq); long long before = vtime::real(); bool timed = rng.chance(1, 6); long long m0 = vtime::now(); auto dur = us(rng.below(50000));
				if (timed) { e->set_duty_cycle(static_cast<u16>(duty), dur); VH_CHECK(vtime::now() - m0 >= dur.count() * 1000, "timed-duty", "a duty cycle was kept for %lld ns instead of %lld us", vtime::now() - m0, static_cast<long long>(dur.count())); d = 0; cnt("timed"); } else e->set_duty_cycle(static_cast<u16>(duty));
				// wait for enough pulses of the new duty cycle
				long long wh = (lo * 1000 + (hi - lo) * 1000 * d / 100), want_cycles = 4; std::size_t seen = 0; bool ok = false; std::string last;
				for (;;) {
					auto v = puts(); last.clear();
					if (d == 0 || d == 100) { if (!v.empty() && v.back().val == (d ? 1u : 0u) && v.back().rt > before) { std::size_t k = 0; while (k < v.size() && v[v.size() - 1 - k].val == v.back().val && v[v.size() - 1 - k].rt > before) k++; if (k >= 2) { ok = true; break; } } }
					else { long long good = 0; for (std::size_t i = v.size(); i-- > 2;) { if (v[i - 2].rt <= before) break; if (!(v[i].val == 1 && v[i - 1].val == 0 && v[i - 2].val == 1)) continue; long long hg = v[i - 1].t - v[i - 2].t, cy = v[i].t - v[i - 2].t; if (std::llabs(hg - wh) <= 10000 + (hi - lo) * 10 / 1 * 0 + 1000 && std::llabs(cy - per * 1000) <= 1000) good++; else last = fmt("high for %lld ns in a cycle of %lld ns", hg, cy); } if (good >= want_cycles) { ok = true; break; } }
					seen = v.size(); if (vtime::real() - before > 8000 * MS) break; vtime::real_sleep(200000);
				}
				VH_CHECK(ok, "pulses", "duty cycle %d between %lld and %lld us at %d Hz (high for %lld ns of %lld us) never appeared on the line: %zu level changes, %s", d, lo, hi, freq, wh, per, seen, last.c_str()); cnt(d == 0 || d == 100 ? "constant_levels" : "pulse_trains"); { std::lock_guard<std::mutex> g(S.m); if (S.log.size() > 100000) S.log.clear(); }
			}
			if (rng.chance(1, 2)) vtime::real_sleep(static_cast<long long>(rng.below(300000))); e.reset(); auto v = puts(); VH_CHECK(v.empty() || v.back().val == 0, "left-high", "a destroyed emulator left its line high"); for (auto& x : v) VH_CHECK(x.offset == p, "other-line", "a pulse was put on line %u", x.offset); cnt("emulators");
		}
	}
	template <typename Log> void g02(u64 idx, Rng& rng) {
		dev::reset(); Done done; vtime::on() = true; u64 h = 0; unsigned m = static_cast<unsigned>(idx % 8);
		if (m < 4) g02_chip<Log>(rng, h); else if (m < 6) { switch (rng.below(3)) { case 0: g02_sonic<std::centi, Log>(rng, h); break; case 1: g02_sonic<std::milli, Log>(rng, h); break; default: g02_sonic<std::micro, Log>(rng, h); } } else g02_emulator<Log>(rng, h);
		dev::check_clean("devices"); eval(); nontrivial(h);
	}
}
static RegIt r_g02("G02", [](u64 i, Rng& r) { if (r.chance(1, 3)) g02<FullLog>(i, r); else g02<NoLog>(i, r); });
#endif // G02

#ifdef G03
namespace {
	constexpr u8 channel_reg[7] = { 0x3b, 0x3d, 0x3f, 0x43, 0x45, 0x47, 0x41 };
	inline int channel_of(u8 reg) { for (int i = 0; i < 7; i++) if (channel_reg[i] == reg) return i; return -1; }
	using Meas = abc::gpio_smbus_motion_measurements; using Vals = abc::gpio_smbus_motion_values; using Word = std::int16_t;
	inline Word meas(const Meas& m, int i) { const Word a[7] = { m.accel_x, m.accel_y, m.accel_z, m.gyro_x, m.gyro_y, m.gyro_z, m.temperature }; return a[i]; }
	inline double val(const Vals& m, int i) { const double a[7] = { m.accel_x, m.accel_y, m.accel_z, m.gyro_x, m.gyro_y, m.gyro_z, m.temperature }; return a[i]; }
	inline Word rand_word(Rng& rng) { switch (rng.below(6)) { case 0: { static const int e[] = { 0, 1, -1, 32767, -32768, 255, 256, -256, 128, 0x7f00 }; return static_cast<Word>(e[rng.below(10)]); } case 1: return static_cast<Word>(rng.range(-300, 300)); default: return static_cast<Word>(rng.next()); } }
	inline void set_word(i2c_smbus_data* d, Word w, bool swap) { u16 u = static_cast<u16>(w); d->word = swap ? swapped(u) : u; }
	inline double physical(int ch, int m, int cal) { return ch == 6 ? m / 340.0 + 36.53 : (ch < 3 ? 16.0 : 2000.0) * (m - cal) / 32767.0; }

	template <typename Log> void g03_sensor(Rng& rng, u64& h) {
		auto& S = dev::st(); LogOf<Log> log; S.funcs = ~0ul; abc::gpio_smbus<Log> bus("/dev/i2c-1", log.get()); dev::take(); bool custom = rng.chance(1, 2), sw = custom ? rng.chance(1, 2) : true; int addr = custom ? static_cast<int>(1 + rng.below(0x77)) : 0x68;
		VH_CHECK(refuses([&] { abc::gpio_smbus_motion<Log> x(nullptr, log.get()); }), "accepted", "a motion sensor without a bus was accepted");
		std::unique_ptr<abc::gpio_smbus_motion<Log>> mo(custom ? new abc::gpio_smbus_motion<Log>(&bus, abc::gpio_smbus_target<Log>(static_cast<u8>(addr), 1000000, sw, log.get()), log.get()) : new abc::gpio_smbus_motion<Log>(&bus, log.get()));
		{ auto v = transfers("a new motion sensor", addr); std::map<int, int> w; for (auto& e : v) { is_transfer("a new motion sensor", e, I2C_SMBUS_WRITE, I2C_SMBUS_BYTE_DATA, -1); w[e.cmd] = e.data[0]; } const std::map<int, int> want{ { 0x6b, 0 }, { 0x1a, 3 }, { 0x1b, 0x18 }, { 0x1c, 0x18 } }; VH_CHECK(w == want && v.size() == 4, "configuration", "a new motion sensor was configured with %zu writes, power 0x%x filter 0x%x gyro 0x%x accel 0x%x", v.size(), w[0x6b], w[0x1a], w[0x1b], w[0x1c]); cnt("sensors"); }
		Word bias[7]; int reads[7] = { 0 }; std::vector<Word> seq[7]; u64 noise = 0; unsigned failing = 0; bool outliers = false; u64 serial = rng.next(); for (auto& b : bias) b = rand_word(rng);
		S.fail = [&](const Ev& e) { int c = channel_of(e.cmd); return e.what == 'x' && c >= 0 && (failing >> c & 1); }; dev::NoFail nf;
		S.reply = [&](const Ev& e, i2c_smbus_data* d) { int c = channel_of(e.cmd); if (c < 0 || e.size != I2C_SMBUS_WORD_DATA) { note("register", "an unexpected register 0x%02x (size %u) was read", e.cmd, e.size); return; } int k = reads[c]++; int w = bias[c]; if (noise) w += static_cast<int>(mix(serial + static_cast<u64>(k) * 16 + static_cast<u64>(c)) % (2 * noise + 1)) - static_cast<int>(noise); if (outliers && k < 5) w = static_cast<Word>(mix(serial + static_cast<u64>(k))); w = std::max(-32768, std::min(32767, w)); seq[c].push_back(static_cast<Word>(w)); set_word(d, static_cast<Word>(w), sw); };
		Word cal[7] = { 0 };
		auto check_cal = [&](const char* what) { for (int c = 0; c < 7; c++) VH_CHECK(meas(mo->calibration(), c) == cal[c], "calibration", "%s: the calibration of channel %d is %d instead of %d", what, c, meas(mo->calibration(), c), cal[c]); };
		check_cal("before calibrating");
		for (u64 n = 2 + rng.below(8); n--;) {
			u16 mask = static_cast<u16>(rng.chance(1, 3) ? 0x7f : rng.chance(1, 6) ? 0 : rng.below(0x80)); h = hcomb(h, mask * 4ull); for (int c = 0; c < 7; c++) { reads[c] = 0; seq[c].clear(); }
			if (rng.chance(1, 4)) {
				noise = rng.chance(1, 2) ? rng.below(200) : 0; outliers = rng.chance(1, 2); failing = 0; mo->calibrate(mask); noise = 0; outliers = false; transfers("calibrate", addr);
				for (int c = 0; c < 6; c++) { bool in = mask >> c & 1; VH_CHECK(seq[c].empty() == !in, "calibration", "calibrating with mask 0x%02x read channel %d %zu times", mask, c, seq[c].size()); if (!in) { cal[c] = 0; continue; } VH_CHECK(seq[c].size() > 5, "calibration", "a calibration took only %zu readings", seq[c].size()); double sum = 0; for (std::size_t i = 5; i < seq[c].size(); i++) sum += seq[c][i]; double mean = sum / static_cast<double>(seq[c].size() - 5); Word got = meas(mo->calibration(), c); VH_CHECK(std::abs(got - mean) <= 1, "calibration", "channel %d read %.2f on average and was calibrated to %d", c, mean, got); cal[c] = got; }
				check_cal("after calibrating"); cnt("calibrations");
			}
			else if (rng.chance(1, 8)) { std::unique_ptr<abc::gpio_smbus_motion<Log>> x(new abc::gpio_smbus_motion<Log>(std::move(*mo))); mo = std::move(x); check_cal("after moving"); cnt("moves"); }
			else {
				for (auto& b : bias) b = rand_word(rng); failing = rng.chance(1, 4) ? static_cast<unsigned>(rng.below(0x80)) : 0; Meas m; memset(static_cast<void*>(&m), 0x5a, sizeof m); Vals v; bool raw = rng.chance(1, 2); if (raw) { mo->get_measurements(mask, m); mo->get_values_from_measurements(mask, m, mo->calibration(), v); } else mo->get_values(mask, v); auto tr = transfers("reading the motion", addr);
				std::map<int, int> seen; for (auto& e : tr) { is_transfer("reading the motion", e, I2C_SMBUS_READ, I2C_SMBUS_WORD_DATA, -1); seen[channel_of(e.cmd)]++; }
				for (int c = 0; c < 7; c++) { bool in = mask >> c & 1; if (!(failing >> c & 1)) VH_CHECK(seen[c] == (in ? 1 : 0), "channels", "with mask 0x%02x channel %d was read %d times", mask, c, seen[c]); int want = in && !(failing >> c & 1) ? bias[c] : 0; if (raw) VH_CHECK(meas(m, c) == want, "measurement", "channel %d measured %d instead of %d (mask 0x%02x, failing 0x%02x)", c, meas(m, c), want, mask, failing); double w = in ? physical(c, want, cal[c]) : 0; VH_CHECK(std::abs(val(v, c) - w) <= 1e-9 * (1 + std::abs(w)), "value", "channel %d is %.9f instead of %.9f (measured %d, calibrated %d)", c, val(v, c), w, want, cal[c]); cnt(in ? (failing >> c & 1 ? "failed_readings" : "readings") : "unread_channels"); }
			}
		}
		S.reply = nullptr;
	}

	// the tracker thread stops at the gate at the beginning of each step it is not allowed to make
	struct Gate { std::atomic<long> allowed{ 0 }, steps{ 0 }; std::atomic<bool> blocked{ false }; void step() { steps++; while (steps.load() > allowed.load()) { blocked = true; vtime::real_sleep(5000); } blocked = false; } };
	struct Opens { Gate& g; ~Opens() { g.allowed = 1l << 60; } };
	template <typename Scale, typename Log> void g03_tracker(Rng& rng, u64& h) {
		auto& S = dev::st(); LogOf<Log> log; S.funcs = ~0ul; vtime::delay_us() = static_cast<unsigned>(rng.below(60)); abc::gpio_smbus<Log> bus("/dev/i2c-1", log.get()); abc::gpio_smbus_motion<Log> mo(&bus, log.get()); dev::take(); VH_CHECK(refuses([&] { abc::gpio_smbus_motion_tracker<Scale, Log> x(nullptr, log.get()); }), "accepted", "a tracker without a sensor was accepted");
		Gate gate; Opens opens{ gate }; unsigned seen = 0; u64 salt = rng.next(); unsigned style = static_cast<unsigned>(rng.below(5)); int longest = 1 + static_cast<int>(rng.below(60)); bool failures = rng.chance(1, 5); std::thread::id main_thread = std::this_thread::get_id(); u64 k = 0;
		if (rng.chance(1, 2)) { Word b[2] = { static_cast<Word>(rng.range(-500, 500)), static_cast<Word>(rng.range(-500, 500)) }; S.reply = [&](const Ev& e, i2c_smbus_data* d) { set_word(d, e.cmd == 0x3b ? b[0] : e.cmd == 0x47 ? b[1] : static_cast<Word>(0), true); }; mo.calibrate(0x3f); S.reply = nullptr; }
		int ca = mo.calibration().accel_x, cg = mo.calibration().gyro_z; dev::take();
		S.before = [&](const Ev& e) { if (e.what != 'x' || std::this_thread::get_id() == main_thread) return; int c = channel_of(e.cmd); if (c < 0) return; if (!seen || (seen >> c & 1)) { seen = 0; gate.step(); vtime::advance(static_cast<long long>(mix(salt + k++) % (static_cast<u64>(longest) * 1000000))); } seen |= 1u << c; };
		S.reply = [&](const Ev& e, i2c_smbus_data* d) { int c = channel_of(e.cmd); u64 r = mix(salt ^ (k * 8 + static_cast<u64>(c))); int w = 0; switch (style) { case 0: w = static_cast<Word>(r); break; case 1: w = static_cast<int>(r % 801) - 400; break; case 2: w = c == 5 ? cg : static_cast<int>(r % 2001) - 1000; break; case 3: w = c == 0 ? ca + 100 : cg + 40; break; default: w = c == 5 ? (r % 3 ? cg : static_cast<int>(r % 2001) - 1000) : static_cast<int>(r % 2001) - 1000; } set_word(d, static_cast<Word>(w), true); };
		S.fail = [&](const Ev& e) { return failures && e.what == 'x' && mix(salt * 3 + k * 8 + static_cast<u64>(channel_of(e.cmd) + 1)) % 5 == 0; }; struct Clear { ~Clear() { auto& S2 = dev::st(); std::lock_guard<std::mutex> g(S2.m); S2.fail = nullptr; S2.before = nullptr; S2.reply = nullptr; } } clear;
		const double per = static_cast<double>(Scale::den) / Scale::num, g = 9.80665, pi = 3.14159265358979; double depth = 0, width = 0, dir = 0, speed = 0, slack_d = 0, travelled = 0, turned = 0; bool have = false; double pa = 0, pg = 0; long long pt = 0; u64 steps = 0;
		{
			abc::gpio_smbus_motion_tracker<Scale, Log> tr(&mo, log.get()); Opens opens2{ gate }; // opened before the tracker is destroyed
			if (rng.chance(1, 6)) vtime::real_sleep(static_cast<long long>(rng.below(300000)));
			if (rng.chance(1, 10)) { cnt("never_started"); h = hcomb(h, 1); return; }
			VH_CHECK(!tr.is_running(), "running", "a new tracker is running");
			VH_CHECK(tr.depth() == 0 && tr.width() == 0 && tr.direction() == 0 && tr.speed() == 0, "initial", "a new tracker is not at the origin");
			auto wait = [&](const char* what, const std::function<bool()>& f) { long long t = vtime::real(); while (!f()) { VH_CHECK(vtime::real() - t < 10000 * MS, "stuck", "%s: nothing happened for ten seconds", what); vtime::real_sleep(20000); } };
			auto integrate = [&](bool stopped) { // what the recorded readings mean
				struct Sample { bool got[2] = { false, false }, failed[2] = { false, false }; int w[2] = { 0, 0 }; long long t = 0; }; std::vector<Sample> sm; unsigned in = 0;
				for (auto& e : dev::take()) { if (e.what != 'x') continue; int c = channel_of(e.cmd); VH_CHECK(c >= 0, "register", "the tracker accessed register 0x%02x", e.cmd); if (!in || (in >> c & 1)) { sm.emplace_back(); in = 0; } in |= 1u << c; Sample& x = sm.back(); int i = c == 0 ? 0 : c == 5 ? 1 : -1; x.t = e.t; if (i >= 0) { x.got[i] = true; x.failed[i] = !e.ok; x.w[i] = e.ok ? static_cast<Word>(swapped(word_of(e))) : 0; } }
				for (auto& x : sm) {
					VH_CHECK(x.got[0] && x.got[1], "readings", "the tracker did not read both the acceleration and the rotation"); double a = physical(0, x.w[0], ca) * g * per, r = physical(5, x.w[1], cg); steps++;
					if (have) {
						double dt = static_cast<double>((x.t - pt) / 1000) / 1e6, d = speed * dt + (2 * pa + a) * dt * dt / 6, turn = (pg + r) / 2 * dt, rad = turn * pi / 180, chord = std::abs(rad) < 1e-7 ? d : d * std::sin(rad / 2) / (rad / 2), way = dir * pi / 180 + rad / 2; if (std::abs(turn) < 0.0000011) turn = 0;
						depth += chord * std::cos(way); width += chord * std::sin(way); dir += turn; speed += (pa + a) / 2 * dt; travelled += std::abs(d); turned += std::abs(turn); slack_d += std::abs(d) * 1e-7 + 1e-9; cnt("steps"); cnt(turn == 0 ? "straight" : "arcs");
					}
					have = true; pa = a; pg = r; pt = x.t; if (x.failed[0] || x.failed[1]) cnt("failed_steps");
				}
				if (stopped) speed = 0;
				auto near = [&](double got, double want, double tol) { return std::abs(got - want) <= tol; }; double td = slack_d + travelled * (1e-7 + turned * 1e-8) + 1e-6, ta = 1e-5 + turned * 1e-8 + static_cast<double>(steps) * 1.2e-6, ts = (std::abs(speed) + 1) * 1e-7 * (1 + static_cast<double>(steps));
				VH_CHECK(near(tr.depth(), depth, td) && near(tr.width(), width, td), "position", "after %llu steps (%.3f travelled, %.3f degrees turned) the position is %.6f, %.6f instead of %.6f, %.6f", static_cast<unsigned long long>(steps), travelled, turned, tr.depth(), tr.width(), depth, width);
				VH_CHECK(near(tr.direction(), dir, ta), "direction", "after %llu steps the direction is %.6f instead of %.6f", static_cast<unsigned long long>(steps), tr.direction(), dir); VH_CHECK(near(tr.speed(), speed, ts), "speed", "after %llu steps the speed is %.6f instead of %.6f", static_cast<unsigned long long>(steps), tr.speed(), speed); cnt("positions_compared");
			};
			bool bare = rng.chance(1, 12); // restarted at once, without waiting for what it was doing
			if (bare) { gate.allowed = 1l << 50; for (u64 n = 1 + rng.below(6); n--;) { tr.start(); VH_CHECK(tr.is_running(), "running", "a started tracker is not running"); if (rng.chance(1, 2)) vtime::real_sleep(static_cast<long long>(rng.below(200000))); long s0 = gate.steps; wait("a started tracker", [&] { return gate.steps > s0; }); if (rng.chance(1, 3)) { tr.set_depth(1); tr.set_width(2); tr.set_direction(3); tr.set_speed(4); } tr.stop(); VH_CHECK(!tr.is_running(), "running", "a stopped tracker is running"); if (rng.chance(1, 2)) vtime::real_sleep(static_cast<long long>(rng.below(400000))); } cnt("quick_restarts"); h = hcomb(h, 2); return; }
			for (u64 ph = 1 + rng.below(3); ph--;) {
				have = false; h = hcomb(h, style * 64ull + static_cast<u64>(longest)); long base = gate.steps; gate.allowed = base; tr.start(); VH_CHECK(tr.is_running(), "running", "a started tracker is not running");
				for (u64 seg = 1 + rng.below(3); seg--;) {
					long n = 2 + static_cast<long>(rng.below(30)); gate.allowed = base + n; base += n; wait("a started tracker", [&] { return gate.blocked && gate.steps == base + 1; }); integrate(false);
					if (rng.chance(1, 3)) { if (rng.chance(1, 2)) { depth = static_cast<double>(rng.range(-1000, 1000)) / 8; tr.set_depth(depth); VH_CHECK(tr.depth() == depth, "set", "set_depth()"); } if (rng.chance(1, 2)) { width = static_cast<double>(rng.range(-1000, 1000)) / 8; tr.set_width(width); VH_CHECK(tr.width() == width, "set", "set_width()"); } if (rng.chance(1, 2)) { dir = static_cast<double>(rng.range(-3600, 3600)) / 8; tr.set_direction(dir); VH_CHECK(tr.direction() == dir, "set", "set_direction()"); } if (rng.chance(1, 2)) { speed = static_cast<double>(rng.range(-1000, 1000)) / 8; tr.set_speed(speed); VH_CHECK(tr.speed() == speed, "set", "set_speed()"); } cnt("set_values"); }
				}
				if (rng.chance(1, 4)) { cnt("destroyed_running"); break; }
				// one more step is being made; then it stops and its speed is forgotten
				speed = 100; tr.set_speed(100); tr.stop(); VH_CHECK(!tr.is_running(), "running", "a stopped tracker is running"); gate.allowed = base + 1; wait("a stopped tracker", [&] { return tr.speed() == 0; });
				vtime::real_sleep(300000); VH_CHECK(!gate.blocked && gate.steps == base + 1, "stopped", "a stopped tracker went on reading"); integrate(true);
				cnt("stops"); base = gate.steps;
			}
		}
		cnt("trackers");
	}
	template <typename Log> void g03(u64 idx, Rng& rng) {
		dev::reset(); Done done; vtime::on() = true; u64 h = idx % 3;
		if (idx % 3 == 0) g03_sensor<Log>(rng, h); else switch (rng.below(3)) { case 0: g03_tracker<std::centi, Log>(rng, h); break; case 1: g03_tracker<std::milli, Log>(rng, h); break; default: g03_tracker<std::ratio<1>, Log>(rng, h); }
		dev::check_clean("devices"); eval(); nontrivial(hcomb(h, rng.next()));
	}
}
static RegIt r_g03("G03", [](u64 i, Rng& r) { if (r.chance(1, 3)) g03<FullLog>(i, r); else g03<NoLog>(i, r); });
#endif // G03
