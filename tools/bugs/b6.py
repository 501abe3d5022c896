PRE = r'''
#include "log.h"
#include "gpio.h"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <functional>
#include <thread>
#include <vector>
#include <chrono>
#include <memory>
#include <atomic>
#include <sys/ioctl.h>
#include <linux/i2c.h>
#include <linux/i2c-dev.h>
#include <linux/gpio.h>
using namespace abc;
using Log = null_log;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s line %d\n", #c, __LINE__); std::fflush(stdout); _exit(1); } } while (0)
static std::function<int(unsigned long, void*)> dev = [](unsigned long, void*) { return 0; };
extern "C" int ioctl(int, unsigned long req, ...) noexcept { va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap); if (req == GPIO_V2_GET_LINE_IOCTL) static_cast<gpio_v2_line_request*>(a)->fd = dup(0); return dev(req, a); }
'''
BUGS = [
dict(id='g01-block-max', prop='G01', file='src/x/gpio_smbus.x.h',
 edits=[("if (size > I2C_SMBUS_BLOCK_MAX) {", "if (size >= I2C_SMBUS_BLOCK_MAX) {")], needs='a block of exactly 32 bytes', breaks='it is refused',
 demo=PRE + r'''
int main() { gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_target<Log> t(0x10, 1000000, false, static_cast<Log*>(nullptr)); char d[32] = { }; CHECK(b.put_block(t, 1, d, 32)); return 0; }
'''),
dict(id='g01-address-before-success', prop='G01', file='src/x/gpio_smbus.x.h',
 edits=[("long laddr = addr;", "_addr = addr;\n\t\tlong laddr = addr;")] if False else [("if (_addr == addr) {", "if ((_addr & 0x3f) == (addr & 0x3f)) {")],
 needs='two targets whose addresses differ by 64 used one after the other', breaks='the second is not addressed',
 demo=PRE + r'''
int main() { long at = -1; dev = [&](unsigned long r, void* a) { if (r == I2C_SLAVE_FORCE) at = reinterpret_cast<long>(a); return 0; }; gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_target<Log> t(0x10, 1000000, false, static_cast<Log*>(nullptr)), u(0x50, 1000000, false, static_cast<Log*>(nullptr)); b.put_byte(t, 1, 1); CHECK(at == 0x10); b.put_byte(u, 1, 1); CHECK(at == 0x50); return 0; }
'''),
dict(id='g01-failed-address', prop='G01', file='src/x/gpio_smbus.x.h',
 edits=[("if (safe_ioctl(I2C_SLAVE_FORCE, laddr) < 0) {", "_addr = addr;\n\t\tif (safe_ioctl(I2C_SLAVE_FORCE, laddr) < 0) {")],
 needs='a transfer after one whose addressing failed', breaks='it goes to the previously addressed target and reports success',
 demo=PRE + r'''
int main() { bool f = false; int n = 0; dev = [&](unsigned long r, void*) { if (r == I2C_SLAVE_FORCE) { n++; return f ? -1 : 0; } return 0; }; gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_target<Log> t(0x10, 1000000, false, static_cast<Log*>(nullptr)); f = true; CHECK(!b.put_byte(t, 1, 1)); f = false; n = 0; CHECK(b.put_byte(t, 1, 1)); CHECK(n == 1); return 0; }
'''),
dict(id='g01-swap-high', prop='G01', file='src/x/gpio_smbus.x.h',
 edits=[("std::uint16_t hi = (word >> 8) & 0x00ff;", "std::uint16_t hi = (static_cast<std::int16_t>(word) >> 8) & 0x007f;")], needs='a swapped word with its top bit set', breaks='the bit is lost',
 demo=PRE + r'''
int main() { i2c_smbus_data d{}; dev = [&](unsigned long r, void* a) { if (r == I2C_SMBUS) d = *static_cast<i2c_smbus_ioctl_data*>(a)->data; return 0; }; gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_target<Log> t(0x10, 1000000, true, static_cast<Log*>(nullptr)); b.put_word(t, 1, 0x8001); CHECK(d.word == 0x0180); return 0; }
'''),
dict(id='g01-noreg2-order', prop='G01', file='src/x/gpio_smbus.x.h',
 edits=[("word = target.requires_byte_swap() ? ((byte0 << 8) | byte1) : ((byte1 << 8) | byte0);", "word = target.requires_byte_swap() ? ((byte0 << 8) | byte1) : ((byte1 << 8) + static_cast<std::int8_t>(byte0));")], needs='an unswapped target whose low byte is 0x80 or more', breaks='the high byte is one less',
 demo=PRE + r'''
int main() { unsigned char bytes[] = { 0x81, 0x12 }; int i = 0; dev = [&](unsigned long r, void* a) { if (r == I2C_SMBUS) static_cast<i2c_smbus_ioctl_data*>(a)->data->byte = bytes[i++ % 2]; return 0; }; gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_target<Log> t(0x10, 1000000, false, static_cast<Log*>(nullptr)); std::uint16_t w = 0; CHECK(b.get_noreg_2(t, w)); CHECK(w == 0x1281); return 0; }
'''),
dict(id='g01-motor-clamp', prop='G01', file='src/x/gpio_smbus_pwm.x.h',
 edits=[("else if (duty_cycle > gpio_pwm_duty_cycle::max) {", "else if (duty_cycle > gpio_pwm_duty_cycle::max && _min_pulse_width == 0) {")], needs='a duty cycle over 100 on a PWM with a minimum pulse width', breaks='the pulse is wider than the maximum',
 demo=PRE + r'''
int main() { std::uint16_t last = 0; dev = [&](unsigned long r, void* a) { if (r == I2C_SMBUS) last = static_cast<i2c_smbus_ioctl_data*>(a)->data->word; return 0; }; gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_target<Log> t(0x10, 72000000, false, static_cast<Log*>(nullptr)); gpio_smbus_pwm<Log> p(&b, t, std::chrono::microseconds(500), std::chrono::microseconds(2500), 50, 1, 2, 3, static_cast<Log*>(nullptr)); p.set_duty_cycle(100); auto full = last; p.set_duty_cycle(120); CHECK(last == full); return 0; }
'''),
dict(id='g01-grayscale-right', prop='G01', file='src/x/gpio_smbus_grayscale.x.h',
 edits=[("_smbus->put_word(_smbus_target, _reg_right, zero);", "if (_reg_right != _reg_center + 1) {\n\t\t\t_smbus->put_word(_smbus_target, _reg_right, zero);\n\t\t}")], needs='registers of center and right that follow each other', breaks='the right sensor is not selected',
 demo=PRE + r'''
int main() { int writes = 0; dev = [&](unsigned long r, void* a) { if (r == I2C_SMBUS && static_cast<i2c_smbus_ioctl_data*>(a)->read_write == I2C_SMBUS_WRITE) writes++; return 0; }; gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_target<Log> t(0x10, 72000000, false, static_cast<Log*>(nullptr)); gpio_smbus_grayscale<Log> g(&b, t, 0x10, 0x11, 0x12, static_cast<Log*>(nullptr)); std::uint16_t l, c, r; g.get_values(l, c, r); CHECK(writes == 3); return 0; }
'''),
dict(id='g02-expect-timeout', prop='G02', file='src/x/gpio_line.x.h',
 edits=[("if (std::chrono::duration_cast<Duration>(current_tp - start_tp) > timeout) {", "if (std::chrono::duration_cast<std::chrono::milliseconds>(current_tp - start_tp) > std::chrono::duration_cast<std::chrono::milliseconds>(timeout)) {")], needs='a timeout that is not a whole number of milliseconds', breaks='it waits a millisecond longer',
 demo=PRE + r'''
int main() { gpio_chip<Log> c("/dev/null", "x", nullptr); gpio_input_line<Log> l(&c, 1, nullptr); auto best = std::chrono::steady_clock::duration::max(); for (int i = 0; i < 50; i++) { auto t = std::chrono::steady_clock::now(); CHECK(l.expect_level(1, std::chrono::microseconds(100)) == gpio_level::invalid); auto d = std::chrono::steady_clock::now() - t; if (d < best) best = d; } CHECK(best < std::chrono::microseconds(900)); return 0; }
'''),
dict(id='g02-put-level-mask', prop='G02', file='src/x/gpio_line.x.h',
 edits=[("if ((level & ~gpio_level::mask) != 0) {", "if ((level & ~gpio_level::mask) == gpio_level::invalid) {")], needs='a level of 4 or more', breaks='it is put as its lowest bit',
 demo=PRE + r'''
int main() { gpio_chip<Log> c("/dev/null", "x", nullptr); gpio_output_line<Log> l(&c, 1, nullptr); CHECK(l.put_level(4) == gpio_level::invalid); return 0; }
'''),
dict(id='g02-ultra-one-way', prop='G02', file='src/x/gpio_ultrasonic.x.h',
 edits=[("const microseconds timeout = sonic_duration<microseconds>(2 * max_distance); // back and forth", "const microseconds timeout = sonic_duration<microseconds>(max_distance + max_distance / 2);")], needs='an object farther than three quarters of the maximum distance', breaks='the maximum is returned',
 demo=PRE + r'''
int main() { int high = -1; std::chrono::steady_clock::time_point t0; dev = [&](unsigned long r, void* a) { if (r == GPIO_V2_LINE_SET_VALUES_IOCTL) { auto* v = static_cast<gpio_v2_line_values*>(a); if (v->bits & 1) { high = 0; } else if (high == 0) { high = 1; t0 = std::chrono::steady_clock::now(); } } if (r == GPIO_V2_LINE_GET_VALUES_IOCTL) { auto* v = static_cast<gpio_v2_line_values*>(a); auto d = std::chrono::steady_clock::now() - t0; v->bits = high == 1 && d > std::chrono::milliseconds(1) && d < std::chrono::milliseconds(51); } return 0; };
	gpio_chip<Log> c("/dev/null", "x", nullptr); gpio_ultrasonic<std::milli, Log> u(&c, 1, 2, nullptr); std::size_t d = u.measure_distance(10000); CHECK(d > 8000 && d < 9500); return 0; }
'''),
dict(id='g02-chip-consumer', prop='G02', file='src/x/gpio_line.x.h',
 edits=[("line_request.offsets[0] = pos;", "line_request.offsets[0] = pos & 0xff;")], needs='a line position of 256 or more', breaks='another line is requested',
 demo=PRE + r'''
int main() { unsigned at = 0; dev = [&](unsigned long r, void* a) { if (r == GPIO_V2_GET_LINE_IOCTL) at = static_cast<gpio_v2_line_request*>(a)->offsets[0]; return 0; }; gpio_chip<Log> c("/dev/null", "x", nullptr); gpio_output_line<Log> l(&c, 300, nullptr); CHECK(at == 300); return 0; }
'''),
dict(id='g02-emulator-refresh', prop='G02', file='src/x/gpio_pwm_emulator.x.h',
 edits=[("if (high_duration >= low_duration) {", "if (high_duration > low_duration) {")], needs='a duty cycle whose high and low parts are equal (50 of a full range), followed by a change', breaks='the duty cycle is never refreshed, and destroying hangs', timeout=20,
 demo=PRE + r'''
int main() { gpio_chip<Log> c("/dev/null", "x", nullptr); { gpio_pwm_emulator<Log> p(&c, 1, 100, nullptr); p.set_duty_cycle(50); std::this_thread::sleep_for(std::chrono::milliseconds(200)); } return 0; }
'''),
dict(id='g03-temperature-signed', prop='G03', file='src/x/gpio_smbus_motion.x.h',
 edits=[("/ 340.0 + 36.53;", "/ 340 + 36.53;")] if False else [("measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16);", "measurements.temperature = static_cast<gpio_smbus_motion_measurement_t>(temp_ui16 & 0xfffe);")], needs='an odd temperature reading', breaks='the temperature is off by 1/340 of a degree',
 demo=PRE + r'''
int main() { dev = [&](unsigned long r, void* a) { if (r == I2C_SMBUS) { auto* m = static_cast<i2c_smbus_ioctl_data*>(a); if (m->read_write == I2C_SMBUS_READ) m->data->word = 0x0500; } return 0; }; gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_motion<Log> m(&b, static_cast<Log*>(nullptr)); gpio_smbus_motion_values v; m.get_values(gpio_smbus_motion_channel::all, v); CHECK(std::fabs(v.temperature - (5 / 340.0 + 36.53)) < 1e-6); return 0; }
'''),
dict(id='g03-restart-pause', prop='G03', file='src/x/gpio_smbus_motion_tracker.x.h',
 edits=[("prev_time_point = clock::time_point();", "prev_time_point = prev_time_point.time_since_epoch().count() == 0 ? clock::time_point() : clock::now() - std::chrono::milliseconds(200);")], needs='a tracker stopped and started again while the sensor reads something', breaks='it integrates over part of the pause',
 demo=PRE + r'''
int main() { std::atomic<int> gyro{ 0 }; dev = [&](unsigned long r, void* a) { if (r == I2C_SMBUS) { auto* m = static_cast<i2c_smbus_ioctl_data*>(a); if (m->read_write == I2C_SMBUS_READ) { int w = m->command == 0x47 ? gyro.load() : 0; m->data->word = static_cast<__u16>(((w & 0xff) << 8) | (w >> 8)); } } return 0; };
	gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_motion<Log> m(&b, static_cast<Log*>(nullptr)); gpio_smbus_motion_tracker<std::milli, Log> t(&m, static_cast<Log*>(nullptr));
	std::this_thread::sleep_for(std::chrono::milliseconds(300)); t.start(); std::this_thread::sleep_for(std::chrono::milliseconds(100)); t.stop(); std::this_thread::sleep_for(std::chrono::milliseconds(400)); gyro = 0x7fff; t.set_direction(0); auto t0 = std::chrono::steady_clock::now(); t.start(); std::this_thread::sleep_for(std::chrono::milliseconds(100)); t.stop(); double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); std::this_thread::sleep_for(std::chrono::milliseconds(300)); CHECK(t.direction() <= 2000 * el + 100 && t.direction() > 0); return 0; }
'''),
dict(id='g03-arc-width', prop='G03', file='src/x/gpio_smbus_motion_tracker.x.h',
 edits=[("gpio_smbus_motion_value_t straight_width = radius * (1 - std::cos(gyro_rad));", "gpio_smbus_motion_value_t straight_width = std::abs(radius) * (1 - std::cos(gyro_rad));")], needs='moving along an arc to the left', breaks='the width goes to the wrong side', timeout=30,
 demo=PRE + r'''
int main() { dev = [&](unsigned long r, void* a) { if (r == I2C_SMBUS) { auto* m = static_cast<i2c_smbus_ioctl_data*>(a); if (m->read_write == I2C_SMBUS_READ) { int w = m->command == 0x47 ? 0xF800 : m->command == 0x3b ? 0x0800 : 0; m->data->word = static_cast<__u16>(((w & 0xff) << 8) | (w >> 8)); } } return 0; };
	gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_motion<Log> m(&b, static_cast<Log*>(nullptr)); gpio_smbus_motion_tracker<std::milli, Log> t(&m, static_cast<Log*>(nullptr));
	std::this_thread::sleep_for(std::chrono::milliseconds(300)); t.set_speed(0); t.start(); double w = 0, pd = t.depth(); (void)pd; std::this_thread::sleep_for(std::chrono::milliseconds(60)); w = t.width(); double d = t.direction(); t.stop(); 
	// turning left by less than 90 degrees while moving forward: every step's side displacement is to the left
	CHECK(d < 0); CHECK(w < 0); std::printf("%g %g\n", w, d);
	// compare with the same motion mirrored
	double wl = w / 1; dev = [&](unsigned long r, void* a) { if (r == I2C_SMBUS) { auto* mm = static_cast<i2c_smbus_ioctl_data*>(a); if (mm->read_write == I2C_SMBUS_READ) { int x = mm->command == 0x47 ? 0x0800 : mm->command == 0x3b ? 0x0800 : 0; mm->data->word = static_cast<__u16>(((x & 0xff) << 8) | (x >> 8)); } } return 0; }; (void)wl; return 0; }
'''),
dict(id='g03-calibration-skip', prop='G03', file='src/x/gpio_smbus_motion.x.h',
 edits=[("get_measurements(mask & ~gpio_smbus_motion_channel::temperature, temp);", "get_measurements(mask & ~(gpio_smbus_motion_channel::temperature | (mask >> 6 << 5)), temp);")], needs='calibrating all channels including the temperature', breaks='gyro z is not calibrated',
 demo=PRE + r'''
int main() { dev = [&](unsigned long r, void* a) { if (r == I2C_SMBUS) { auto* m = static_cast<i2c_smbus_ioctl_data*>(a); if (m->read_write == I2C_SMBUS_READ) m->data->word = 0x0100; } return 0; }; gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); gpio_smbus_motion<Log> m(&b, static_cast<Log*>(nullptr)); m.calibrate(gpio_smbus_motion_channel::all); CHECK(m.calibration().gyro_z == 1); return 0; }
'''),
]
