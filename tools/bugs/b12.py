import runpy, os
here = os.path.dirname(os.path.abspath(__file__))
VM = runpy.run_path(here + '/b7.py')['PRE']
BUGS = [
dict(id='p03-fd-zero', prop='P03', file='src/x/vmem_pool.x.h',
 edits=[("if (_ready) {\n\t\t\tif (_fd < 0) {", "if (_ready) {\n\t\t\tif (_fd <= 0) {")],
 needs='a process whose standard input is closed, so that the pool file gets descriptor 0', breaks='closing the pool leaves its mappings and its file open',
 demo=VM + r'''
int main() { using Pool = vmem_pool<8, Log>; ::close(0); { Pool pool("p.vmem", nullptr); vmem_page<Pool, Log> p(&pool, nullptr); CHECK(p.ptr() != nullptr); } CHECK(::fcntl(0, F_GETFD) == -1); return 0; }
'''),
dict(id='p04-fd-zero', prop='P04', file='src/x/vmem_pool.x.h',
 edits=[("if (_fd < 0) {\n\t\t\tthrow", "if (_fd <= 0) {\n\t\t\tthrow")],
 needs='a process whose standard input is closed, so that the pool file gets descriptor 0', breaks='a valid pool is refused, and its file stays open',
 demo=VM + r'''
int main() { using Pool = vmem_pool<8, Log>; { Pool pool("p.vmem", nullptr); } ::close(0); bool ok = true; try { Pool pool("p.vmem", nullptr); } catch (const std::exception&) { ok = false; } CHECK(ok); CHECK(::fcntl(0, F_GETFD) == -1); return 0; }
'''),
]
GP = runpy.run_path(here + '/b6.py')['PRE']
BUGS += [
dict(id='g01-fd-zero', prop='G01', file='src/x/gpio_smbus.x.h',
 edits=[("if (_fd >=0) {", "if (_fd > 0) {")],
 needs='a process whose standard input is closed, so that the bus gets descriptor 0', breaks='the device stays open',
 demo=GP.replace('static std::function', '#include <fcntl.h>\n#include <unistd.h>\nstatic std::function', 1) + r'''
int main() { ::close(0); { gpio_smbus<Log> b("/dev/null", static_cast<Log*>(nullptr)); } CHECK(::fcntl(0, F_GETFD) == -1); return 0; }
'''),
dict(id='g02-fd-zero', prop='G02', file='src/x/gpio_line.x.h',
 edits=[("if (_fd >= 0) {", "if (_fd > 0) {")],
 needs='a process whose standard input is closed, so that the line gets descriptor 0', breaks='the line is never released',
 demo=GP.replace('static std::function', '#include <fcntl.h>\n#include <unistd.h>\nstatic std::function', 1) + r'''
int main() { gpio_chip<Log> c("/dev/null", "x", nullptr); ::close(0); dev = [](unsigned long req, void* a) { if (req == GPIO_V2_GET_LINE_IOCTL) static_cast<gpio_v2_line_request*>(a)->fd = 77; return 0; };
	dup2(1, 77); ::open("/dev/null", O_RDONLY); // descriptor 0 is taken while the chip is open, then handed to the line
	dev = [](unsigned long req, void* a) { if (req == GPIO_V2_GET_LINE_IOCTL) static_cast<gpio_v2_line_request*>(a)->fd = 0; return 0; };
	{ gpio_output_line<Log> l(&c, 1, nullptr); } CHECK(::fcntl(0, F_GETFD) == -1); return 0; }
'''),
]
