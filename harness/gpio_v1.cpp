// The devices through the older kernel interface, which the library uses when the newer one is not declared.
#include <linux/gpio.h>
#undef GPIO_V2_GET_LINE_IOCTL
#define VH_GPIO_V1
#include "gpio.cpp"
