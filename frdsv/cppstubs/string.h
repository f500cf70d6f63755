#include <frdsv_std.h>
