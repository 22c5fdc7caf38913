#ifndef SHIM_RMW_MACROS_H_
#define SHIM_RMW_MACROS_H_
#include "rcutils/macros.h"
#define RMW_WARN_UNUSED RCUTILS_WARN_UNUSED
#define RMW_STRINGIFY(x) RCUTILS_STRINGIFY(x)
#endif
