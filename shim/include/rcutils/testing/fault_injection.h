#ifndef SHIM_FAULT_INJECTION_H_
#define SHIM_FAULT_INJECTION_H_
/* Only what /repo's own tests need when they are compiled against this shim
 * (tools/selftest.py); the shim itself injects faults through allocators. */
#include <stdint.h>
#define RCUTILS_FAULT_INJECTION_NEVER_FAIL -1
#define rcutils_fault_injection_get_count() ((int64_t)-1)
#define rcutils_fault_injection_set_count(x) ((void)(x))
#define RCUTILS_FAULT_INJECTION_TEST(...) do { __VA_ARGS__ } while (0)
#endif
