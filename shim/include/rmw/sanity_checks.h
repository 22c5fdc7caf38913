#ifndef SHIM_RMW_SANITY_CHECKS_H_
#define SHIM_RMW_SANITY_CHECKS_H_
#include "rcutils/types.h"
#include "rmw/types.h"
#ifdef __cplusplus
extern "C" {
#endif
rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * array);
#ifdef __cplusplus
}
#endif
#endif
