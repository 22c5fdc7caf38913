#ifndef SHIM_RMW_CONVERT_RET_H_
#define SHIM_RMW_CONVERT_RET_H_
#include "rcutils/types.h"
#include "rmw/types.h"
#ifdef __cplusplus
extern "C" {
#endif
rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t rcutils_ret);
#ifdef __cplusplus
}
#endif
#endif
