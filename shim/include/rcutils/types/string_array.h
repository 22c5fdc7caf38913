#ifndef SHIM_RCUTILS_STRING_ARRAY_H_
#define SHIM_RCUTILS_STRING_ARRAY_H_
#include <string.h>
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/macros.h"
#include "rcutils/types/rcutils_ret.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct rcutils_string_array_s
{
  size_t size;
  char ** data;
  rcutils_allocator_t allocator;
} rcutils_string_array_t;
rcutils_string_array_t rcutils_get_zero_initialized_string_array(void);
rcutils_ret_t rcutils_string_array_init(
  rcutils_string_array_t * string_array, size_t size, const rcutils_allocator_t * allocator);
rcutils_ret_t rcutils_string_array_fini(rcutils_string_array_t * string_array);
static inline rcutils_ret_t rcutils_string_array_cmp(
  const rcutils_string_array_t * lhs, const rcutils_string_array_t * rhs, int * res)
{
  size_t n, i;
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(lhs, "lhs string array is null", return RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(rhs, "rhs string array is null", return RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(res, "res argument is null", return RCUTILS_RET_INVALID_ARGUMENT);
  n = lhs->size < rhs->size ? lhs->size : rhs->size;
  for (i = 0; i < n; ++i) {
    if (!lhs->data[i] || !rhs->data[i]) {return RCUTILS_RET_ERROR;}
    *res = strcmp(lhs->data[i], rhs->data[i]);
    if (*res) {return RCUTILS_RET_OK;}
  }
  *res = lhs->size == rhs->size ? 0 : lhs->size < rhs->size ? -1 : 1;
  return RCUTILS_RET_OK;
}
#ifdef __cplusplus
}
#endif
#endif
