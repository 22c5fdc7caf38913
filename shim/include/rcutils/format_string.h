#ifndef SHIM_RCUTILS_FORMAT_STRING_H_
#define SHIM_RCUTILS_FORMAT_STRING_H_
#include "rcutils/allocator.h"
#ifdef __cplusplus
extern "C" {
#endif
char * rcutils_format_string_limit(
  rcutils_allocator_t allocator, size_t limit, const char * format_string, ...);
#define rcutils_format_string(allocator, format_string, ...) \
  rcutils_format_string_limit(allocator, 2048, format_string, __VA_ARGS__)
#ifdef __cplusplus
}
#endif
#endif
