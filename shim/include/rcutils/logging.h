#ifndef SHIM_RCUTILS_LOGGING_H_
#define SHIM_RCUTILS_LOGGING_H_
#include <assert.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#ifdef __cplusplus
extern "C" {
#endif
void shim_log(int severity, const char * name, const char * format, ...)
__attribute__((format(printf, 3, 4)));
#ifdef __cplusplus
}
#endif
#endif
