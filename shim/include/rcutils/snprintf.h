#ifndef SHIM_RCUTILS_SNPRINTF_H_
#define SHIM_RCUTILS_SNPRINTF_H_
#include <stdarg.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int rcutils_snprintf(char * buffer, size_t buffer_size, const char * format, ...)
__attribute__((format(printf, 3, 4)));
int rcutils_vsnprintf(char * buffer, size_t buffer_size, const char * format, va_list args);
#ifdef __cplusplus
}
#endif
#endif
