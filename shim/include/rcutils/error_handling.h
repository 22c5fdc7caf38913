#ifndef SHIM_RCUTILS_ERROR_HANDLING_H_
#define SHIM_RCUTILS_ERROR_HANDLING_H_
#include <assert.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "rcutils/allocator.h"
#include "rcutils/macros.h"
#include "rcutils/snprintf.h"
#include "rcutils/types/rcutils_ret.h"
#ifdef __cplusplus
extern "C" {
#endif
#define RCUTILS_ERROR_MESSAGE_MAX_LENGTH 1024
typedef struct rcutils_error_string_s { char str[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; } rcutils_error_string_t;
void rcutils_set_error_state(const char * error_string, const char * file, size_t line_number);
bool rcutils_error_is_set(void);
rcutils_error_string_t rcutils_get_error_string(void);
void rcutils_reset_error(void);
#define RCUTILS_SET_ERROR_MSG(msg) do {rcutils_set_error_state(msg, __FILE__, __LINE__);} while (0)
#define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, ...) \
  do { \
    char shim_msg__[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
    snprintf(shim_msg__, sizeof(shim_msg__), format_string, __VA_ARGS__); \
    RCUTILS_SET_ERROR_MSG(shim_msg__); \
  } while (0)
#define RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
  do { \
    if (NULL == value) { \
      RCUTILS_SET_ERROR_MSG(msg); \
      error_statement; \
    } \
  } while (0)
#define RCUTILS_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type) \
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(argument, #argument " argument is null", return error_return_type)
#ifdef __cplusplus
}
#endif
#endif
