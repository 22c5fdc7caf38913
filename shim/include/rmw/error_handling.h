#ifndef SHIM_RMW_ERROR_HANDLING_H_
#define SHIM_RMW_ERROR_HANDLING_H_
#include "rcutils/error_handling.h"
typedef rcutils_error_string_t rmw_error_string_t;
#define rmw_get_error_string rcutils_get_error_string
#define rmw_reset_error rcutils_reset_error
#define rmw_error_is_set rcutils_error_is_set
#define RMW_SET_ERROR_MSG(msg) RCUTILS_SET_ERROR_MSG(msg)
#define RMW_SET_ERROR_MSG_WITH_FORMAT_STRING(fmt, ...) \
  RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(fmt, __VA_ARGS__)
#define RMW_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type) \
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(argument, error_return_type)
#define RMW_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement)
#endif
