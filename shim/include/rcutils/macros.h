#ifndef SHIM_RCUTILS_MACROS_H_
#define SHIM_RCUTILS_MACROS_H_
#define RCUTILS_UNUSED(x) (void)(x)
#define RCUTILS_WARN_UNUSED __attribute__((warn_unused_result))
#define RCUTILS_DEPRECATED_WITH_MSG(msg) __attribute__((deprecated(msg)))
#define RCUTILS_LIKELY(x) __builtin_expect((x), 1)
#define RCUTILS_UNLIKELY(x) __builtin_expect((x), 0)
#define RCUTILS_STRINGIFY_IMPL(x) #x
#define RCUTILS_STRINGIFY(x) RCUTILS_STRINGIFY_IMPL(x)
#define RCUTILS_CAN_RETURN_WITH_ERROR_OF(x)
#define RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(x)
#define RCUTILS_CAN_FAIL_WITH(x)
#endif
