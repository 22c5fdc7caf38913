#ifndef SHIM_RCUTILS_VISIBILITY_CONTROL_H_
#define SHIM_RCUTILS_VISIBILITY_CONTROL_H_
#define RCUTILS_PUBLIC
#define RCUTILS_LOCAL
#define RCUTILS_PUBLIC_TYPE
#endif
