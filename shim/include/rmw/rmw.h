#ifndef SHIM_RMW_RMW_H_
#define SHIM_RMW_RMW_H_
#include "rmw/macros.h"
#include "rmw/qos_profiles.h"
#include "rmw/ret_types.h"
#include "rmw/types.h"
#include "rmw/visibility_control.h"
#endif
