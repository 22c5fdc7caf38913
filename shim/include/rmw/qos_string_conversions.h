#ifndef SHIM_RMW_QOS_STRING_CONVERSIONS_H_
#define SHIM_RMW_QOS_STRING_CONVERSIONS_H_
#include "rmw/types.h"
#ifdef __cplusplus
extern "C" {
#endif
const char * rmw_qos_durability_policy_to_str(enum rmw_qos_durability_policy_e value);
const char * rmw_qos_history_policy_to_str(enum rmw_qos_history_policy_e value);
const char * rmw_qos_liveliness_policy_to_str(enum rmw_qos_liveliness_policy_e value);
const char * rmw_qos_reliability_policy_to_str(enum rmw_qos_reliability_policy_e value);
#ifdef __cplusplus
}
#endif
#endif
