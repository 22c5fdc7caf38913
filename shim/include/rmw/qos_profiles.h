#ifndef SHIM_RMW_QOS_PROFILES_H_
#define SHIM_RMW_QOS_PROFILES_H_
#include "rmw/types.h"
#define RMW_QOS_POLICY_DEPTH_SYSTEM_DEFAULT 0
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wunused-variable"
static const rmw_qos_profile_t rmw_qos_profile_sensor_data = {
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 5, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT,
  RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
static const rmw_qos_profile_t rmw_qos_profile_parameters = {
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 1000, RMW_QOS_POLICY_RELIABILITY_RELIABLE,
  RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
static const rmw_qos_profile_t rmw_qos_profile_default = {
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 10, RMW_QOS_POLICY_RELIABILITY_RELIABLE,
  RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
static const rmw_qos_profile_t rmw_qos_profile_services_default = {
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 10, RMW_QOS_POLICY_RELIABILITY_RELIABLE,
  RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
static const rmw_qos_profile_t rmw_qos_profile_parameter_events = {
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 1000, RMW_QOS_POLICY_RELIABILITY_RELIABLE,
  RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
static const rmw_qos_profile_t rmw_qos_profile_system_default = {
  RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT, 0, RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
static const rmw_qos_profile_t rmw_qos_profile_best_available = {
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 10, RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE,
  RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE, RMW_QOS_DEADLINE_BEST_AVAILABLE,
  RMW_QOS_LIFESPAN_DEFAULT, RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE,
  RMW_QOS_LIVELINESS_LEASE_DURATION_BEST_AVAILABLE, false};
static const rmw_qos_profile_t rmw_qos_profile_unknown = {
  RMW_QOS_POLICY_HISTORY_UNKNOWN, 0, RMW_QOS_POLICY_RELIABILITY_UNKNOWN,
  RMW_QOS_POLICY_DURABILITY_UNKNOWN, RMW_QOS_DEADLINE_DEFAULT, RMW_QOS_LIFESPAN_DEFAULT,
  RMW_QOS_POLICY_LIVELINESS_UNKNOWN, RMW_QOS_LIVELINESS_LEASE_DURATION_DEFAULT, false};
#pragma GCC diagnostic pop
#endif
