#ifndef SHIM_RMW_TOPIC_ENDPOINT_INFO_H_
#define SHIM_RMW_TOPIC_ENDPOINT_INFO_H_
#include "rcutils/allocator.h"
#include "rmw/types.h"
#include "rosidl_runtime_c/type_hash.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct rmw_topic_endpoint_info_s
{
  const char * node_name;
  const char * node_namespace;
  const char * topic_type;
  rosidl_type_hash_t topic_type_hash;
  rmw_endpoint_type_t endpoint_type;
  uint8_t endpoint_gid[RMW_GID_STORAGE_SIZE];
  rmw_qos_profile_t qos_profile;
} rmw_topic_endpoint_info_t;
rmw_topic_endpoint_info_t rmw_get_zero_initialized_topic_endpoint_info(void);
rmw_ret_t rmw_topic_endpoint_info_fini(
  rmw_topic_endpoint_info_t * info, rcutils_allocator_t * allocator);
rmw_ret_t rmw_topic_endpoint_info_set_topic_type(
  rmw_topic_endpoint_info_t * info, const char * topic_type, rcutils_allocator_t * allocator);
rmw_ret_t rmw_topic_endpoint_info_set_topic_type_hash(
  rmw_topic_endpoint_info_t * info, const rosidl_type_hash_t * type_hash);
rmw_ret_t rmw_topic_endpoint_info_set_node_name(
  rmw_topic_endpoint_info_t * info, const char * node_name, rcutils_allocator_t * allocator);
rmw_ret_t rmw_topic_endpoint_info_set_node_namespace(
  rmw_topic_endpoint_info_t * info, const char * node_namespace, rcutils_allocator_t * allocator);
rmw_ret_t rmw_topic_endpoint_info_set_endpoint_type(
  rmw_topic_endpoint_info_t * info, rmw_endpoint_type_t type);
rmw_ret_t rmw_topic_endpoint_info_set_gid(
  rmw_topic_endpoint_info_t * info, const uint8_t gid[], size_t size);
rmw_ret_t rmw_topic_endpoint_info_set_qos_profile(
  rmw_topic_endpoint_info_t * info, const rmw_qos_profile_t * qos_profile);
#ifdef __cplusplus
}
#endif
#endif
