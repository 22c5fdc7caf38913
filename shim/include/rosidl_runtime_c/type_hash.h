#ifndef SHIM_ROSIDL_TYPE_HASH_H_
#define SHIM_ROSIDL_TYPE_HASH_H_
#include <stddef.h>
#include <stdint.h>
#include "rcutils/allocator.h"
#include "rcutils/types/rcutils_ret.h"
#ifdef __cplusplus
extern "C" {
#endif
#define ROSIDL_TYPE_HASH_VERSION_UNSET 0
#define ROSIDL_TYPE_HASH_SIZE 32
typedef struct rosidl_type_hash_s
{
  uint8_t version;
  uint8_t value[ROSIDL_TYPE_HASH_SIZE];
} rosidl_type_hash_t;
rosidl_type_hash_t rosidl_get_zero_initialized_type_hash(void);
rcutils_ret_t rosidl_stringify_type_hash(
  const rosidl_type_hash_t * type_hash, rcutils_allocator_t allocator, char ** output_string);
rcutils_ret_t rosidl_parse_type_hash_string(
  const char * type_hash_string, rosidl_type_hash_t * hash_out);
#ifdef __cplusplus
}
#endif
#endif
