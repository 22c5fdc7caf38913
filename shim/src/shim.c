/* Stand-in implementation of the parts of rcutils / rmw / rosidl_runtime_c that
 * rmw_dds_common calls.  Semantics follow the upstream (ROS 2 Jazzy) sources;
 * DESIGN.md, "Shim", lists the points that matter to the specification. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/snprintf.h"
#include "rcutils/strdup.h"
#include "rcutils/types.h"
#include "rmw/convert_rcutils_ret_to_rmw_ret.h"
#include "rmw/error_handling.h"
#include "rmw/names_and_types.h"
#include "rmw/qos_string_conversions.h"
#include "rmw/sanity_checks.h"
#include "rmw/time.h"
#include "rmw/topic_endpoint_info.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw/types.h"
#include "rosidl_runtime_c/type_hash.h"

/* ---------------------------------------------------------------- rcutils */
/* A test driver may replace the allocator the code obtains by itself
 * (rcutils_get_default_allocator) to inject faults into it. */
__thread rcutils_allocator_t * shim_default_allocator_override = NULL;

static void * def_alloc(size_t n, void * s) {(void)s; return malloc(n);}
static void def_free(void * p, void * s) {(void)s; free(p);}
static void * def_realloc(void * p, size_t n, void * s) {(void)s; return realloc(p, n);}
static void * def_zalloc(size_t n, size_t m, void * s) {(void)s; return calloc(n, m);}

rcutils_allocator_t rcutils_get_zero_initialized_allocator(void)
{
  rcutils_allocator_t a;
  memset(&a, 0, sizeof(a));
  return a;
}

rcutils_allocator_t rcutils_get_default_allocator(void)
{
  if (shim_default_allocator_override) {return *shim_default_allocator_override;}
  rcutils_allocator_t a = {def_alloc, def_free, def_realloc, def_zalloc, NULL};
  return a;
}

bool rcutils_allocator_is_valid(const rcutils_allocator_t * a)
{
  return a && a->allocate && a->deallocate && a->zero_allocate && a->reallocate;
}

void * rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * allocator)
{
  void * p = allocator->reallocate(pointer, size, allocator->state);
  if (!p) {allocator->deallocate(pointer, allocator->state);}
  return p;
}

char * rcutils_strndup(const char * str, size_t len, rcutils_allocator_t allocator)
{
  if (!str) {return NULL;}
  char * p = (char *)allocator.allocate(len + 1, allocator.state);
  if (!p) {return NULL;}
  memcpy(p, str, len);
  p[len] = '\0';
  return p;
}

char * rcutils_strdup(const char * str, rcutils_allocator_t allocator)
{
  if (!str) {return NULL;}
  return rcutils_strndup(str, strlen(str), allocator);
}

int rcutils_vsnprintf(char * buffer, size_t buffer_size, const char * format, va_list args)
{
  if (NULL == format) {errno = EINVAL; return -1;}
  if (NULL == buffer && 0 == buffer_size) {return vsnprintf(NULL, 0, format, args);}
  if (NULL == buffer || 0 == buffer_size) {errno = EINVAL; return -1;}
  return vsnprintf(buffer, buffer_size, format, args);
}

int rcutils_snprintf(char * buffer, size_t buffer_size, const char * format, ...)
{
  va_list args;
  va_start(args, format);
  int ret = rcutils_vsnprintf(buffer, buffer_size, format, args);
  va_end(args);
  return ret;
}

char * rcutils_format_string_limit(
  rcutils_allocator_t allocator, size_t limit, const char * format_string, ...)
{
  if (!format_string) {return NULL;}
  va_list a1, a2;
  va_start(a1, format_string);
  va_copy(a2, a1);
  int n = vsnprintf(NULL, 0, format_string, a1);
  va_end(a1);
  if (n < 0) {va_end(a2); return NULL;}
  size_t want = (size_t)n + 1;
  if (want > limit) {want = limit;}
  char * p = (char *)allocator.allocate(want, allocator.state);
  if (p) {vsnprintf(p, want, format_string, a2);}
  va_end(a2);
  return p;
}

static __thread bool err_set = false;
static __thread rcutils_error_string_t err_str;

void rcutils_set_error_state(const char * error_string, const char * file, size_t line)
{
  rcutils_error_string_t n;
  snprintf(n.str, sizeof(n.str), "%s, at %s:%zu", error_string ? error_string : "(null)", file, line);
  err_str = n;
  err_set = true;
}
bool rcutils_error_is_set(void) {return err_set;}
rcutils_error_string_t rcutils_get_error_string(void)
{
  if (!err_set) {
    rcutils_error_string_t n;
    memset(&n, 0, sizeof(n));
    strcpy(n.str, "error not set");
    return n;
  }
  return err_str;
}
void rcutils_reset_error(void) {err_set = false;}

int shim_log_to_stderr = 0;
void shim_log(int severity, const char * name, const char * format, ...)
{
  if (!shim_log_to_stderr) {return;}
  va_list args;
  va_start(args, format);
  fprintf(stderr, "[%d] [%s]: ", severity, name);
  vfprintf(stderr, format, args);
  fputc('\n', stderr);
  va_end(args);
}

rcutils_string_array_t rcutils_get_zero_initialized_string_array(void)
{
  rcutils_string_array_t a;
  memset(&a, 0, sizeof(a));
  return a;
}

rcutils_ret_t rcutils_string_array_init(
  rcutils_string_array_t * sa, size_t size, const rcutils_allocator_t * allocator)
{
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(
    allocator, "allocator is null", return RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(sa, RCUTILS_RET_INVALID_ARGUMENT);
  sa->size = size;
  sa->data = (char **)allocator->zero_allocate(size, sizeof(char *), allocator->state);
  if (NULL == sa->data && 0 != size) {
    RCUTILS_SET_ERROR_MSG("failed to allocate string array");
    return RCUTILS_RET_BAD_ALLOC;
  }
  sa->allocator = *allocator;
  return RCUTILS_RET_OK;
}

rcutils_ret_t rcutils_string_array_fini(rcutils_string_array_t * sa)
{
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(sa, RCUTILS_RET_INVALID_ARGUMENT);
  if (NULL == sa->data) {return RCUTILS_RET_OK;}
  rcutils_allocator_t * allocator = &sa->allocator;
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
    allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
  for (size_t i = 0; i < sa->size; ++i) {
    allocator->deallocate(sa->data[i], allocator->state);
    sa->data[i] = NULL;
  }
  allocator->deallocate(sa->data, allocator->state);
  sa->data = NULL;
  sa->size = 0;
  return RCUTILS_RET_OK;
}

/* -------------------------------------------------------------------- rmw */
rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t r)
{
  switch (r) {
    case RCUTILS_RET_OK: return RMW_RET_OK;
    case RCUTILS_RET_INVALID_ARGUMENT: return RMW_RET_INVALID_ARGUMENT;
    case RCUTILS_RET_BAD_ALLOC: return RMW_RET_BAD_ALLOC;
    default: return RMW_RET_ERROR;
  }
}

rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * array)
{
  if (!array) {
    RMW_SET_ERROR_MSG("string array is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (0 != array->size) {
    RMW_SET_ERROR_MSG("string array size is not zero");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (NULL != array->data) {
    RMW_SET_ERROR_MSG("string array data is not null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  return RMW_RET_OK;
}

rmw_names_and_types_t rmw_get_zero_initialized_names_and_types(void)
{
  rmw_names_and_types_t n;
  memset(&n, 0, sizeof(n));
  return n;
}

rmw_ret_t rmw_names_and_types_check_zero(rmw_names_and_types_t * n)
{
  if (!n) {
    RMW_SET_ERROR_MSG("names_and_types is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->names.size != 0) {
    RMW_SET_ERROR_MSG("names size is not zero");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->names.data != NULL) {
    RMW_SET_ERROR_MSG("names array is not null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->types != NULL) {
    RMW_SET_ERROR_MSG("types array is not null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  return RMW_RET_OK;
}

rmw_ret_t rmw_names_and_types_init(
  rmw_names_and_types_t * n, size_t size, rcutils_allocator_t * allocator)
{
  RCUTILS_CHECK_ALLOCATOR(allocator, return RMW_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_FOR_NULL_WITH_MSG(n, "names_and_types is null", return RMW_RET_INVALID_ARGUMENT);
  rcutils_ret_t r = rcutils_string_array_init(&n->names, size, allocator);
  if (r != RCUTILS_RET_OK) {
    RMW_SET_ERROR_MSG("string array init failed");
    return rmw_convert_rcutils_ret_to_rmw_ret(r);
  }
  if (size != 0) {
    n->types = (rcutils_string_array_t *)allocator->zero_allocate(
      size, sizeof(rcutils_string_array_t), allocator->state);
    if (!n->types) {
      r = rcutils_string_array_fini(&n->names);
      RMW_SET_ERROR_MSG("failed to allocate memory for types");
      return RMW_RET_BAD_ALLOC;
    }
  }
  return RMW_RET_OK;
}

rmw_ret_t rmw_names_and_types_fini(rmw_names_and_types_t * n)
{
  if (!n) {
    RMW_SET_ERROR_MSG("names_and_types is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->names.size && !n->types) {
    RMW_SET_ERROR_MSG("invalid names_and_types");
    return RMW_RET_INVALID_ARGUMENT;
  }
  /* Memory owned by types must be released with the allocator in names. */
  rcutils_ret_t r;
  for (size_t i = 0; i < n->names.size; ++i) {
    r = rcutils_string_array_fini(&n->types[i]);
    if (r != RCUTILS_RET_OK) {
      RMW_SET_ERROR_MSG("failed to fini types");
      return rmw_convert_rcutils_ret_to_rmw_ret(r);
    }
  }
  if (n->types) {
    n->names.allocator.deallocate(n->types, n->names.allocator.state);
    n->types = NULL;
  }
  r = rcutils_string_array_fini(&n->names);
  if (r != RCUTILS_RET_OK) {
    RMW_SET_ERROR_MSG("failed to fini names");
    return rmw_convert_rcutils_ret_to_rmw_ret(r);
  }
  return RMW_RET_OK;
}

rmw_topic_endpoint_info_t rmw_get_zero_initialized_topic_endpoint_info(void)
{
  rmw_topic_endpoint_info_t z;
  memset(&z, 0, sizeof(z));
  return z;
}

#define SHIM_SET_STR(FIELD) \
  if (!info) { \
    RMW_SET_ERROR_MSG("topic_endpoint_info is null"); return RMW_RET_INVALID_ARGUMENT;} \
  if (!FIELD) {RMW_SET_ERROR_MSG(#FIELD " is null"); return RMW_RET_INVALID_ARGUMENT;} \
  if (!allocator) {RMW_SET_ERROR_MSG("allocator is null"); return RMW_RET_INVALID_ARGUMENT;} \
  do { \
    size_t n__ = strlen(FIELD) + 1; \
    char * p__ = (char *)allocator->allocate(n__, allocator->state); \
    if (!p__) { \
      RMW_SET_ERROR_MSG("failed to allocate memory for " #FIELD); return RMW_RET_BAD_ALLOC;} \
    memcpy(p__, FIELD, n__); \
    info->FIELD = p__; \
  } while (0); \
  return RMW_RET_OK

rmw_ret_t rmw_topic_endpoint_info_set_topic_type(
  rmw_topic_endpoint_info_t * info, const char * topic_type, rcutils_allocator_t * allocator)
{SHIM_SET_STR(topic_type);}
rmw_ret_t rmw_topic_endpoint_info_set_node_name(
  rmw_topic_endpoint_info_t * info, const char * node_name, rcutils_allocator_t * allocator)
{SHIM_SET_STR(node_name);}
rmw_ret_t rmw_topic_endpoint_info_set_node_namespace(
  rmw_topic_endpoint_info_t * info, const char * node_namespace, rcutils_allocator_t * allocator)
{SHIM_SET_STR(node_namespace);}

rmw_ret_t rmw_topic_endpoint_info_set_topic_type_hash(
  rmw_topic_endpoint_info_t * info, const rosidl_type_hash_t * type_hash)
{
  if (!info || !type_hash) {
    RMW_SET_ERROR_MSG("null argument"); return RMW_RET_INVALID_ARGUMENT;}
  info->topic_type_hash = *type_hash;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_endpoint_type(
  rmw_topic_endpoint_info_t * info, rmw_endpoint_type_t type)
{
  if (!info) {RMW_SET_ERROR_MSG("null argument"); return RMW_RET_INVALID_ARGUMENT;}
  info->endpoint_type = type;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_gid(
  rmw_topic_endpoint_info_t * info, const uint8_t gid[], size_t size)
{
  if (!info) {RMW_SET_ERROR_MSG("null argument"); return RMW_RET_INVALID_ARGUMENT;}
  if (size > RMW_GID_STORAGE_SIZE) {
    RMW_SET_ERROR_MSG("size is more than RMW_GID_STORAGE_SIZE"); return RMW_RET_INVALID_ARGUMENT;}
  memset(info->endpoint_gid, 0, RMW_GID_STORAGE_SIZE);
  memcpy(info->endpoint_gid, gid, size);
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_qos_profile(
  rmw_topic_endpoint_info_t * info, const rmw_qos_profile_t * qos)
{
  if (!info || !qos) {RMW_SET_ERROR_MSG("null argument"); return RMW_RET_INVALID_ARGUMENT;}
  info->qos_profile = *qos;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_fini(
  rmw_topic_endpoint_info_t * info, rcutils_allocator_t * allocator)
{
  if (!info || !allocator) {
    RMW_SET_ERROR_MSG("null argument"); return RMW_RET_INVALID_ARGUMENT;}
  allocator->deallocate((void *)info->node_name, allocator->state);
  allocator->deallocate((void *)info->node_namespace, allocator->state);
  allocator->deallocate((void *)info->topic_type, allocator->state);
  *info = rmw_get_zero_initialized_topic_endpoint_info();
  return RMW_RET_OK;
}

rmw_topic_endpoint_info_array_t rmw_get_zero_initialized_topic_endpoint_info_array(void)
{
  rmw_topic_endpoint_info_array_t z;
  memset(&z, 0, sizeof(z));
  return z;
}
rmw_ret_t rmw_topic_endpoint_info_array_check_zero(rmw_topic_endpoint_info_array_t * a)
{
  if (!a) {RMW_SET_ERROR_MSG("topic_endpoint_info_array is null"); return RMW_RET_INVALID_ARGUMENT;}
  if (a->size != 0 || a->info_array) {
    RMW_SET_ERROR_MSG("topic_endpoint_info_array is not zeroed");
    return RMW_RET_ERROR;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_init_with_size(
  rmw_topic_endpoint_info_array_t * a, size_t size, rcutils_allocator_t * allocator)
{
  if (!allocator) {RMW_SET_ERROR_MSG("allocator is null"); return RMW_RET_INVALID_ARGUMENT;}
  if (!a) {RMW_SET_ERROR_MSG("topic_endpoint_info_array is null"); return RMW_RET_INVALID_ARGUMENT;}
  a->info_array = (rmw_topic_endpoint_info_t *)allocator->allocate(
    sizeof(*a->info_array) * size, allocator->state);
  if (!a->info_array) {
    RMW_SET_ERROR_MSG("failed to allocate memory for info_array");
    return RMW_RET_BAD_ALLOC;
  }
  a->size = size;
  for (size_t i = 0; i < a->size; i++) {
    a->info_array[i] = rmw_get_zero_initialized_topic_endpoint_info();
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_fini(
  rmw_topic_endpoint_info_array_t * a, rcutils_allocator_t * allocator)
{
  if (!allocator) {RMW_SET_ERROR_MSG("allocator is null"); return RMW_RET_INVALID_ARGUMENT;}
  if (!a) {RMW_SET_ERROR_MSG("topic_endpoint_info_array is null"); return RMW_RET_INVALID_ARGUMENT;}
  for (size_t i = 0; i < a->size; i++) {
    rmw_ret_t ret = rmw_topic_endpoint_info_fini(&a->info_array[i], allocator);
    if (RMW_RET_OK != ret) {return ret;}
  }
  allocator->deallocate(a->info_array, allocator->state);
  a->info_array = NULL;
  a->size = 0;
  return RMW_RET_OK;
}

const char * rmw_qos_durability_policy_to_str(enum rmw_qos_durability_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL: return "transient_local";
    case RMW_QOS_POLICY_DURABILITY_VOLATILE: return "volatile";
    case RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE: return "best_available";
    default: return NULL;
  }
}
const char * rmw_qos_history_policy_to_str(enum rmw_qos_history_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_HISTORY_KEEP_LAST: return "keep_last";
    case RMW_QOS_POLICY_HISTORY_KEEP_ALL: return "keep_all";
    default: return NULL;
  }
}
const char * rmw_qos_liveliness_policy_to_str(enum rmw_qos_liveliness_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_LIVELINESS_AUTOMATIC: return "automatic";
    case RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC: return "manual_by_topic";
    case RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE: return "best_available";
    default: return NULL;
  }
}
const char * rmw_qos_reliability_policy_to_str(enum rmw_qos_reliability_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_RELIABILITY_RELIABLE: return "reliable";
    case RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT: return "best_effort";
    case RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE: return "best_available";
    default: return NULL;
  }
}

bool rmw_time_equal(const rmw_time_t l, const rmw_time_t r)
{
  return rmw_time_total_nsec(l) == rmw_time_total_nsec(r);
}
rmw_duration_t rmw_time_total_nsec(const rmw_time_t t)
{
  const uint64_t max_sec = INT64_MAX / 1000000000ULL;
  if (t.sec > max_sec) {return INT64_MAX;}
  const uint64_t s = t.sec * 1000000000ULL;
  if (t.nsec > (uint64_t)INT64_MAX - s) {return INT64_MAX;}
  return (rmw_duration_t)(s + t.nsec);
}
rmw_time_t rmw_time_from_nsec(const rmw_duration_t ns)
{
  rmw_time_t t = RMW_DURATION_INFINITE;
  if (ns < 0) {return t;}
  t.sec = (uint64_t)ns / 1000000000ULL;
  t.nsec = (uint64_t)ns % 1000000000ULL;
  return t;
}
rmw_time_t rmw_time_normalize(const rmw_time_t t)
{
  return rmw_time_from_nsec(rmw_time_total_nsec(t));
}

/* ------------------------------------------------------- rosidl_runtime_c */
static const char prefix[] = "RIHS01_";
rosidl_type_hash_t rosidl_get_zero_initialized_type_hash(void)
{
  rosidl_type_hash_t z;
  memset(&z, 0, sizeof(z));
  return z;
}
rcutils_ret_t rosidl_stringify_type_hash(
  const rosidl_type_hash_t * h, rcutils_allocator_t allocator, char ** out)
{
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(h, RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
    &allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(out, RCUTILS_RET_INVALID_ARGUMENT);
  const size_t n = sizeof(prefix) - 1 + 2 * ROSIDL_TYPE_HASH_SIZE;
  char * s = (char *)allocator.allocate(n + 1, allocator.state);
  if (!s) {
    *out = NULL;
    RCUTILS_SET_ERROR_MSG("Unable to allocate space for type hash string.");
    return RCUTILS_RET_BAD_ALLOC;
  }
  memcpy(s, prefix, sizeof(prefix) - 1);
  for (size_t i = 0; i < ROSIDL_TYPE_HASH_SIZE; i++) {
    sprintf(s + sizeof(prefix) - 1 + 2 * i, "%02x", h->value[i]);
  }
  s[n] = '\0';
  *out = s;
  return RCUTILS_RET_OK;
}
static int hexval(char c)
{
  if (c >= '0' && c <= '9') {return c - '0';}
  if (c >= 'a' && c <= 'f') {return c - 'a' + 10;}
  if (c >= 'A' && c <= 'F') {return c - 'A' + 10;}
  return -1;
}
rcutils_ret_t rosidl_parse_type_hash_string(const char * s, rosidl_type_hash_t * out)
{
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(s, RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(out, RCUTILS_RET_INVALID_ARGUMENT);
  static const size_t kprefix = 4 + 2 + 1, khash = 2 * ROSIDL_TYPE_HASH_SIZE;
  size_t len = strlen(s);
  out->version = 0;
  if (len < kprefix) {
    RCUTILS_SET_ERROR_MSG("Hash string not long enough to contain RIHS prefix.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  if (0 != strncmp(s, "RIHS", 4)) {
    RCUTILS_SET_ERROR_MSG("Hash string doesn't start with RIHS.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  int hi = hexval(s[4]), lo = hexval(s[5]);
  if (hi < 0 || lo < 0) {
    RCUTILS_SET_ERROR_MSG("RIHS version is not a number");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  out->version = (uint8_t)(hi * 16 + lo);
  if (out->version != 1) {
    RCUTILS_SET_ERROR_MSG("RIHS version is not 1");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  if (len != kprefix + khash) {
    RCUTILS_SET_ERROR_MSG("RIHS string is the incorrect size");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  for (size_t i = 0; i < ROSIDL_TYPE_HASH_SIZE; i++) {
    hi = hexval(s[kprefix + 2 * i]);
    lo = hexval(s[kprefix + 2 * i + 1]);
    if (hi < 0 || lo < 0) {
      RCUTILS_SET_ERROR_MSG("Type hash string value did not contain only hex digits");
      return RCUTILS_RET_INVALID_ARGUMENT;
    }
    out->value[i] = (uint8_t)(hi * 16 + lo);
  }
  return RCUTILS_RET_OK;
}
