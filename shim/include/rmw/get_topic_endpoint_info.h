#ifndef SHIM_RMW_GET_TOPIC_ENDPOINT_INFO_H_
#define SHIM_RMW_GET_TOPIC_ENDPOINT_INFO_H_
#include "rmw/topic_endpoint_info_array.h"
#include "rmw/types.h"
#endif
