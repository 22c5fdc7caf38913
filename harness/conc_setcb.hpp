#include <functional>
#include <utility>
#include "rmw_dds_common/graph_cache.hpp"
void install(rmw_dds_common::GraphCache & g, std::function<void()> f);
