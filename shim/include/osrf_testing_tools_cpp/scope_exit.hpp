#ifndef SHIM_OSRF_SCOPE_EXIT_HPP_
#define SHIM_OSRF_SCOPE_EXIT_HPP_
#include "rcpputils/scope_exit.hpp"
#define OSRF_TESTING_TOOLS_CPP_SCOPE_EXIT(...) \
  auto RCPPUTILS_SE_CAT(osrf_scope_exit_, __COUNTER__) = \
    rcpputils::make_scope_exit([&]() __VA_ARGS__)
#endif
