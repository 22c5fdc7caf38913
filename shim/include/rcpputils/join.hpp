#ifndef SHIM_RCPPUTILS_JOIN_HPP_
#define SHIM_RCPPUTILS_JOIN_HPP_
#include <sstream>
#include <string>
namespace rcpputils
{
template<typename ContainerT>
std::string join(const ContainerT & c, const std::string & delim)
{
  std::ostringstream ss;
  bool first = true;
  for (const auto & v : c) {
    if (!first) {ss << delim;}
    first = false;
    ss << v;
  }
  return ss.str();
}
}  // namespace rcpputils
#endif
