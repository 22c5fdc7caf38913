#ifndef SHIM_RCPPUTILS_ASSERTS_HPP_
#define SHIM_RCPPUTILS_ASSERTS_HPP_
#include <stdexcept>
#include <string>
namespace rcpputils
{
inline void require_true(bool c, const std::string & m = "invalid argument passed")
{
  if (!c) {throw std::invalid_argument{m};}
}
inline void check_true(bool c, const std::string & m = "invalid state")
{
  if (!c) {throw std::runtime_error{m};}
}
inline void assert_true(bool c, const std::string & m = "assertion failed")
{
#ifndef NDEBUG
  if (!c) {throw std::runtime_error{m};}
#else
  (void)c; (void)m;
#endif
}
}  // namespace rcpputils
#endif
