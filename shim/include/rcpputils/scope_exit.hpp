#ifndef SHIM_RCPPUTILS_SCOPE_EXIT_HPP_
#define SHIM_RCPPUTILS_SCOPE_EXIT_HPP_
#include <type_traits>
#include <utility>
namespace rcpputils
{
template<typename CallableT>
class scope_exit final
{
public:
  explicit scope_exit(CallableT && callable)
  : callable_(std::forward<CallableT>(callable)) {}
  scope_exit(const scope_exit &) = delete;
  scope_exit(scope_exit && o)
  : callable_(std::move(o.callable_)), cancelled_(o.cancelled_) {o.cancelled_ = true;}
  scope_exit & operator=(const scope_exit &) = delete;
  scope_exit & operator=(scope_exit &&) = delete;
  ~scope_exit()
  {
    if (!cancelled_) {
      callable_();
    }
  }
  void cancel() {cancelled_ = true;}

private:
  CallableT callable_;
  bool cancelled_{false};
};
template<typename CallableT>
scope_exit<CallableT> make_scope_exit(CallableT && callable)
{
  return scope_exit<CallableT>(std::forward<CallableT>(callable));
}
}  // namespace rcpputils
#define RCPPUTILS_SE_CAT_(a, b) a ## b
#define RCPPUTILS_SE_CAT(a, b) RCPPUTILS_SE_CAT_(a, b)
#define RCPPUTILS_SCOPE_EXIT(...) \
  auto RCPPUTILS_SE_CAT(scope_exit_, __COUNTER__) = rcpputils::make_scope_exit([&]() {__VA_ARGS__;})
#endif
