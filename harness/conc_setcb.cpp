// set_on_change_callback is a template: this instance is compiled with the same
// instrumentation as the code it belongs to.
#include "conc_setcb.hpp"
void install(rmw_dds_common::GraphCache & g, std::function<void()> f)
{
  g.set_on_change_callback(std::move(f));
}
