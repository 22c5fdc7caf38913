// Conformance driver for time_utils.cpp and gid_utils.cpp.
#include "util_ops.hpp"

int main()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    auto f = vf::split(line);
    if (f[0] == "reset") {puts("{\"op\":\"reset\"}");
    } else if (utilops::run(f)) {puts(utilops::event.c_str());
    } else {fprintf(stderr, "unknown command %s\n", f[0].c_str()); return 3;}
    fflush(stdout);
  }
  return 0;
}
