// Conformance driver for qos.cpp.  One command per line, tab separated; one JSON event per command.
#include "qos_ops.hpp"

int main()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    auto f = vf::split(line);
    if (f[0] == "reset") {
      qosops::reuse = f.size() > 1 && f[1] == "reuse";
      puts("{\"op\":\"reset\"}");
    } else if (qosops::run(f)) {puts(qosops::event.c_str());
    } else {fprintf(stderr, "unknown command %s\n", f[0].c_str()); return 3;}
    fflush(stdout);
  }
  return 0;
}
