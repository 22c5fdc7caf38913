// Runtime of the concurrent driver: runs threads one at a time, decides at every
// synchronisation operation (and, in fine mode, at every memory access of the instrumented
// code) who runs next, and notices unsynchronised conflicting accesses, accesses to released
// memory and deadlocks.
#ifndef VERIF_CONC_RT_HPP_
#define VERIF_CONC_RT_HPP_
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt
{
struct Plan
{
  // choices of a systematic exploration: at point i take alternative idx of alts
  struct Choice {std::vector<int> alts; size_t idx;};
  std::vector<Choice> stack;
  int bound = 2;
  // random priorities with change points at the given steps
  bool fine = false;
  std::vector<int> prio;
  std::vector<long> change;
  bool next();   // the next systematic schedule; false if there is none
};
struct Outcome
{
  long steps = 0;
  long points = 0;
  std::string trouble;   // "" | "race ..." | "released ..."
  bool deadlock = false, stuck = false;
};
// Runs the bodies under the plan.  If they cannot finish, `fatal` is called (it must not
// return): the threads are left where they are.
Outcome run(
  const std::vector<std::function<void()>> & bodies, Plan & plan,
  const std::function<void(const Outcome &)> & fatal);
// Harness code inside a controlled thread: not subject to scheduling or race detection.
struct Quiet {Quiet(); ~Quiet();};
// a scheduling point of the harness (inside callbacks)
void point();
int self();
}  // namespace rt
#endif
