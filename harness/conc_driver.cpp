// Explores the interleavings of small concurrent programs over one or more contexts (their graph
// caches and announcements) and the functions without state of their own, and prints every distinct
// history, for LinTrace and the other trace specifications to judge.
//
//   scn <id>                 new program
//   me <gid> ...             participant id of each context
//   pre <command...>         executed first, alone
//   thr <k> <command...>     command of thread k (1, 2, ...)
//   fin <command...>         executed last, alone
//   run dfs <bound> <max>    systematic, at synchronisation points, at most <bound> preemptions
//   run pct <depth> <count> <seed>   random priorities, at every memory access
#include <functional>
#include <iostream>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <vector>

#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <map>
#include <unordered_map>

#include "conc_rt.hpp"
#include "conc_setcb.hpp"
#include "ops.hpp"
#include "qos_ops.hpp"
#include "rmw_dds_common/context.hpp"
#include "rmw_dds_common/security.hpp"
#include "util_ops.hpp"

using namespace vf;  // NOLINT
using rmw_dds_common::Context;
typedef std::vector<std::string> Toks;

struct Program
{
  std::vector<std::string> me{"00"};
  std::vector<Toks> pre, fin;
  std::vector<std::vector<Toks>> thr;
};

struct World
{
  Context c;
  rmw_publisher_t pub{};
  std::vector<std::string> onpub;   // command on another context, carried out while publishing
  std::vector<std::string> onask;   // ... and while a query of this context is asking to demangle ...
  long which = 1;                   // ... this many'th name
};
static thread_local long asking;    // context whose query is yet to ask for ...
static thread_local long left;      // ... so many names before its nested command
static std::vector<std::unique_ptr<World>> W;
static std::string base;                       // scratch directory
static std::map<std::string, std::string> put; // files of the current program
static std::vector<std::string> hist;
static thread_local std::string mode;
static bool recording = false;

static std::string codes(const std::string & s)
{
  Arr a;
  for (unsigned char c : s) {a.num(c);}
  return a.done();
}
static std::string text(const std::string & h)
{
  auto v = unhex(h);
  return std::string(v.begin(), v.end());
}
// files (regular ones) and lookups, recorded as by the security driver
static std::string put_file(const Toks & t)   // put c name file texthex
{
  std::string d = base + "/e" + t[1], p = d + "/" + t[2], x = text(t[4]);
  auto it = put.find(p);
  if (it == put.end() || it->second != x) {
    mkdir(d.c_str(), 0755);
    std::ofstream(p, std::ios::binary | std::ios::trunc) << x;
    put[p] = x;
  }
  return Obj().str("op", "put").num("c", atol(t[1].c_str())).str("name", t[2]).str("how", t[3]).str("type", "file")
         .boolean("readable", true).raw("text", codes(x)).done();
}
static std::string look(const Toks & t)       // look c form pkcs prefixhex plain fresh|junk
{
  bool lng = t[2] == "long", pkcs = lng && t[3] == "1", ok = false, threw = false;
  std::string prefix = text(t[4]), root = base + "/e" + t[1];
  std::unordered_map<std::string, std::string> m;
  if (t[6] == "junk") {m = {{"CRL", "stale"}, {"OTHER", "stale"}};}
  try {
    ok = lng ? rmw_dds_common::get_security_files(pkcs, prefix, root, m) :
      rmw_dds_common::get_security_files(prefix, root, m);
  } catch (...) {
    threw = true;
  }
  std::map<std::string, std::string> s(m.begin(), m.end());
  Arr a;
  for (auto & kv : s) {a.raw(Obj().str("attr", kv.first).raw("text", codes(kv.second)).done());}
  return Obj().str("op", "look").num("c", atol(t[1].c_str())).str("form", t[2]).boolean("pkcs", pkcs)
         .raw("prefix", codes(prefix)).raw("root", codes(root)).str("style", "plain").str("result", t[6])
         .boolean("gone", false).boolean("dropped", false)
         .raw("o", Obj().boolean("ok", ok).boolean("threw", threw).raw("res", a.done()).done())
         .boolean("same", true).done();
}

static World & world(const Toks & t) {return *W.at(static_cast<size_t>(atol(t[1].c_str())) - 1);}
// the context a command is about, 0 if it is about none
static long about(const Toks & t)
{
  static const std::set<std::string> free{"compat", "best", "bestnull", "topic", "svc", "enc", "parse", "parsenull",
    "trip", "clamp", "gid", "put", "look"};
  return free.count(t[0]) ? 0 : atol(t[1].c_str());
}

static void recorded(const Toks & t, int thread);
// asking to demangle a name is the occasion for a query's nested command
static void asked()
{
  if (!asking || --left) {return;}
  const long at = asking;
  asking = 0;
  if (at && recording) {recorded(W[static_cast<size_t>(at) - 1]->onask, rt::self() + 1);}
}

static std::string exec(const Toks & t)
{
  Obj e;
  const std::string & op = t[0];
  if (op == "put") {return put_file(t);}
  if (op == "look") {return look(t);}
  if (qosops::run(t)) {return qosops::event;}
  if (utilops::run(t)) {return utilops::event;}
  World & w = world(t);
  GraphCache & g = w.c.graph_cache;
  ParticipantEntitiesInfo out;
  e.str("op", op);
  if (op == "setcb") {
    long id = atol(t[2].c_str());
    e.num("id", id);
    const long at = atol(t[1].c_str());
    const Toks nested(t.begin() + 3, t.end());  // setcb c id [command on another context]
    install(
      g, [id, at, nested]() {
        rt::point();
        if (recording) {
          rt::Quiet q;
          hist.push_back(Obj().str("op", "fire").num("c", at).num("t", rt::self() + 1).num("id", id).done());
        }
        rt::point();
        if (recording && !nested.empty()) {recorded(nested, rt::self() + 1);}
      });
  } else if (op == "clearcb") {
    g.clear_on_change_callback();
  } else if (op == "q") {
    Toks q(t.begin() + 2, t.end());
    Arr a;
    for (auto & s : q) {a.str(unesc(s));}
    e.raw("q", a.done());
    asking = w.onask.empty() ? 0 : atol(t[1].c_str());
    left = w.which;
    std::string res = qjson(g, q);
    asking = 0;
    e.raw("res", res);
  } else if (op == "onpub") {
    w.onpub.assign(t.begin() + 2, t.end());
    return "";
  } else if (op == "onask") {
    w.which = atol(t[2].c_str());
    w.onask.assign(t.begin() + 3, t.end());
    return "";
  } else if (op == "ctx") {
    const std::string & what = t[2];
    mode = t[3];
    std::string n = unesc(t[4]), s = unesc(t[5]);
    rmw_gid_t g1 = gid(t[6]), g2 = gid(t[7]);
    Context & c = w.c;
    rmw_ret_t r;
    if (what == "add_node") {r = c.add_node_graph(n, s);
    } else if (what == "rm_node") {r = c.remove_node_graph(n, s);
    } else if (what == "add_sub") {r = c.add_subscriber_graph(g1, n, s);
    } else if (what == "rm_sub") {r = c.remove_subscriber_graph(g1, n, s);
    } else if (what == "add_pub") {r = c.add_publisher_graph(g1, n, s);
    } else if (what == "rm_pub") {r = c.remove_publisher_graph(g1, n, s);
    } else if (what == "add_cli") {r = c.add_client_graph(g1, g2, n, s);
    } else if (what == "rm_cli") {r = c.remove_client_graph(g1, g2, n, s);
    } else if (what == "add_srv") {r = c.add_service_graph(g2, g1, n, s);
    } else if (what == "rm_srv") {r = c.remove_service_graph(g2, g1, n, s);
    } else {fprintf(stderr, "bad ctx op\n"); _exit(3);}
    e.str("what", what).str("mode", t[3]).str("name", n).str("ns", s).str("gw", t[6])
    .str("gr", t[7]).num("ret", r);
  } else if (!cache_op(g, t, e, out)) {
    fprintf(stderr, "unknown command %s\n", op.c_str());
    _exit(3);
  }
  return e.done();
}

static void setup(const Program & p)
{
  hist.clear();
  recording = false;
  W.clear();
  for (size_t i = 0; i < p.me.size(); ++i) {
    const long at = static_cast<long>(i) + 1;
    W.emplace_back(new World);
    World & w = *W.back();
    w.c.gid = gid(p.me[i]);
    w.c.sub = nullptr;
    w.c.listener_thread_gc = nullptr;
    w.c.graph_guard_condition = nullptr;
    w.c.thread_is_running.store(false);
    w.c.pub = &w.pub;
    w.c.publish_callback = [at](const rmw_publisher_t * pub, const void * m) -> rmw_ret_t {
        bool ok = mode == "ok";
        rt::point();
        if (recording) {
          rt::Quiet q;
          auto pm = static_cast<const ParticipantEntitiesInfo *>(m);
          hist.push_back(
            Obj().str("op", "pub").num("c", pub == &W[static_cast<size_t>(at) - 1]->pub ? at : 0).num("t", rt::self() + 1)
            .boolean("ok", ok).raw("msg", msgjson(*pm)).done());
        }
        rt::point();
        const std::string mine = mode;
        const auto & nested = W[static_cast<size_t>(at) - 1]->onpub;
        if (recording && !nested.empty()) {recorded(nested, rt::self() + 1);}
        mode = mine;
        return ok ? RMW_RET_OK : mode == "timeout" ? RMW_RET_TIMEOUT : RMW_RET_ERROR;
      };
    hist.push_back(Obj().str("op", "reset").num("c", at).str("me", hex(w.c.gid.data, 16)).done());
  }
  for (auto & t : p.pre) {
    std::string c = exec(t);
    if (!c.empty()) {hist.push_back(Obj().str("op", "seq").num("c", about(t)).raw("call", c).done());}
  }
}

// one call of a thread, recorded
static void recorded(const Toks & t, int thread)
{
  size_t at;
  rt::point();
  {
    rt::Quiet q;
    at = hist.size();
    hist.push_back(Obj().str("op", "lost").num("c", about(t)).num("t", thread).str("call", t[0]).done());
  }
  std::string c = exec(t);
  {
    rt::Quiet q;
    hist[at] = Obj().str("op", "inv").num("c", about(t)).num("t", thread).raw("call", c).done();
    hist.push_back(Obj().str("op", "ret").num("c", about(t)).num("t", thread).done());
  }
}
static std::function<void()> body(const Program & p, int k)
{
  return [&p, k]() {
           for (auto & t : p.thr[k]) {recorded(t, k + 1);}
         };
}

static long nruns, ndistinct, nsteps, npoints;
static std::set<std::string> seen;

static void flush_history()
{
  Arr a;
  for (auto & s : hist) {a.raw(s);}
  std::string h = a.done();
  if (seen.insert(h).second) {
    ++ndistinct;
    std::cout << "H" << h << '\n';
  }
}
static void stat(const char * end)
{
  std::cout << "S" << Obj().num("runs", nruns).num("distinct", ndistinct).num("steps", nsteps)
    .num("points", npoints).str("end", end).done() << std::endl;
}

static void one(const Program & p, rt::Plan & plan)
{
  setup(p);
  std::vector<std::function<void()>> b;
  for (size_t k = 0; k < p.thr.size(); ++k) {b.push_back(body(p, static_cast<int>(k)));}
  recording = true;
  ++nruns;
  rt::Outcome o = rt::run(
    b, plan, [](const rt::Outcome & o) {
      hist.push_back(Obj().str("op", o.deadlock ? "deadlock" : "stuck").done());
      flush_history();
      stat(o.deadlock ? "deadlock" : "stuck");
      _exit(0);
    });
  recording = false;
  nsteps += o.steps;
  npoints += o.points;
  if (!o.trouble.empty()) {
    hist.push_back(Obj().str("op", "trouble").str("what", o.trouble).done());
  }
  for (auto & t : p.fin) {
    std::string c = exec(t);
    hist.push_back(Obj().str("op", "seq").num("c", about(t)).raw("call", c).done());
  }
  flush_history();
}

int main(int argc, char ** argv)
{
  if (argc > 1) {base = argv[1];}
  while_demangling = asked;
  std::ios::sync_with_stdio(false);
  std::string line;
  Program p;
  while (std::getline(std::cin, line)) {
    if (line.empty()) {continue;}
    auto t = split(line);
    if (t[0] == "scn") {
      p = Program();
      seen.clear();
      for (auto & f : put) {(void)!unlink(f.first.c_str());}
      put.clear();
    } else if (t[0] == "me") {
      p.me.assign(t.begin() + 1, t.end());
    } else if (t[0] == "pre") {
      p.pre.emplace_back(t.begin() + 1, t.end());
    } else if (t[0] == "fin") {
      p.fin.emplace_back(t.begin() + 1, t.end());
    } else if (t[0] == "thr") {
      size_t k = static_cast<size_t>(atol(t[1].c_str()));
      if (p.thr.size() < k) {p.thr.resize(k);}
      p.thr[k - 1].emplace_back(t.begin() + 2, t.end());
    } else if (t[0] == "run") {
      nruns = ndistinct = nsteps = npoints = 0;
      const char * end = "complete";
      if (t[1] == "dfs") {
        rt::Plan plan;
        plan.bound = atoi(t[2].c_str());
        long max = atol(t[3].c_str());
        do {
          if (nruns >= max) {end = "limit"; break;}
          one(p, plan);
        } while (plan.next());
      } else {
        int d = atoi(t[2].c_str());
        long count = atol(t[3].c_str());
        std::mt19937_64 r(strtoull(t[4].c_str(), nullptr, 10));
        long len = 1000;
        for (long i = 0; i < count; ++i) {
          rt::Plan plan;
          plan.fine = true;
          for (size_t k = 0; k < p.thr.size(); ++k) {plan.prio.push_back(static_cast<int>(k) + 1);}
          std::shuffle(plan.prio.begin(), plan.prio.end(), r);
          for (int k = 0; k < d; ++k) {plan.change.push_back(static_cast<long>(r() % len) + 1);}
          std::sort(plan.change.begin(), plan.change.end());
          long before = nsteps;
          one(p, plan);
          len = std::max(10L, nsteps - before);
        }
        end = "sampled";
      }
      stat(end);
    } else {
      fprintf(stderr, "unknown command %s\n", t[0].c_str());
      return 3;
    }
  }
  W.clear();
  std::cout.flush();
  _exit(0);
}
