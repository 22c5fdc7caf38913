// Conformance driver for the graph cache and the context: executes a script (one
// tab-separated command per line on stdin) against the real code of /repo and prints one
// JSON event per command, which the TLA+ trace specification then accepts or rejects.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "ops.hpp"
#include "rcutils/error_handling.h"
#include "rmw_dds_common/context.hpp"
#include "rmw_dds_common/graph_cache.hpp"

using rmw_dds_common::Context;
using rmw_dds_common::GraphCache;
using rmw_dds_common::msg::ParticipantEntitiesInfo;
using namespace vf;  // NOLINT

struct World
{
  struct Ctx
  {
    Context c;
    std::vector<std::string> pubs;       // publications of the current command
    std::string mode = "ok";
    std::vector<ParticipantEntitiesInfo> sent;   // successfully published, in order
  };
  std::vector<std::unique_ptr<Ctx>> ctx;
  std::vector<long> fired;               // callback ids fired during the current command
  rmw_publisher_t pub{};
  rmw_publisher_t other_pub{};
};
static World W;

static ParticipantEntitiesInfo held_msg;
static bool has_held = false;

static std::string qjson(World::Ctx & x, const std::vector<std::string> & q)
{
  return vf::qjson(x.c.graph_cache, q);
}

static std::string ledger(const Alloc & a)
{
  Arr l;
  for (long v : a.log) {l.num(v);}
  return l.done();
}
// The query undisturbed and with every single refusal, and every refusal from some request on.
static std::string fault_json(World::Ctx & x, const std::vector<std::string> & q)
{
  Alloc al;
  QResult clean = query(x.c.graph_cache, q, al);
  long n = al.requests;
  Arr runs;
  for (int mode = 0; mode < 2; ++mode) {
    for (long k = 1; k <= n && k <= 400; ++k) {
      Alloc f;
      f.fail_at = k;
      f.fail_rest = mode == 1;
      QResult r = query(x.c.graph_cache, q, f);
      Alloc again;
      QResult c2 = query(x.c.graph_cache, q, again);
      Obj o;
      o.num("k", k).boolean("rest", mode == 1).num("ret", r.ret)
      .num("refused", f.failed_nonempty).num("live", static_cast<long long>(f.live.size()))
      .num("badfree", f.badfree)
      .boolean("same", r.ret != 0 || r.val == clean.val)
      .boolean("empty", r.ret == 0 || r.empty)
      .boolean("again", c2.ret == clean.ret && c2.val == clean.val)
      .num("live2", static_cast<long long>(again.live.size()));
      if (n <= 40) {
        o.raw("log", ledger(f)).num("at", static_cast<long long>(r.blocks));
      }
      runs.raw(o.done());
      rcutils_reset_error();
    }
  }
  return Obj().num("ret", clean.ret).raw("val", clean.val)
         .num("live", static_cast<long long>(al.live.size())).num("badfree", al.badfree)
         .raw("log", ledger(al)).num("at", static_cast<long long>(clean.blocks))
         .num("requests", n).raw("runs", runs.done()).done();
}

// Invalid arguments: every combination that the query documents as refused.
static std::string badarg_json(World::Ctx & x, const std::string & what)
{
  GraphCache & g = x.c.graph_cache;
  Alloc al;
  rcutils_allocator_t good = al.get();
  rcutils_allocator_t bad = rcutils_get_zero_initialized_allocator();
  rcutils_allocator_t half = good;
  half.deallocate = nullptr;
  Arr out;
  auto id = [](const std::string & s) {return s;};
  auto emit = [&out, &al](const std::string & name, rmw_ret_t r, bool untouched) {
      out.raw(
        Obj().str("case", name).num("ret", r).boolean("untouched", untouched)
        .num("live", static_cast<long long>(al.live.size())).num("requests", al.requests).done());
      rcutils_reset_error();
    };
  static char * fake_data[2] = {nullptr, nullptr};
  if (what == "count") {
    emit("w null", g.get_writer_count("t", nullptr), true);
    emit("r null", g.get_reader_count("t", nullptr), true);
    return out.done();
  }
  if (what == "names") {
    // each of the three arrays in one of the states: ok, null, size set, data set
    for (int enc = 0; enc < 2; ++enc) {
      for (int which = 0; which < (enc ? 3 : 2); ++which) {
        for (int how = 0; how < 3; ++how) {
          rcutils_string_array_t v[3];
          for (auto & e : v) {e = rcutils_get_zero_initialized_string_array();}
          rcutils_string_array_t * p[3] = {&v[0], &v[1], enc ? &v[2] : nullptr};
          if (how == 0) {
            if (which == 2) {continue;}  // enclaves may be null
            p[which] = nullptr;
          } else if (how == 1) {v[which].size = 1;} else {v[which].data = fake_data;}
          rcutils_string_array_t w[3] = {v[0], v[1], v[2]};
          rmw_ret_t r = g.get_node_names(p[0], p[1], p[2], &good);
          bool same = true;
          for (int i = 0; i < 3; ++i) {
            same = same && w[i].size == v[i].size && w[i].data == v[i].data;
          }
          emit("arg" + std::to_string(which) + " how" + std::to_string(how), r, same);
        }
      }
      rcutils_allocator_t * as[3] = {nullptr, &bad, &half};
      for (int i = 0; i < 3; ++i) {
        rcutils_string_array_t v[3];
        for (auto & e : v) {e = rcutils_get_zero_initialized_string_array();}
        rmw_ret_t r = g.get_node_names(&v[0], &v[1], enc ? &v[2] : nullptr, as[i]);
        bool same = true;
        for (auto & e : v) {same = same && !e.size && !e.data;}
        emit("allocator" + std::to_string(i), r, same);
      }
    }
    return out.done();
  }
  // names and types: all / by node writers / by node readers
  auto call = [&](rcutils_allocator_t * a, rmw_names_and_types_t * nt) {
      if (what == "nt") {return g.get_names_and_types(id, id, a, nt);}
      if (what == "ntw") {return g.get_writer_names_and_types_by_node("n", "/", id, id, a, nt);}
      return g.get_reader_names_and_types_by_node("n", "/", id, id, a, nt);
    };
  emit("null output", call(&good, nullptr), true);
  for (int how = 0; how < 3; ++how) {
    auto nt = rmw_get_zero_initialized_names_and_types();
    rcutils_string_array_t t = rcutils_get_zero_initialized_string_array();
    if (how == 0) {nt.names.size = 1;} else if (how == 1) {nt.names.data = fake_data;} else {
      nt.types = &t;
    }
    auto before = nt;
    rmw_ret_t r = call(&good, &nt);
    emit(
      "output how" + std::to_string(how), r,
      before.names.size == nt.names.size && before.names.data == nt.names.data &&
      before.types == nt.types && !t.size && !t.data);
  }
  rcutils_allocator_t * as[3] = {nullptr, &bad, &half};
  for (int i = 0; i < 3; ++i) {
    auto nt = rmw_get_zero_initialized_names_and_types();
    rmw_ret_t r = call(as[i], &nt);
    emit("allocator" + std::to_string(i), r, !nt.names.size && !nt.names.data && !nt.types);
  }
  return out.done();
}

// `parts` selects what is observed: c counts, i endpoint listings, n node names, t all names
// and types, b names and types by node, d the printed graph
static std::string obs_json(
  World::Ctx & x, const std::vector<std::string> & topics, const std::string & dt,
  const std::string & dy, const std::vector<std::string> & nodes, const std::string & parts)
{
  auto has = [&parts](char c) {return parts.find(c) != std::string::npos;};
  Obj o;
  o.str("dt", dt).str("dy", dy).str("parts", parts);
  Arr cw, cr, iw, ir, bn;
  for (auto & t : topics) {
    std::string te = unesc(t);
    if (has('c')) {
      cw.raw(Arr().str(te).raw(qjson(x, {"cntw", t})).done());
      cr.raw(Arr().str(te).raw(qjson(x, {"cntr", t})).done());
    }
    if (has('i')) {
      iw.raw(Arr().str(te).raw(qjson(x, {"infow", t, dy})).done());
      ir.raw(Arr().str(te).raw(qjson(x, {"infor", t, dy})).done());
    }
  }
  if (has('c')) {o.raw("cw", cw.done()).raw("cr", cr.done());}
  if (has('i')) {o.raw("iw", iw.done()).raw("ir", ir.done());}
  if (has('n')) {
    o.raw("names", qjson(x, {"names"})).raw("names2", qjson(x, {"names2"}));
    o.raw("num", qjson(x, {"num"}));
  }
  if (has('t')) {o.raw("nt", qjson(x, {"nt", dt, dy}));}
  if (has('b')) {
    for (auto & n : nodes) {
      if (n.empty()) {continue;}
      auto f = split(n, ';');
      bn.raw(
        Obj().str("name", unesc(f[0])).str("ns", unesc(f[1]))
        .raw("w", qjson(x, {"ntw", dt, dy, f[0], f[1]}))
        .raw("r", qjson(x, {"ntr", dt, dy, f[0], f[1]})).done());
    }
    o.raw("bn", bn.done());
  }
  if (has('d')) {o.raw("dump", qjson(x, {"dump"}));}
  return o.done();
}

// Callback that also looks: it starts a thread asking the graph for the number of nodes and
// of readers and writers on one topic.  Where the graph is locked during notification the
// thread waits; either way what it reports was asked for after the notification began.
struct Probe
{
  std::vector<std::thread> threads;
  std::mutex m;
  std::vector<std::string> seen;
  std::string topic;
  void start(GraphCache & g)
  {
    auto done = std::make_shared<std::atomic<bool>>(false);
    threads.emplace_back([this, &g, done]() {
        size_t w = 0, r = 0;
        (void)!g.get_writer_count(topic, &w);
        (void)!g.get_reader_count(topic, &r);
        size_t n = g.get_number_of_nodes();
        done->store(true);
        std::lock_guard<std::mutex> l(m);
        seen.push_back(Obj().num("w", w).num("r", r).num("n", n).done());
      });
    auto t0 = std::chrono::steady_clock::now();
    while (!done->load() && std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(2)) {
      std::this_thread::yield();
    }
  }
  std::string finish()
  {
    for (auto & t : threads) {t.join();}
    threads.clear();
    Arr a;
    for (auto & s : seen) {a.raw(s);}
    seen.clear();
    return a.done();
  }
};
static Probe probe;

// executes one command and returns the event
static std::string execute(const std::vector<std::string> & t)
{
    const std::string & op = t[0];
    Obj e;
    e.str("op", op);
    W.fired.clear();
    if (op == "reset") {
      W.ctx.clear();
      long n = atol(t[1].c_str());
      for (long i = 0; i < n; ++i) {
        W.ctx.emplace_back(new World::Ctx);
        World::Ctx * x = W.ctx.back().get();
        x->c.gid = gid(i + 2 < static_cast<long>(t.size()) ? t[i + 2] : "00");
        x->c.sub = nullptr;
        x->c.listener_thread_gc = nullptr;
        x->c.graph_guard_condition = nullptr;
        x->c.thread_is_running.store(false);
        x->c.pub = nullptr;
      }
      Arr g;
      for (auto & x : W.ctx) {g.str(hex(x->c.gid.data, 16));}
      e.num("n", n).raw("gids", g.done());
      return e.done();
    }
    size_t ci = static_cast<size_t>(atol(t[1].c_str()));
    World::Ctx & x = *W.ctx.at(ci - 1);
    GraphCache & g = x.c.graph_cache;
    e.num("c", static_cast<long long>(ci));
    if (op == "setcb") {
      long id = atol(t[2].c_str());
      e.num("id", id);
      bool look = t.size() > 3;
      if (look) {probe.topic = unesc(t[3]);}
      GraphCache * gp = &g;
      g.set_on_change_callback([id, look, gp]() {
          W.fired.push_back(id);
          if (look) {probe.start(*gp);}
        });
    } else if (op == "clearcb") {
      g.clear_on_change_callback();
    } else if (cache_op(g, t, e, held_msg)) {
      has_held = has_held || op == "addn" || op == "rmn" || op == "asw" || op == "dsw" || op == "asr" || op == "dsr";
    } else if (op == "relay") {
      // deliver the message most recently returned by a local edit (on any cache) to cache c
      if (!has_held) {fprintf(stderr, "relay without message\n"); exit(3);}
      g.update_participant_entities(held_msg);
      e.raw("msg", msgjson(held_msg)).boolean("intact", true);
    } else if (op == "ctx") {
      // ctx c what mode name ns g1 g2 ; g1 = publisher side / only gid, g2 = subscriber side
      const std::string & what = t[2];
      const std::string & mode = t[3];
      std::string n = unesc(t[4]), s = unesc(t[5]);
      rmw_gid_t g1 = gid(t[6]), g2 = gid(t[7]);
      Arr pubs;
      bool right_pub = true;
      x.c.pub = mode == "nopub" ? nullptr : &W.pub;
      if (mode == "nocb") {
        x.c.publish_callback = nullptr;
      } else {
        x.c.publish_callback = [&](const rmw_publisher_t * p, const void * m) -> rmw_ret_t {
            if (p != &W.pub) {right_pub = false;}
            rmw_ret_t r = mode == "ok" ? RMW_RET_OK : mode == "timeout" ? RMW_RET_TIMEOUT :
              mode == "badalloc" ? RMW_RET_BAD_ALLOC : RMW_RET_ERROR;
            auto pm = static_cast<const ParticipantEntitiesInfo *>(m);
            if (r == RMW_RET_OK) {x.sent.push_back(*pm);}
            pubs.raw(Obj().raw("msg", msgjson(*pm)).boolean("ok", r == RMW_RET_OK).done());
            return r;
          };
      }
      rmw_ret_t r;
      Context & c = x.c;
      if (what == "add_node") {r = c.add_node_graph(n, s);
      } else if (what == "rm_node") {r = c.remove_node_graph(n, s);
      } else if (what == "add_sub") {r = c.add_subscriber_graph(g1, n, s);
      } else if (what == "rm_sub") {r = c.remove_subscriber_graph(g1, n, s);
      } else if (what == "add_pub") {r = c.add_publisher_graph(g1, n, s);
      } else if (what == "rm_pub") {r = c.remove_publisher_graph(g1, n, s);
      } else if (what == "add_cli") {r = c.add_client_graph(g1, g2, n, s);
      } else if (what == "rm_cli") {r = c.remove_client_graph(g1, g2, n, s);
      } else if (what == "add_srv") {r = c.add_service_graph(g2, g1, n, s);
      } else if (what == "rm_srv") {r = c.remove_service_graph(g2, g1, n, s);
      } else {fprintf(stderr, "bad ctx op\n"); exit(3);}
      x.c.publish_callback = nullptr;
      e.str("what", what).str("mode", mode).str("name", n).str("ns", s).str("gw", t[6])
      .str("gr", t[7]).num("ret", r).raw("pubs", pubs.done()).boolean("rightpub", right_pub);
    } else if (op == "deliver") {
      // deliver c from k: the k-th announcement context `from` sent (0: the latest one)
      World::Ctx & y = *W.ctx.at(static_cast<size_t>(atol(t[2].c_str())) - 1);
      size_t k = static_cast<size_t>(atol(t[3].c_str()));
      bool none = y.sent.empty() || k > y.sent.size();
      if (k == 0) {k = y.sent.size();}
      ParticipantEntitiesInfo m;
      if (!none) {m = y.sent[k - 1];} else {m.gid = ParticipantEntitiesInfo().gid;}
      std::string before = msgjson(m);
      if (!none) {g.update_participant_entities(m);}
      e.num("from", atol(t[2].c_str())).num("k", static_cast<long long>(k)).boolean("none", none)
      .raw("msg", before).boolean("intact", msgjson(m) == before);
    } else if (op == "quiescent") {
      // claims that every live context was told everything and departed ones were removed
      Arr live, gone;
      for (auto & v : split(t[2], ',')) {if (!v.empty()) {live.num(atol(v.c_str()));}}
      for (auto & v : split(t[3], ',')) {if (!v.empty()) {gone.str(v);}}
      e.raw("live", live.done()).raw("gone", gone.done());
    } else if (op == "leave" || op == "settled") {
      // remarks on the run for the trace specification: context c is gone / was told everything
    } else if (op == "obs") {
      // obs c topics dt dy nodes dump
      e.raw("o", obs_json(x, split(t[2], ','), t[3], t[4], split(t[5], '|'), t[6]));
    } else if (op == "q") {
      std::vector<std::string> q(t.begin() + 2, t.end());
      Arr a;
      for (auto & s : q) {a.str(unesc(s));}
      e.raw("q", a.done()).raw("res", qjson(x, q));
    } else if (op == "qf") {
      std::vector<std::string> q(t.begin() + 2, t.end());
      Arr a;
      for (auto & s : q) {a.str(unesc(s));}
      e.raw("q", a.done()).raw("res", fault_json(x, q));
    } else if (op == "churn") {
      // churn c n | command | command ... : the commands (of context c) n times over
      long n = atol(t[2].c_str());
      std::vector<std::vector<std::string>> round;
      for (size_t i = 3; i < t.size(); ++i) {
        if (t[i] == "|") {round.emplace_back();} else {round.back().push_back(t[i]);}
      }
      std::vector<std::string> first;
      std::string odd;
      for (long k = 0; k < n && odd.empty(); ++k) {
        std::vector<std::string> now;
        for (auto & c : round) {now.push_back(execute(c));}
        if (k == 0) {first = now;} else if (now != first) {
          Arr a;
          for (auto & v : now) {a.raw(v);}
          odd = a.done();
        }
      }
      Arr a;
      for (auto & v : first) {a.raw(v);}
      e.num("n", n).raw("steps", a.done());
      if (!odd.empty()) {e.raw("odd", odd);}
      W.fired.clear();
    } else if (op == "badarg") {
      e.str("what", t[2]).raw("cases", badarg_json(x, t[2]));
    } else {
      fprintf(stderr, "unknown command %s\n", op.c_str());
      exit(3);
    }
    Arr f;
    for (long id : W.fired) {f.num(id);}
    e.raw("cb", f.done());
    if (!probe.threads.empty()) {e.str("ptopic", probe.topic).raw("probe", probe.finish());}
    return e.done();
}

int main()
{
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty() || line[0] == '#') {continue;}
    std::cout << execute(split(line)) << '\n';
    std::cout.flush();
  }
  return 0;
}
