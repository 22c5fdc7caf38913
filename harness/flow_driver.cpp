// Conformance driver for profiles flowing through graph caches: endpoints are created as a middleware
// layer does it (resolve the profile by the cache's listing, cut the durations, encode the type hash,
// add to the own cache), found by other contexts from what is on the wire, listed, lost and destroyed.
#include <memory>

#include "qos_ops.hpp"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/graph_cache.hpp"
#include "rmw_dds_common/time_utils.hpp"

using rmw_dds_common::GraphCache;
using vf::Arr;
using vf::Obj;

struct Wire   // what is visible of an endpoint on the network
{
  bool pub;
  std::string topic, type;
  rmw_gid_t gid, part;
  rmw_qos_profile_t q;
  std::string data;
};
static std::map<std::string, Wire> world;
static std::vector<std::unique_ptr<GraphCache>> caches;

static std::string ident(const std::string & s) {return s;}
static rmw_ret_t listing(
  GraphCache & g, bool pubs, const std::string & topic, rcutils_allocator_t * al,
  rmw_topic_endpoint_info_array_t * arr)
{
  return pubs ? g.get_writers_info_by_topic("rt" + topic, ident, al, arr) :
         g.get_readers_info_by_topic("rt" + topic, ident, al, arr);
}
static std::string hashof(const rosidl_type_hash_t & h) {return qosops::hashjson(h);}
static std::string items(const rmw_topic_endpoint_info_array_t & a)
{
  Arr out;
  for (size_t i = 0; i < a.size; ++i) {
    const auto & e = a.info_array[i];
    out.raw(
      Obj().str("gid", vf::hex(e.endpoint_gid, sizeof e.endpoint_gid)).str("type", e.topic_type ? e.topic_type : "(null)")
      .str("kind", e.endpoint_type == RMW_ENDPOINT_PUBLISHER ? "pub" : e.endpoint_type == RMW_ENDPOINT_SUBSCRIPTION ? "sub" : "?")
      .raw("prof", qosops::prof(e.qos_profile)).raw("hash", hashof(e.topic_type_hash)).done());
  }
  return out.done();
}
static const char * verdict(const rmw_qos_profile_t & p, const rmw_qos_profile_t & s)
{
  rmw_qos_compatibility_type_t v = static_cast<rmw_qos_compatibility_type_t>(77);
  if (rmw_dds_common::qos_profile_check_compatible(p, s, &v, nullptr, 0) != RMW_RET_OK) {return "?";}
  return qosops::verdictname(v);
}
static bool add(GraphCache & g, const Wire & w, const rosidl_type_hash_t & h)
{
  return w.pub ? g.add_writer(w.gid, "rt" + w.topic, w.type, h, w.part, w.q) :
         g.add_reader(w.gid, "rt" + w.topic, w.type, h, w.part, w.q);
}

// create c side gid topic type profile svc hash
static std::string create(const std::vector<std::string> & f)
{
  GraphCache & g = *caches.at(atoi(f[1].c_str()) - 1);
  Wire w;
  w.pub = f[2] == "pub";
  w.gid = vf::gid(f[3]);
  w.part = vf::gid(f[3].substr(0, 24) + "000001c1");
  w.topic = vf::unesc(f[4]);
  w.type = vf::unesc(f[5]);
  const rmw_qos_profile_t q = vf::qos(f[6]);
  bool svc = f[7] == "1";
  const rosidl_type_hash_t h = vf::thash(f[8]);
  rmw_qos_profile_t out = svc ? rmw_dds_common::qos_profile_update_best_available_for_services(q) : q;
  qosops::Counting mem;
  rmw_context_t ctx;
  memset(&ctx, 0, sizeof ctx);
  ctx.options.allocator = mem.a;
  rmw_node_t node;
  memset(&node, 0, sizeof node);
  node.name = "nn";
  node.namespace_ = "/";
  node.context = &ctx;
  int calls = 0;
  std::vector<rmw_qos_profile_t> seen;
  std::string seenids = "[]";
  auto get = [&](const rmw_node_t *, rcutils_allocator_t * al, const char * t, bool,
      rmw_topic_endpoint_info_array_t * arr) -> rmw_ret_t {
      ++calls;
      rmw_ret_t r = listing(g, !w.pub, t, al, arr);
      if (r == RMW_RET_OK) {
        for (size_t i = 0; i < arr->size; ++i) {seen.push_back(arr->info_array[i].qos_profile);}
        seenids = items(*arr);
      }
      return r;
    };
  rmw_ret_t r = w.pub ?
    rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(&node, w.topic.c_str(), &out, get) :
    rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(&node, w.topic.c_str(), &out, get);
  w.q = out;
  w.q.deadline = rmw_dds_common::clamp_rmw_time_to_dds_time(out.deadline);
  w.q.liveliness_lease_duration = rmw_dds_common::clamp_rmw_time_to_dds_time(out.liveliness_lease_duration);
  Arr verdicts;
  for (auto & s : seen) {verdicts.str(w.pub ? verdict(w.q, s) : verdict(s, w.q));}
  rmw_ret_t e = rmw_dds_common::encode_type_hash_for_user_data_qos(h, w.data);
  bool added = add(g, w, h);
  world[f[2] + f[3]] = w;
  return Obj().str("op", "create").num("c", atoi(f[1].c_str())).str("side", f[2]).str("gid", f[3]).str("topic", w.topic)
         .str("type", w.type).raw("q", qosops::prof(q)).boolean("svc", svc).raw("hash", hashof(h))
         .str("ret", qosops::retname(r)).num("calls", calls).raw("out", qosops::prof(out)).raw("wire", qosops::prof(w.q))
         .raw("seen", seenids).raw("verdicts", verdicts.done()).str("eret", qosops::retname(e)).boolean("added", added)
         .num("left", mem.live.size()).num("bad", mem.bad).done();
}
// find c side gid before(hex) after(hex)
static std::string find(const std::vector<std::string> & f)
{
  GraphCache & g = *caches.at(atoi(f[1].c_str()) - 1);
  const Wire & w = world.at(f[2] + f[3]);
  auto d = vf::unhex(f[4]), after = vf::unhex(f[5]);
  d.insert(d.end(), w.data.begin(), w.data.end());
  d.insert(d.end(), after.begin(), after.end());
  uint8_t * p = static_cast<uint8_t *>(malloc(d.size() ? d.size() : 1));
  std::copy(d.begin(), d.end(), p);
  rosidl_type_hash_t h = vf::thash("7:77");
  rmw_ret_t r = rmw_dds_common::parse_type_hash_from_user_data(p, d.size(), h);
  free(p);
  bool added = add(g, w, h);
  return Obj().str("op", "find").num("c", atoi(f[1].c_str())).str("side", f[2]).str("gid", f[3])
         .str("ret", qosops::retname(r)).raw("hash", hashof(h)).boolean("added", added).done();
}
static std::string lose(const std::vector<std::string> & f)   // lose c side gid
{
  GraphCache & g = *caches.at(atoi(f[1].c_str()) - 1);
  bool was = f[2] == "pub" ? g.remove_writer(vf::gid(f[3])) : g.remove_reader(vf::gid(f[3]));
  return Obj().str("op", "lose").num("c", atoi(f[1].c_str())).str("side", f[2]).str("gid", f[3]).boolean("was", was).done();
}
static std::string destroy(const std::vector<std::string> & f)   // destroy side gid
{
  world.erase(f[1] + f[2]);
  return Obj().str("op", "destroy").str("side", f[1]).str("gid", f[2]).done();
}
static std::string list(const std::vector<std::string> & f)   // list c side topic
{
  GraphCache & g = *caches.at(atoi(f[1].c_str()) - 1);
  qosops::Counting mem;
  auto a = rmw_get_zero_initialized_topic_endpoint_info_array();
  std::string topic = vf::unesc(f[3]);
  rmw_ret_t r = listing(g, f[2] == "pub", topic, &mem.a, &a);
  std::string its = items(a);
  if (r == RMW_RET_OK) {(void)rmw_topic_endpoint_info_array_fini(&a, &mem.a);}
  return Obj().str("op", "list").num("c", atoi(f[1].c_str())).str("side", f[2]).str("topic", topic)
         .str("ret", qosops::retname(r)).raw("items", its).done();
}
static std::string match(const std::vector<std::string> & f)   // match topic
{
  std::string topic = vf::unesc(f[1]);
  Arr out;
  for (auto & p : world) {
    for (auto & s : world) {
      if (p.second.pub && !s.second.pub && p.second.topic == topic && s.second.topic == topic) {
        out.raw(
          Obj().str("p", p.first.substr(3)).str("s", s.first.substr(3))
          .str("verdict", verdict(p.second.q, s.second.q)).done());
      }
    }
  }
  return Obj().str("op", "match").str("topic", topic).raw("pairs", out.done()).done();
}

int main()
{
  std::string line;
  while (std::getline(std::cin, line)) {
    auto f = vf::split(line);
    rcutils_reset_error();
    std::string e;
    if (f[0] == "reset") {
      caches.clear();
      world.clear();
      int n = atoi(f[1].c_str());
      for (int i = 0; i < n; ++i) {caches.emplace_back(new GraphCache());}
      e = Obj().str("op", "reset").num("n", n).done();
    } else if (f[0] == "create") {e = create(f);
    } else if (f[0] == "find") {e = find(f);
    } else if (f[0] == "lose") {e = lose(f);
    } else if (f[0] == "destroy") {e = destroy(f);
    } else if (f[0] == "list") {e = list(f);
    } else if (f[0] == "match") {e = match(f);
    } else {fprintf(stderr, "unknown command %s\n", f[0].c_str()); return 3;}
    puts(e.c_str());
    fflush(stdout);
  }
  return 0;
}
