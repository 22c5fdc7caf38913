// The public operations and queries of a graph cache, driven by tokens; shared by the
// sequential and the concurrent driver.
#ifndef VERIF_OPS_HPP_
#define VERIF_OPS_HPP_
#include <sstream>
#include <string>
#include <vector>

#include "common.hpp"
#include "rcutils/error_handling.h"
#include "rmw_dds_common/graph_cache.hpp"

namespace vf
{
using rmw_dds_common::GraphCache;
using rmw_dds_common::msg::ParticipantEntitiesInfo;

static std::string nt_json(const rmw_names_and_types_t & nt)
{
  Arr a;
  for (size_t i = 0; i < nt.names.size; ++i) {
    Arr t;
    for (size_t j = 0; j < nt.types[i].size; ++j) {t.str(nt.types[i].data[j]);}
    a.raw(Arr().str(nt.names.data[i]).raw(t.done()).done());
  }
  return a.done();
}
static std::string info_json(const rmw_topic_endpoint_info_array_t & ia)
{
  Arr a;
  for (size_t i = 0; i < ia.size; ++i) {
    const auto & e = ia.info_array[i];
    a.raw(
      Obj().str("gid", hex(e.endpoint_gid, sizeof e.endpoint_gid))
      .str("node", e.node_name ? e.node_name : "(null)")
      .str("ns", e.node_namespace ? e.node_namespace : "(null)")
      .str("type", e.topic_type ? e.topic_type : "(null)")
      .str("hash", thashstr(e.topic_type_hash))
      .str("kind", e.endpoint_type == RMW_ENDPOINT_PUBLISHER ? "pub" :
      e.endpoint_type == RMW_ENDPOINT_SUBSCRIPTION ? "sub" : "invalid")
      .str("qos", qosstr(e.qos_profile)).done());
  }
  return a.done();
}

static GraphCache::DemangleFunctionT dem(const std::string & kind)
{
  return [kind](const std::string & s) {return demangle(kind, s);};
}

// One query, described by tokens; the caller's allocator is counted in `al`.
// Result: return code and, if OK, the projected answer.  Outputs are released with the
// matching fini function if the call succeeded.
// `blocks` is the length of the allocator's log when the query returned; `empty` tells whether
// a query that did not succeed left its outputs without (dangling) references to memory.
struct QResult {long ret; std::string val; size_t blocks; bool empty;};
static bool is_empty(const rcutils_string_array_t & a) {return !a.data;}

static QResult query(GraphCache & g, const std::vector<std::string> & q, Alloc & al)
{
  rcutils_allocator_t a = al.get();
  const std::string & k = q[0];
  if (k == "cntw" || k == "cntr") {
    size_t n = 4711;
    rmw_ret_t r = k == "cntw" ? g.get_writer_count(unesc(q[1]), &n) :
      g.get_reader_count(unesc(q[1]), &n);
    return {r, std::to_string(n), al.log.size(), true};
  }
  if (k == "num") {return {0, std::to_string(g.get_number_of_nodes()), al.log.size(), true};}
  if (k == "dump") {
    std::ostringstream ss;
    ss << g;
    return {0, jstr(ss.str()), al.log.size(), true};
  }
  if (k == "names" || k == "names2") {
    rcutils_string_array_t n = rcutils_get_zero_initialized_string_array();
    rcutils_string_array_t s = n, e = n;
    bool enc = k == "names";
    rmw_ret_t r = g.get_node_names(&n, &s, enc ? &e : nullptr, &a);
    size_t blocks = al.log.size();
    bool empty = is_empty(n) && is_empty(s) && is_empty(e);
    std::string v = "[]";
    if (r == RMW_RET_OK) {
      Arr arr;
      if (n.size != s.size || (enc && e.size != n.size)) {
        v = jstr("sizes differ");
      } else {
        for (size_t i = 0; i < n.size; ++i) {
          Arr t;
          t.str(n.data[i] ? n.data[i] : "(null)").str(s.data[i] ? s.data[i] : "(null)");
          if (enc) {t.str(e.data[i] ? e.data[i] : "(null)");}
          arr.raw(t.done());
        }
        v = arr.done();
      }
      (void)!rcutils_string_array_fini(&n);
      (void)!rcutils_string_array_fini(&s);
      if (enc) {(void)!rcutils_string_array_fini(&e);}
    }
    return {r, v, blocks, empty};
  }
  if (k == "infow" || k == "infor") {
    auto ia = rmw_get_zero_initialized_topic_endpoint_info_array();
    rmw_ret_t r = k == "infow" ?
      g.get_writers_info_by_topic(unesc(q[1]), dem(q[2]), &a, &ia) :
      g.get_readers_info_by_topic(unesc(q[1]), dem(q[2]), &a, &ia);
    size_t blocks = al.log.size();
    bool empty = !ia.info_array;
    std::string v = "[]";
    if (r == RMW_RET_OK) {
      v = info_json(ia);
      (void)!rmw_topic_endpoint_info_array_fini(&ia, &a);
    }
    return {r, v, blocks, empty};
  }
  if (k == "nt" || k == "ntw" || k == "ntr") {
    auto nt = rmw_get_zero_initialized_names_and_types();
    rmw_ret_t r = k == "nt" ? g.get_names_and_types(dem(q[1]), dem(q[2]), &a, &nt) :
      k == "ntw" ?
      g.get_writer_names_and_types_by_node(
      unesc(q[3]), unesc(q[4]), dem(q[1]), dem(q[2]), &a, &nt) :
      g.get_reader_names_and_types_by_node(
      unesc(q[3]), unesc(q[4]), dem(q[1]), dem(q[2]), &a, &nt);
    size_t blocks = al.log.size();
    bool empty = is_empty(nt.names) && !nt.types;
    std::string v = "[]";
    if (r == RMW_RET_OK) {
      v = nt_json(nt);
      (void)!rmw_names_and_types_fini(&nt);
    }
    return {r, v, blocks, empty};
  }
  fprintf(stderr, "bad query %s\n", k.c_str());
  abort();
}


static std::string qjson(GraphCache & g, const std::vector<std::string> & q)
{
  Alloc al;
  QResult r = query(g, q, al);
  rcutils_reset_error();
  return Obj().num("ret", r.ret).raw("val", r.val).num("live", static_cast<long long>(al.live.size()))
         .num("badfree", al.badfree).done();
}

// Executes one update; false if the command is not one of them.  `out` receives the
// message a local edit returned.
static bool cache_op(
  GraphCache & g, const std::vector<std::string> & t, Obj & e, ParticipantEntitiesInfo & out)
{
  const std::string & op = t[0];
  if (op == "add") {
    // add c side via gid topic type hash part qos
    bool rd = t[2] == "r";
    const std::string & via = t[3];
    rmw_gid_t gg = gid(t[4]), pp = gid(t[8]);
    std::string topic = unesc(t[5]), type = unesc(t[6]);
    rosidl_type_hash_t h = thash(t[7]);
    rmw_qos_profile_t q = qos(t[9]);
    bool r = false;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
    if (via == "direct") {
      r = rd ? g.add_reader(gg, topic, type, h, pp, q) : g.add_writer(gg, topic, type, h, pp, q);
    } else if (via == "nohash") {
      r = rd ? g.add_reader(gg, topic, type, pp, q) : g.add_writer(gg, topic, type, pp, q);
    } else if (via == "entity") {
      r = g.add_entity(gg, topic, type, h, pp, q, rd);
    } else {
      r = g.add_entity(gg, topic, type, pp, q, rd);
    }
#pragma GCC diagnostic pop
    e.str("side", t[2]).str("via", via).str("gid", t[4]).str("topic", topic).str("type", type)
    .str("hash", t[7]).str("part", t[8]).str("qos", t[9]).boolean("ret", r);
  } else if (op == "rm") {
    bool rd = t[2] == "r";
    rmw_gid_t gg = gid(t[4]);
    bool r = t[3] == "entity" ? g.remove_entity(gg, rd) :
      rd ? g.remove_reader(gg) : g.remove_writer(gg);
    e.str("side", t[2]).str("via", t[3]).str("gid", t[4]).boolean("ret", r);
  } else if (op == "addp") {
    g.add_participant(gid(t[2]), unesc(t[3]));
    e.str("part", t[2]).str("enclave", unesc(t[3]));
  } else if (op == "rmp") {
    bool r = g.remove_participant(gid(t[2]));
    e.str("part", t[2]).boolean("ret", r);
  } else if (op == "upd") {
    ParticipantEntitiesInfo m = parsemsg(t[2]);
    std::string before = msgjson(m);
    g.update_participant_entities(m);
    e.raw("msg", before).boolean("intact", msgjson(m) == before);
  } else if (op == "addn" || op == "rmn") {
    out = op == "addn" ? g.add_node(gid(t[2]), unesc(t[3]), unesc(t[4])) :
      g.remove_node(gid(t[2]), unesc(t[3]), unesc(t[4]));
    e.str("part", t[2]).str("name", unesc(t[3])).str("ns", unesc(t[4]))
    .raw("msg", msgjson(out));
  } else if (op == "asw" || op == "dsw" || op == "asr" || op == "dsr") {
    rmw_gid_t gg = gid(t[2]), pp = gid(t[3]);
    std::string n = unesc(t[4]), s = unesc(t[5]);
    out = op == "asw" ? g.associate_writer(gg, pp, n, s) :
      op == "dsw" ? g.dissociate_writer(gg, pp, n, s) :
      op == "asr" ? g.associate_reader(gg, pp, n, s) : g.dissociate_reader(gg, pp, n, s);
    e.str("gid", t[2]).str("part", t[3]).str("name", n).str("ns", s)
    .raw("msg", msgjson(out));
  } else {
    return false;
  }
  return true;
}
}  // namespace vf
#endif
