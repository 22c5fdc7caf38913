// Shared helpers of the conformance drivers: a tiny JSON writer, %-escaped tokens,
// projections of rmw types to the strings the specification uses, and a counting
// allocator that can be told to fail.
#ifndef VERIF_COMMON_HPP_
#define VERIF_COMMON_HPP_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "rcutils/allocator.h"
#include "rcutils/types.h"
#include "rmw/names_and_types.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rmw/types.h"
#include "rmw_dds_common/msg/participant_entities_info.hpp"

namespace vf
{
inline std::string jstr(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {o += '\\'; o += static_cast<char>(c);} else if (c < 0x20) {
      char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b;
    } else {o += static_cast<char>(c);}
  }
  return o + "\"";
}
inline std::string jbool(bool b) {return b ? "true" : "false";}

// insertion-ordered JSON object
struct Obj
{
  std::string s;
  Obj & raw(const std::string & k, const std::string & v)
  {
    s += (s.empty() ? "{" : ",") + jstr(k) + ":" + v;
    return *this;
  }
  Obj & str(const std::string & k, const std::string & v) {return raw(k, jstr(v));}
  Obj & num(const std::string & k, long long v) {return raw(k, std::to_string(v));}
  Obj & boolean(const std::string & k, bool v) {return raw(k, jbool(v));}
  std::string done() const {return s.empty() ? "{}" : s + "}";}
};
struct Arr
{
  std::string s;
  Arr & raw(const std::string & v) {s += (s.empty() ? "[" : ",") + v; return *this;}
  Arr & str(const std::string & v) {return raw(jstr(v));}
  Arr & num(long long v) {return raw(std::to_string(v));}
  std::string done() const {return s.empty() ? "[]" : s + "]";}
};

inline std::vector<std::string> split(const std::string & line, char sep = '\t')
{
  std::vector<std::string> r;
  size_t b = 0;
  for (;;) {
    size_t e = line.find(sep, b);
    r.push_back(line.substr(b, e == std::string::npos ? e : e - b));
    if (e == std::string::npos) {break;}
    b = e + 1;
  }
  return r;
}
inline int hexv(char c) {return c <= '9' ? c - '0' : (c | 32) - 'a' + 10;}
inline std::string unesc(const std::string & s)
{
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) {
      o += static_cast<char>(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
      i += 2;
    } else {o += s[i];}
  }
  return o;
}
inline std::string hex(const uint8_t * p, size_t n)
{
  static const char d[] = "0123456789abcdef";
  std::string o;
  for (size_t i = 0; i < n; ++i) {o += d[p[i] >> 4]; o += d[p[i] & 15];}
  return o;
}
inline std::vector<uint8_t> unhex(const std::string & s)
{
  std::vector<uint8_t> r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) {
    r.push_back(static_cast<uint8_t>(hexv(s[i]) * 16 + hexv(s[i + 1])));
  }
  return r;
}

// gids: 32 hex digits
inline rmw_gid_t gid(const std::string & h)
{
  rmw_gid_t g;
  static const char * impls[2] = {"impl-a", "impl-b"};
  static unsigned n = 0;
  // never part of the identity of a gid: vary it from call to call
  g.implementation_identifier = (n % 3 == 2) ? nullptr : impls[n % 3];
  ++n;
  auto v = unhex(h);
  memset(g.data, 0, sizeof g.data);
  memcpy(g.data, v.data(), v.size() < sizeof g.data ? v.size() : sizeof g.data);
  return g;
}
inline std::string gidstr(const rmw_dds_common::msg::Gid & g)
{
  return hex(reinterpret_cast<const uint8_t *>(&g.data[0]), g.data.size());
}

// type hash: "<version>:<64 hex digits>"
inline rosidl_type_hash_t thash(const std::string & s)
{
  rosidl_type_hash_t h;
  auto p = split(s, ':');
  h.version = static_cast<uint8_t>(atoi(p[0].c_str()));
  memset(h.value, 0, sizeof h.value);
  auto v = unhex(p.size() > 1 ? p[1] : "");
  memcpy(h.value, v.data(), v.size() < sizeof h.value ? v.size() : sizeof h.value);
  return h;
}
inline std::string thashstr(const rosidl_type_hash_t & h)
{
  return std::to_string(h.version) + ":" + hex(h.value, sizeof h.value);
}

// qos: "history,depth,rel,dur,dl_s,dl_n,ls_s,ls_n,liv,lease_s,lease_n,avoid"
inline rmw_qos_profile_t qos(const std::string & s)
{
  auto p = split(s, ',');
  auto u = [&p](size_t i) {
      return i < p.size() ? strtoull(p[i].c_str(), nullptr, 10) : 0ull;
    };
  rmw_qos_profile_t q;
  memset(&q, 0, sizeof q);
  q.history = static_cast<rmw_qos_history_policy_t>(u(0));
  q.depth = u(1);
  q.reliability = static_cast<rmw_qos_reliability_policy_t>(u(2));
  q.durability = static_cast<rmw_qos_durability_policy_t>(u(3));
  q.deadline.sec = u(4); q.deadline.nsec = u(5);
  q.lifespan.sec = u(6); q.lifespan.nsec = u(7);
  q.liveliness = static_cast<rmw_qos_liveliness_policy_t>(u(8));
  q.liveliness_lease_duration.sec = u(9); q.liveliness_lease_duration.nsec = u(10);
  q.avoid_ros_namespace_conventions = u(11) != 0;
  return q;
}
inline std::string qosstr(const rmw_qos_profile_t & q)
{
  std::ostringstream o;
  o << static_cast<unsigned>(q.history) << ',' << q.depth << ',' <<
    static_cast<unsigned>(q.reliability) << ',' << static_cast<unsigned>(q.durability) << ',' <<
    q.deadline.sec << ',' << q.deadline.nsec << ',' << q.lifespan.sec << ',' << q.lifespan.nsec <<
    ',' << static_cast<unsigned>(q.liveliness) << ',' << q.liveliness_lease_duration.sec << ',' <<
    q.liveliness_lease_duration.nsec << ',' << (q.avoid_ros_namespace_conventions ? 1 : 0);
  return o.str();
}

template<class SeqT>
std::string gidseq(const SeqT & seq)
{
  Arr a;
  for (const auto & g : seq) {a.str(gidstr(g));}
  return a.done();
}
inline std::string msgjson(const rmw_dds_common::msg::ParticipantEntitiesInfo & m)
{
  Arr nodes;
  for (const auto & n : m.node_entities_info_seq) {
    nodes.raw(
      Obj().str("name", n.node_name).str("ns", n.node_namespace)
      .raw("r", gidseq(n.reader_gid_seq)).raw("w", gidseq(n.writer_gid_seq)).done());
  }
  return Obj().str("gid", gidstr(m.gid)).raw("nodes", nodes.done()).done();
}
// message syntax in scripts: "gid|name;ns;r,r;w,w|name;..." (every token %-escaped)
inline rmw_dds_common::msg::ParticipantEntitiesInfo parsemsg(const std::string & s)
{
  rmw_dds_common::msg::ParticipantEntitiesInfo m;
  auto put = [](const std::string & h, rmw_dds_common::msg::Gid & g) {
      auto v = unhex(h);
      for (size_t i = 0; i < g.data.size() && i < v.size(); ++i) {g.data[i] = v[i];}
    };
  auto parts = split(s, '|');
  put(parts[0], m.gid);
  for (size_t i = 1; i < parts.size(); ++i) {
    auto f = split(parts[i], ';');
    rmw_dds_common::msg::NodeEntitiesInfo n;
    n.node_name = unesc(f[0]);
    n.node_namespace = unesc(f[1]);
    for (auto & h : split(f[2], ',')) {
      if (!h.empty()) {n.reader_gid_seq.emplace_back(); put(h, n.reader_gid_seq.back());}
    }
    for (auto & h : split(f[3], ',')) {
      if (!h.empty()) {n.writer_gid_seq.emplace_back(); put(h, n.writer_gid_seq.back());}
    }
    m.node_entities_info_seq.push_back(n);
  }
  return m;
}

// Carried out whenever a name is to be demangled (nothing, unless a driver sets it).
inline void (* while_demangling)() = nullptr;
// The demanglers of the specification (GraphCacheOps!Demangle).
inline std::string demangle(const std::string & kind, const std::string & s)
{
  if (while_demangling) {while_demangling();}
  if (kind == "id") {return s;}
  if (kind == "ros") {return s.compare(0, 2, "rt") == 0 ? s.substr(2) : std::string();}
  if (kind == "first") {return s.substr(0, 1);}
  if (kind == "const") {return "k";}
  if (kind == "hide") {return "";}
  if (kind == "bang") {return s + "!";}
  fprintf(stderr, "unknown demangler %s\n", kind.c_str());
  abort();
}

// Counting allocator: fails request number `fail_at` (1-based), or every request from
// it on; detects double / foreign frees and counts what is outstanding.
struct Alloc
{
  long requests = 0;
  long fail_at = 0;
  bool fail_rest = false;
  long failed_nonempty = 0;  // failed requests of non-zero size
  long badfree = 0;
  std::map<void *, long> live;   // outstanding blocks and their numbers
  long count = 0;
  // what happened, in the notation of LedgerOps: n acquired, -n released, 0 refused
  std::vector<long> log;

  bool refuse(size_t n)
  {
    ++requests;
    if (fail_at && (requests == fail_at || (fail_rest && requests > fail_at))) {
      if (n) {++failed_nonempty; log.push_back(0);}
      return true;
    }
    return false;
  }
  void * got(void * p)
  {
    live[p] = ++count;
    log.push_back(count);
    return p;
  }
  bool gone(void * p)
  {
    auto it = live.find(p);
    if (it == live.end()) {++badfree; log.push_back(-1000000000); return false;}
    log.push_back(-it->second);
    live.erase(it);
    return true;
  }
  static void * al(size_t n, void * s)
  {
    auto * a = static_cast<Alloc *>(s);
    if (a->refuse(n)) {return nullptr;}
    void * p = malloc(n ? n : 1);
    memset(p, 0xA5, n);
    return a->got(p);
  }
  static void * zal(size_t n, size_t m, void * s)
  {
    auto * a = static_cast<Alloc *>(s);
    if (a->refuse(n * m)) {return nullptr;}
    return a->got(calloc(1, n * m ? n * m : 1));
  }
  static void fr(void * p, void * s)
  {
    auto * a = static_cast<Alloc *>(s);
    if (p && a->gone(p)) {free(p);}
  }
  static void * re(void * p, size_t n, void * s)
  {
    auto * a = static_cast<Alloc *>(s);
    if (a->refuse(n)) {return nullptr;}
    if (p && !a->gone(p)) {return nullptr;}
    return a->got(realloc(p, n ? n : 1));
  }
  rcutils_allocator_t get()
  {
    rcutils_allocator_t r = {al, fr, re, zal, this};
    return r;
  }
  void reset()
  {
    requests = fail_at = failed_nonempty = badfree = count = 0; fail_rest = false;
    live.clear(); log.clear();
  }
};
}  // namespace vf
#endif
