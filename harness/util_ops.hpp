// The public functions of time_utils.cpp and gid_utils.cpp, driven by tokens; shared by the sequential
// and the concurrent driver.
#ifndef VERIF_UTIL_OPS_HPP_
#define VERIF_UTIL_OPS_HPP_
#include <climits>
#include <iostream>
#include <sstream>

#include "common.hpp"
#include "rmw_dds_common/gid_utils.hpp"
#include "rmw_dds_common/time_utils.hpp"

namespace utilops
{
using vf::Arr;
using vf::Obj;
using rmw_dds_common::operator==;
using rmw_dds_common::operator<<;
static thread_local std::string event;   // what the last command showed
static void emit(std::string s) {event = std::move(s);}
// most significant first, seven limbs of three decimal digits
std::string limbs(uint64_t v)
{
  std::vector<int> d;
  for (int i = 0; i < 7; ++i) {d.push_back(static_cast<int>(v % 1000)); v /= 1000;}
  Arr a;
  for (auto it = d.rbegin(); it != d.rend(); ++it) {a.num(*it);}
  return a.done();
}
std::string timejson(const rmw_time_t & t)
{
  return Obj().raw("sec", limbs(t.sec)).raw("nsec", limbs(t.nsec)).done();
}
std::string bytes(const uint8_t * p)
{
  Arr a;
  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {a.num(p[i]);}
  return a.done();
}
void clamp(const std::vector<std::string> & f)
{
  rmw_time_t t;
  t.sec = strtoull(f[1].c_str(), nullptr, 10);
  t.nsec = strtoull(f[2].c_str(), nullptr, 10);
  const rmw_time_t given = t;
  rmw_time_t once = rmw_dds_common::clamp_rmw_time_to_dds_time(t);
  rmw_time_t twice = rmw_dds_common::clamp_rmw_time_to_dds_time(once);
  emit(
    Obj().str("op", "clamp").raw("t", timejson(given)).raw("arg", timejson(t)).raw("out", timejson(once))
    .raw("twice", timejson(twice)).done());
}
// gid a b: comparison, equality, conversion and printing of two ids
void gids(const std::vector<std::string> & f)
{
  const rmw_gid_t a = vf::gid(f[1]), b = vf::gid(f[2]);
  rmw_dds_common::Compare_rmw_gid_t less;
  bool lt = less(a, b), gt = less(b, a), eq = a == b, qe = b == a;
  // conversion, between guards, into objects full of something else
  struct {uint8_t pre[16]; rmw_dds_common::msg::Gid m; uint8_t post[16];} w;
  memset(w.pre, 0x5A, sizeof w.pre);
  memset(w.post, 0x5A, sizeof w.post);
  for (auto & x : w.m.data) {x = static_cast<typename std::remove_reference<decltype(x)>::type>(0xC3);}
  rmw_dds_common::convert_gid_to_msg(&a, &w.m);
  struct {uint8_t pre[16]; rmw_gid_t g; uint8_t post[16];} v;
  memset(&v, 0xA5, sizeof v);
  const char * impl = reinterpret_cast<const char *>(&v);
  v.g.implementation_identifier = impl;
  rmw_dds_common::convert_msg_to_gid(&w.m, &v.g);
  bool clean = v.g.implementation_identifier == impl;
  for (size_t i = 0; i < 16; ++i) {
    clean = clean && w.pre[i] == 0x5A && w.post[i] == 0x5A && v.pre[i] == 0xA5 && v.post[i] == 0xA5;
  }
  uint8_t mb[RMW_GID_STORAGE_SIZE];
  for (size_t i = 0; i < RMW_GID_STORAGE_SIZE; ++i) {mb[i] = static_cast<uint8_t>(w.m.data[i]);}
  std::ostringstream o;
  o << "<" << a << "|" << b << ">" << 4095;
  emit(
    Obj().str("op", "gid").raw("a", bytes(a.data)).raw("b", bytes(b.data)).boolean("lt", lt).boolean("gt", gt)
    .boolean("eq", eq).boolean("qe", qe).raw("msg", bytes(mb)).raw("back", bytes(v.g.data)).boolean("clean", clean)
    .str("text", o.str()).done());
}
bool run(const std::vector<std::string> & f)
{
  if (f[0] == "clamp") {clamp(f);
  } else if (f[0] == "gid") {gids(f);
  } else {return false;}
  return true;
}
}  // namespace utilops
#endif  // VERIF_UTIL_OPS_HPP_
