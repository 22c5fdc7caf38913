// The public functions of qos.cpp (QoS compatibility, best-available resolution and type hashes in
// user data), driven by tokens; shared by the sequential and the concurrent driver.
#ifndef VERIF_QOS_OPS_HPP_
#define VERIF_QOS_OPS_HPP_
#include <algorithm>
#include <functional>
#include <iostream>

#include "common.hpp"
#include "rcutils/error_handling.h"
#include "rmw/qos_profiles.h"
#include "rmw_dds_common/qos.hpp"

extern "C" __thread rcutils_allocator_t * shim_default_allocator_override;

namespace qosops
{
using vf::Arr;
using vf::Obj;
static thread_local std::string event;   // what the last command showed
static void emit(std::string s) {event = std::move(s);}
std::string limbs(uint64_t sec, uint64_t nsec)
{
  Arr a;
  for (uint64_t v : {sec, nsec}) {
    a.num(v / 1000000000000000000ull).num(v / 1000000000000ull % 1000000).num(v / 1000000 % 1000000).num(v % 1000000);
  }
  return a.done();
}
const char * relname(int v)
{
  switch (v) {
    case RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_RELIABILITY_RELIABLE: return "reliable";
    case RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT: return "best_effort";
    case RMW_QOS_POLICY_RELIABILITY_UNKNOWN: return "unknown";
    case RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE: return "best_available";
    default: return "?";
  }
}
const char * durname(int v)
{
  switch (v) {
    case RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL: return "transient_local";
    case RMW_QOS_POLICY_DURABILITY_VOLATILE: return "volatile";
    case RMW_QOS_POLICY_DURABILITY_UNKNOWN: return "unknown";
    case RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE: return "best_available";
    default: return "?";
  }
}
const char * livname(int v)
{
  switch (v) {
    case RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_LIVELINESS_AUTOMATIC: return "automatic";
    case RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_NODE: return "manual_by_node";
    case RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC: return "manual_by_topic";
    case RMW_QOS_POLICY_LIVELINESS_UNKNOWN: return "unknown";
    case RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE: return "best_available";
    default: return "?";
  }
}
std::string prof(const rmw_qos_profile_t & q)
{
  return Obj().str("rel", relname(q.reliability)).str("dur", durname(q.durability)).str("liv", livname(q.liveliness))
    .raw("dl", limbs(q.deadline.sec, q.deadline.nsec)).raw("life", limbs(q.lifespan.sec, q.lifespan.nsec))
    .raw("ll", limbs(q.liveliness_lease_duration.sec, q.liveliness_lease_duration.nsec))
    .num("hist", q.history).raw("depth", limbs(q.depth, 0)).boolean("avoid", q.avoid_ros_namespace_conventions).done();
}
const char * verdictname(int v)
{
  switch (v) {
    case RMW_QOS_COMPATIBILITY_OK: return "OK";
    case RMW_QOS_COMPATIBILITY_WARNING: return "WARNING";
    case RMW_QOS_COMPATIBILITY_ERROR: return "ERROR";
    default: return "?";
  }
}
const char * retname(int r)
{
  switch (r) {
    case RMW_RET_OK: return "OK";
    case RMW_RET_ERROR: return "ERROR";
    case RMW_RET_INVALID_ARGUMENT: return "INVALID";
    case RMW_RET_BAD_ALLOC: return "BAD_ALLOC";
    case RMW_RET_TIMEOUT: return "TIMEOUT";
    case RMW_RET_UNSUPPORTED: return "UNSUPPORTED";
    case RMW_RET_NODE_NAME_NON_EXISTENT: return "NO_NODE";
    default: return "?";
  }
}
int retcode(const std::string & n)
{
  for (int r : {RMW_RET_OK, RMW_RET_ERROR, RMW_RET_INVALID_ARGUMENT, RMW_RET_BAD_ALLOC, RMW_RET_TIMEOUT,
      RMW_RET_UNSUPPORTED, RMW_RET_NODE_NAME_NON_EXISTENT})
  {
    if (n == retname(r)) {return r;}
  }
  return RMW_RET_ERROR;
}

// Where the lists and texts handed over are placed: at addresses of their own (overruns are seen), or
// always at the same ones, as by a caller that reuses its memory.
static thread_local bool reuse = false;
struct Arena
{
  std::vector<char> mem;
  size_t used = 0;
  Arena()
  : mem(1 << 20) {}
  void * take(size_t n)
  {
    n = (n + 31) / 16 * 16;
    if (mem.size() - used < n) {return nullptr;}
    void * p = mem.data() + used;
    used += n;
    return p;
  }
  bool has(const void * p) const {return p >= mem.data() && p < mem.data() + mem.size();}
};
static Arena & arena()
{
  static thread_local Arena a;
  return a;
}
static void * take(size_t n)
{
  void * p = reuse ? arena().take(n) : nullptr;
  return p ? p : malloc(n ? n : 1);
}
static void give(void * p)
{
  if (!arena().has(p)) {free(p);}
}

// A buffer of n bytes inside a larger block, so that a write just outside it is seen (and one far
// outside it is caught by the address sanitizer).
struct Guarded
{
  static std::vector<unsigned char> & same() {static thread_local std::vector<unsigned char> b; return b;}
  std::vector<unsigned char> own;
  std::vector<unsigned char> & block;     // its own, or always the same memory
  size_t n;
  explicit Guarded(size_t n_)
  : block(reuse ? same() : own), n(n_)
  {
    block.reserve(4096);
    block.assign(n + 64, 0xA5);
  }
  char * p() {return reinterpret_cast<char *>(block.data()) + 32;}
  bool intact() const
  {
    for (size_t i = 0; i < 32; ++i) {
      if (block[i] != 0xA5 || block[32 + n + i] != 0xA5) {return false;}
    }
    return true;
  }
  bool untouched() const {return intact() && std::all_of(block.begin(), block.end(), [](unsigned char c) {return c == 0xA5;});}
};

void compat(const std::vector<std::string> & f)
{
  const rmw_qos_profile_t p = vf::qos(f[1]), s = vf::qos(f[2]);
  Arr runs;
  for (const auto & how : vf::split(f[3], ',')) {
    rmw_qos_compatibility_type_t v = static_cast<rmw_qos_compatibility_type_t>(77);
    Obj o;
    rcutils_reset_error();
    if (how == "nil" || how == "nilnz" || how == "nov" || how == "nov0") {
      Guarded g(40);
      rmw_ret_t r;
      if (how == "nil") {
        r = rmw_dds_common::qos_profile_check_compatible(p, s, &v, nullptr, 0);
      } else if (how == "nilnz") {
        r = rmw_dds_common::qos_profile_check_compatible(p, s, &v, nullptr, 5);
      } else if (how == "nov") {
        r = rmw_dds_common::qos_profile_check_compatible(p, s, nullptr, g.p(), 40);
      } else {
        r = rmw_dds_common::qos_profile_check_compatible(p, s, nullptr, nullptr, 0);
      }
      o.str("how", how).num("size", 0).str("ret", retname(r)).str("verdict", verdictname(v)).str("text", "")
      .boolean("ended", true).boolean("intact", g.intact());
    } else {
      size_t n = strtoull(how.c_str(), nullptr, 10);
      // an exactly sized heap block as well: the sanitizer sees every overrun
      Guarded g(n);
      rmw_ret_t r = rmw_dds_common::qos_profile_check_compatible(p, s, &v, g.p(), n);
      size_t e = n ? strnlen(g.p(), n) : 0;
      bool ended = n == 0 || e < n;
      o.str("how", "buf").num("size", n).str("ret", retname(r)).str("verdict", verdictname(v))
      .str("text", std::string(g.p(), e)).boolean("ended", ended)
      .boolean("intact", n == 0 ? g.untouched() : g.intact());
      if (n != 0) {
        char * exact = static_cast<char *>(malloc(n));
        memset(exact, 'Z', n);
        rmw_qos_compatibility_type_t w;
        (void)rmw_dds_common::qos_profile_check_compatible(p, s, &w, exact, n);
        free(exact);
      }
    }
    runs.raw(o.done());
  }
  emit(Obj().str("op", "compat").raw("p", prof(p)).raw("s", prof(s)).raw("runs", runs.done()).done());
}

// ------------------------------------------------------------- endpoint lists
struct Counting
{
  std::map<void *, size_t> live;
  int bad = 0;
  bool empty = false;   // no memory left
  rcutils_allocator_t a;
  Counting()
  {
    arena().used = 0;
    a.allocate = [](size_t n, void * s) {
        if (static_cast<Counting *>(s)->empty) {return static_cast<void *>(nullptr);}
        void * p = take(n);
        static_cast<Counting *>(s)->live[p] = n;
        return p;
      };
    a.deallocate = [](void * p, void * s) {
        if (!p) {return;}
        auto * c = static_cast<Counting *>(s);
        if (!c->live.erase(p)) {++c->bad; return;}
        give(p);
      };
    a.reallocate = [](void * p, size_t n, void * s) {
        auto * c = static_cast<Counting *>(s);
        if (c->empty) {return static_cast<void *>(nullptr);}
        auto old = c->live.find(p);
        if (p && old == c->live.end()) {++c->bad; return static_cast<void *>(nullptr);}
        void * q = take(n);
        if (p) {
          memcpy(q, p, std::min(n, old->second));
          c->live.erase(old);
          give(p);
        }
        c->live[q] = n;
        return q;
      };
    a.zero_allocate = [](size_t n, size_t m, void * s) {
        if (static_cast<Counting *>(s)->empty) {return static_cast<void *>(nullptr);}
        void * p = take(n * m);
        memset(p, 0, n * m);
        static_cast<Counting *>(s)->live[p] = n * m;
        return p;
      };
    a.state = this;
  }
  ~Counting() {for (auto & l : live) {give(l.first);}}
};

rmw_topic_endpoint_info_array_t list(const std::vector<std::string> & f, size_t from, rcutils_allocator_t * al)
{
  rmw_topic_endpoint_info_array_t a = rmw_get_zero_initialized_topic_endpoint_info_array();
  size_t n = f.size() - from;
  if (n == 0) {return a;}
  (void)rmw_topic_endpoint_info_array_init_with_size(&a, n, al);
  for (size_t i = 0; i < n; ++i) {
    a.info_array[i] = rmw_get_zero_initialized_topic_endpoint_info();
    auto q = vf::qos(f[from + i]);
    (void)rmw_topic_endpoint_info_set_qos_profile(&a.info_array[i], &q);
    (void)rmw_topic_endpoint_info_set_node_name(&a.info_array[i], "n", al);
    (void)rmw_topic_endpoint_info_set_node_namespace(&a.info_array[i], "/", al);
    (void)rmw_topic_endpoint_info_set_topic_type(&a.info_array[i], "t", al);
  }
  return a;
}
std::string eplist(const std::vector<std::string> & f, size_t from)
{
  Arr a;
  for (size_t i = from; i < f.size(); ++i) {a.raw(prof(vf::qos(f[i])));}
  return a.done();
}

void best(const std::vector<std::string> & f)   // best side profile eps...
{
  bool sub = f[1] == "sub";
  rmw_qos_profile_t q = vf::qos(f[2]);
  Counting c;
  auto a = list(f, 3, &c.a);
  std::string before;
  for (size_t i = 0; i < a.size; ++i) {before += vf::qosstr(a.info_array[i].qos_profile);}
  rmw_ret_t r = sub ? rmw_dds_common::qos_profile_get_best_available_for_subscription(&a, &q) :
    rmw_dds_common::qos_profile_get_best_available_for_publisher(&a, &q);
  std::string after;
  for (size_t i = 0; i < a.size; ++i) {after += vf::qosstr(a.info_array[i].qos_profile);}
  (void)rmw_topic_endpoint_info_array_fini(&a, &c.a);
  emit(
    Obj().str("op", "best").str("side", f[1]).raw("q", prof(vf::qos(f[2]))).raw("eps", eplist(f, 3))
    .str("ret", retname(r)).raw("out", prof(q)).boolean("kept", before == after).done());
}
void bestnull(const std::vector<std::string> & f)   // bestnull side which profile
{
  bool sub = f[1] == "sub";
  rmw_qos_profile_t q = vf::qos(f[3]);
  rmw_topic_endpoint_info_array_t a = rmw_get_zero_initialized_topic_endpoint_info_array();
  auto * pa = f[2] == "list" || f[2] == "both" ? nullptr : &a;
  auto * pq = f[2] == "profile" || f[2] == "both" ? nullptr : &q;
  rmw_ret_t r = sub ? rmw_dds_common::qos_profile_get_best_available_for_subscription(pa, pq) :
    rmw_dds_common::qos_profile_get_best_available_for_publisher(pa, pq);
  emit(
    Obj().str("op", "bestnull").str("ret", retname(r)).raw("q", prof(vf::qos(f[3]))).raw("out", prof(q)).done());
}

// topic side profile query-result topic(hex) null eps...
void topic(const std::vector<std::string> & f)
{
  bool sub = f[1] == "sub";
  rmw_qos_profile_t q = vf::qos(f[2]);
  int ret = retcode(f[3]);
  std::string name = vf::unesc(f[4]);
  Counting own, other;
  rmw_context_t ctx;
  memset(&ctx, 0, sizeof ctx);
  ctx.options.allocator = own.a;
  rmw_node_t node;
  memset(&node, 0, sizeof node);
  node.name = "nn";
  node.namespace_ = "/";
  node.context = &ctx;
  int calls = 0;
  bool right = true;
  shim_default_allocator_override = &other.a;
  auto get = [&](const rmw_node_t * n, rcutils_allocator_t * al, const char * t, bool no_mangle,
      rmw_topic_endpoint_info_array_t * arr) -> rmw_ret_t {
      ++calls;
      right = right && n == &node && al && al->state == &own && t && name == t && !no_mangle && arr &&
        arr->size == 0 && arr->info_array == nullptr;
      if (ret != RMW_RET_OK) {return ret;}
      if (arr && al) {*arr = list(f, 6, al);}
      return RMW_RET_OK;
    };
  const rmw_node_t * pn = f[5].find('n') != std::string::npos ? nullptr : &node;
  const char * pt = f[5].find('t') != std::string::npos ? nullptr : name.c_str();
  rmw_qos_profile_t * pq = f[5].find('q') != std::string::npos ? nullptr : &q;
  rmw_ret_t r = sub ?
    rmw_dds_common::qos_profile_get_best_available_for_topic_subscription(pn, pt, pq, get) :
    rmw_dds_common::qos_profile_get_best_available_for_topic_publisher(pn, pt, pq, get);
  shim_default_allocator_override = nullptr;
  emit(
    Obj().str("op", "topic").str("side", f[1]).raw("q", prof(vf::qos(f[2]))).raw("eps", eplist(f, 6))
    .str("qret", f[3]).boolean("null", !pn || !pt || !pq).str("ret", retname(r)).raw("out", prof(q)).num("calls", calls)
    .boolean("asked", right).num("left", own.live.size() + other.live.size())
    .num("bad", own.bad + other.bad).done());
}

void svc(const std::vector<std::string> & f)
{
  const rmw_qos_profile_t q = vf::qos(f[1]);
  rmw_qos_profile_t in = q;
  rmw_qos_profile_t once = rmw_dds_common::qos_profile_update_best_available_for_services(in);
  rmw_qos_profile_t twice = rmw_dds_common::qos_profile_update_best_available_for_services(once);
  emit(
    Obj().str("op", "svc").raw("q", prof(q)).raw("arg", prof(in)).raw("out", prof(once)).raw("twice", prof(twice))
    .done());
}

// ------------------------------------------------------------------ type hash
std::string bytes(const void * p, size_t n)
{
  Arr a;
  for (size_t i = 0; i < n; ++i) {a.num(static_cast<const uint8_t *>(p)[i]);}
  return a.done();
}
std::string hashjson(const rosidl_type_hash_t & h)
{
  return Obj().num("version", h.version).raw("value", bytes(h.value, sizeof h.value)).done();
}
void enc(const std::vector<std::string> & f)   // enc hash previous(hex) [nomem]
{
  const rosidl_type_hash_t h = vf::thash(f[1]);
  rosidl_type_hash_t in = h;
  auto prev = vf::unhex(f[2]);
  std::string out(prev.begin(), prev.end());
  // like the default allocator, this one does not depend on the state it is given
  static thread_local Counting * cur;
  Counting c;
  c.empty = f.size() > 3;
  cur = &c;
  rcutils_allocator_t stateless = c.a;
  stateless.state = nullptr;
  stateless.allocate = [](size_t n, void *) {return cur->a.allocate(n, cur);};
  stateless.deallocate = [](void * p, void *) {cur->a.deallocate(p, cur);};
  stateless.reallocate = [](void * p, size_t n, void *) {return cur->a.reallocate(p, n, cur);};
  stateless.zero_allocate = [](size_t n, size_t m, void *) {return cur->a.zero_allocate(n, m, cur);};
  rcutils_reset_error();
  shim_default_allocator_override = &stateless;
  rmw_ret_t r = rmw_dds_common::encode_type_hash_for_user_data_qos(in, out);
  shim_default_allocator_override = nullptr;
  emit(
    Obj().str("op", "enc").raw("hash", hashjson(h)).raw("arg", hashjson(in)).str("ret", retname(r))
    .raw("text", bytes(out.data(), out.size())).boolean("nomem", c.empty).num("left", c.live.size()).num("bad", c.bad).done());
}
std::pair<std::string, std::string> parse(const std::vector<uint8_t> & d)
{
  // an exactly sized block: reading past its end is caught
  arena().used = 0;
  uint8_t * p = static_cast<uint8_t *>(take(d.size()));
  std::copy(d.begin(), d.end(), p);
  rosidl_type_hash_t h;
  h.version = 0xEE;
  memset(h.value, 0xDD, sizeof h.value);
  rcutils_reset_error();
  rmw_ret_t r = rmw_dds_common::parse_type_hash_from_user_data(p, d.size(), h);
  bool same = std::equal(d.begin(), d.end(), p);
  give(p);
  return {same ? retname(r) : "MODIFIED", hashjson(h)};
}
void parsecmd(const std::vector<std::string> & f)   // parse data(hex)
{
  auto d = vf::unhex(f[1]);
  auto r = parse(d);
  emit(
    Obj().str("op", "parse").raw("data", bytes(d.data(), d.size())).str("ret", r.first).raw("hash", r.second)
    .done());
}
void parsenull()
{
  rosidl_type_hash_t h = rosidl_get_zero_initialized_type_hash();
  rmw_ret_t a = rmw_dds_common::parse_type_hash_from_user_data(nullptr, 0, h);
  rmw_ret_t b = rmw_dds_common::parse_type_hash_from_user_data(nullptr, 7, h);
  emit(Obj().str("op", "parsenull").str("ret", retname(a)).str("ret2", retname(b)).done());
}
// trip hash before(hex) after(hex): encode the hash, surround the text, parse
void trip(const std::vector<std::string> & f)
{
  const rosidl_type_hash_t h = vf::thash(f[1]);
  std::string text;
  rmw_ret_t e = rmw_dds_common::encode_type_hash_for_user_data_qos(h, text);
  auto d = vf::unhex(f[2]), after = vf::unhex(f[3]);
  d.insert(d.end(), text.begin(), text.end());
  d.insert(d.end(), after.begin(), after.end());
  auto r = parse(d);
  emit(
    Obj().str("op", "trip").raw("hash", hashjson(h)).str("eret", retname(e)).str("ret", r.first)
    .raw("out", r.second).done());
}
bool run(const std::vector<std::string> & f)
{
  if (f[0] == "compat") {compat(f);
  } else if (f[0] == "best") {best(f);
  } else if (f[0] == "bestnull") {bestnull(f);
  } else if (f[0] == "topic") {topic(f);
  } else if (f[0] == "svc") {svc(f);
  } else if (f[0] == "enc") {enc(f);
  } else if (f[0] == "parse") {parsecmd(f);
  } else if (f[0] == "parsenull") {parsenull();
  } else if (f[0] == "trip") {trip(f);
  } else {return false;}
  return true;
}
}  // namespace qosops
#endif  // VERIF_QOS_OPS_HPP_
