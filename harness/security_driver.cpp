// Conformance driver for the security file lookup.  All files live below the scratch
// directory given as first argument, which the caller creates and removes.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#include <atomic>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

#include "rmw_dds_common/security.hpp"

#include "common.hpp"
using namespace vf;  // NOLINT
namespace fs = std::filesystem;
using Map = std::unordered_map<std::string, std::string>;

static std::string base;
static long generation = 0;

static std::string codes(const std::string & s)
{
  Arr a;
  for (unsigned char c : s) {a.num(c);}
  return a.done();
}
static std::string bytes(const std::string & h)
{
  auto v = unhex(h);
  return std::string(v.begin(), v.end());
}
static std::string dir(long c) {return base + "/w" + std::to_string(generation) + "/e" + std::to_string(c);}
static std::string side(long c) {return base + "/w" + std::to_string(generation) + "/s" + std::to_string(c);}

static void write_file(const std::string & p, const std::string & text)
{
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o.write(text.data(), static_cast<std::streamsize>(text.size()));
}
static void wipe(const std::string & p)
{
  std::error_code ec;
  fs::remove_all(p, ec);
}

// Everything below a directory: names, kinds, modes, link targets, contents, times.
static std::string snapshot(const std::string & d)
{
  std::string out;
  std::error_code ec;
  std::set<std::string> names;
  for (auto it = fs::recursive_directory_iterator(d, fs::directory_options::skip_permission_denied, ec);
    it != fs::recursive_directory_iterator(); it.increment(ec))
  {
    if (ec) {break;}
    names.insert(it->path().string());
  }
  for (auto & n : names) {
    struct stat st;
    if (lstat(n.c_str(), &st)) {out += n + " gone\n"; continue;}
    out += n + " " + std::to_string(st.st_mode) + " " + std::to_string(st.st_size) + " " +
      std::to_string(st.st_mtim.tv_sec) + "." + std::to_string(st.st_mtim.tv_nsec) + " " +
      std::to_string(st.st_ino) + "\n";
    if (S_ISREG(st.st_mode)) {
      std::ifstream i(n, std::ios::binary);
      out.append(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
    } else if (S_ISLNK(st.st_mode)) {
      out += fs::read_symlink(n, ec).string();
    }
  }
  return out;
}

static std::string resjson(bool ok, bool threw, const Map & m)
{
  std::map<std::string, std::string> s(m.begin(), m.end());
  Arr a;
  for (auto & kv : s) {
    a.raw(Obj().str("attr", kv.first).raw("text", codes(kv.second)).done());
  }
  return Obj().boolean("ok", ok).boolean("threw", threw).raw("res", a.done()).done();
}

static std::string lookup(bool lng, bool pkcs, const std::string & prefix, const std::string & root, Map & m)
{
  bool ok = false, threw = false;
  alarm(10);   // a lookup that waits for something ends the driver: reported as a crash
  try {
    ok = lng ? rmw_dds_common::get_security_files(pkcs, prefix, root, m) :
      rmw_dds_common::get_security_files(prefix, root, m);
  } catch (...) {
    threw = true;
  }
  alarm(0);
  return resjson(ok, threw, m);
}

int main(int argc, char ** argv)
{
  if (argc < 2) {return 3;}
  base = argv[1];
  chmod(base.c_str(), 0755);
  std::ios::sync_with_stdio(false);
  std::string line;
  Map kept;
  long n = 0;
  while (std::getline(std::cin, line)) {
    if (line.empty()) {continue;}
    auto t = split(line);
    const std::string & op = t[0];
    Obj e;
    e.str("op", op);
    if (op == "reset") {
      (void)!chdir("/");
      if (generation) {wipe(base + "/w" + std::to_string(generation));}
      ++generation;
      n = atol(t[1].c_str());
      for (long i = 1; i <= n; ++i) {
        fs::create_directories(dir(i));
        fs::create_directories(side(i));
      }
      kept.clear();
      e.num("n", n);
    } else if (op == "put") {
      // put c name how texthex
      long c = atol(t[1].c_str());
      const std::string & name = t[2];
      const std::string & how = t[3];
      std::string text = bytes(t[4]);
      std::string p = dir(c) + "/" + name, q = side(c) + "/" + name;
      chmod(p.c_str(), 0644);
      wipe(p); wipe(q); wipe(q + "2");
      std::string type = "none";
      bool readable = true;
      if (how == "file") {
        write_file(p, text); type = "file";
      } else if (how == "link") {
        write_file(q, text); fs::create_symlink(q, p); type = "file";
      } else if (how == "chain") {
        write_file(q, text); fs::create_symlink(q, q + "2");
        fs::create_symlink("../s" + std::to_string(c) + "/" + name + "2", p); type = "file";
      } else if (how == "dir") {
        fs::create_directory(p); type = "dir";
      } else if (how == "linkdir") {
        fs::create_directory(q); fs::create_symlink(q, p); type = "dir";
      } else if (how == "dangling") {
        fs::create_symlink(q, p);
      } else if (how == "loop") {
        fs::create_symlink(p, p);
      } else if (how == "loop2") {
        fs::create_symlink(p, q); fs::create_symlink(q, p);
      } else if (how == "notdir") {   // a link through a file
        write_file(q, text); fs::create_symlink(q + "/x", p);
      } else if (how == "longlink") {
        fs::create_symlink(std::string(300, 'a'), p);
      } else if (how == "secret") {
        write_file(p, text); chmod(p.c_str(), 0); type = "file"; readable = false;
      } else if (how == "null") {     // a device is not a regular file
        fs::create_symlink("/dev/null", p); type = "dir";
      } else if (how == "fifo") {     // nothing may wait for a writer
        (void)!mkfifo(p.c_str(), 0666); type = "dir";
      } else if (how == "linkfifo") {
        (void)!mkfifo(q.c_str(), 0666); fs::create_symlink(q, p); type = "dir";
      } else if (how == "sock") {
        (void)!mknod(p.c_str(), S_IFSOCK | 0666, 0); type = "dir";
      } else if (how != "none") {
        return 3;
      }
      e.num("c", c).str("name", name).str("how", how).str("type", type).boolean("readable", readable)
      .raw("text", type == "file" ? codes(text) : "[]");
    } else if (op == "look") {
      // look c form pkcs prefixhex rootstyle result unpriv
      long c = atol(t[1].c_str());
      bool lng = t[2] == "long", pkcs = lng && t[3] == "1";
      std::string prefix = bytes(t[4]);
      const std::string & style = t[5];
      std::string root = dir(c);
      bool gone = false;
      std::string undo;
      (void)!chdir("/");
      if (style == "slash") {root += "/";
      } else if (style == "slashes") {root += "//"; root.insert(1, "/");
      } else if (style == "dots") {root += "/../e" + std::to_string(c) + "/.";
      } else if (style == "rel") {
        (void)!chdir((base + "/w" + std::to_string(generation)).c_str());
        root = "e" + std::to_string(c);
      } else if (style == "dot") {(void)!chdir(root.c_str()); root = ".";
      } else if (style == "empty") {(void)!chdir(root.c_str()); root = "";
      } else if (style == "missing") {root += "x"; gone = true;
      } else if (style == "long") {root += "/" + std::string(5000, 'd'); gone = true;
      } else if (style == "longname") {root += "/" + std::string(300, 'd'); gone = true;
      } else if (style == "file") {root += "/governance.p7s"; gone = true;
      } else if (style == "link") {
        undo = base + "/w" + std::to_string(generation) + "/l" + std::to_string(c);
        wipe(undo);
        fs::create_directory_symlink(root, undo);
        root = undo;
      } else if (style == "rootloop") {
        undo = base + "/w" + std::to_string(generation) + "/l" + std::to_string(c);
        wipe(undo);
        fs::create_symlink(undo, undo);
        root = undo;
        gone = true;
      } else if (style == "odd") {
        undo = base + "/w" + std::to_string(generation) + "/o \xc3\xa9'\"%s\\n" + std::to_string(c);
        wipe(undo);
        fs::create_directory_symlink(root, undo);
        root = undo;
      } else if (style == "closed") {
        gone = true;
      }
      bool unpriv = t[7] == "1" || style == "closed";
      std::string before = snapshot(base);
      Map m;
      Map & r = t[6] == "keep" ? kept : m;
      if (t[6] == "junk") {
        m = {{"CRL", "stale"}, {"GOVERNANCE", "stale"}, {"OTHER", "stale"}, {"CERTIFICATE", ""}};
      }
      if (style == "closed") {chmod(dir(c).c_str(), 0);}
      bool dropped = unpriv && seteuid(65534) == 0;
      // `p11` entries that only root can read stay unreadable only without privileges
      std::string o = lookup(lng, pkcs, prefix, root, r);
      if (dropped && seteuid(0) != 0) {return 3;}
      if (style == "closed") {
        chmod(dir(c).c_str(), 0755);
        if (!dropped) {gone = false;}
      }
      (void)!chdir("/");
      e.num("c", c).str("form", t[2]).boolean("pkcs", pkcs).raw("prefix", codes(prefix)).raw("root", codes(root))
      .str("style", style).str("result", t[6]).boolean("gone", gone).boolean("dropped", dropped)
      .raw("o", o).boolean("same", snapshot(base) == before);
      if (!undo.empty()) {wipe(undo);}
    } else if (op == "par") {
      // par rounds pkcs prefixhex : every enclave looked up by its own thread, each with its own
      // prefix; odd enclaves keep one result object, even ones use a new one each time
      long rounds = atol(t[1].c_str());
      bool pkcs = t[2] == "1";
      std::vector<std::set<std::string>> outs(static_cast<size_t>(n));
      std::vector<std::thread> th;
      std::atomic<long> ready{0};
      for (long i = 1; i <= n; ++i) {
        th.emplace_back([&, i]() {
            Map keep;
            std::string prefix = bytes(t[3]) + std::to_string(i);
            ready++;
            while (ready.load() < n) {}
            for (long k = 0; k < rounds; ++k) {
              Map m;
              outs[static_cast<size_t>(i - 1)].insert(lookup(true, pkcs, prefix, dir(i), i % 2 ? keep : m));
            }
          });
      }
      for (auto & x : th) {x.join();}
      Arr runs;
      for (long i = 1; i <= n; ++i) {
        Arr a;
        for (auto & s : outs[static_cast<size_t>(i - 1)]) {a.raw(s);}
        runs.raw(
          Obj().num("c", i).boolean("pkcs", pkcs).raw("prefix", codes(bytes(t[3]) + std::to_string(i)))
          .raw("root", codes(dir(i))).raw("outs", a.done()).done());
      }
      e.raw("runs", runs.done());
    } else {
      return 3;
    }
    std::cout << e.done() << '\n';
    std::cout.flush();
  }
  if (generation) {wipe(base + "/w" + std::to_string(generation));}
  return 0;
}
