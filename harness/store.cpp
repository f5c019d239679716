// event stores: what is inserted is read back.  cfg: k, plain (1: no symbolic text), long (1: long texts)
// json_file_store, or with STORE_SQLITE (sqlite.cpp) sqlite_database
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include "../rt/verif.h"
#include "umpire/event/event.hpp"
#ifdef STORE_SQLITE
#include "umpire/event/sqlite_database.hpp"
#else
#include "umpire/event/json_file_store.hpp"
#endif
#include "umpire/util/error.hpp"
namespace ev = umpire::event;
typedef uint64_t u64;
namespace {
#ifdef STORE_SQLITE
struct Store : ev::sqlite_database {
  Store(const std::string& f, bool = false) : ev::sqlite_database(f) {}
};
#else
typedef ev::json_file_store Store;
#endif
const u64 kSize[6] = {0, 1, 4096, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
std::string symText(const char* what)
{
  // one symbolic character in plain text: what has to be escaped, and what has not
  static const char* const kT[2] = {"", "a/b c"};
  std::string t = kT[sym_choice(2, "text")];
  if (sym_config("long", 0) && sym_choice(2, "long")) return t + std::string(sym_choice(2, "longer") ? 4200 : 600, (char)0x27) + "z";
  if (sym_choice(2, "symbolic")) {
    const unsigned char c = sym_u8(what);
    ASSUME((c >= 1) & (c <= 0x7f));
    t += (char)c;
    t += "z";
  }
  return t;
}
u64 hex(const std::string& s)
{
  if (s.size() < 3 || s[0] != '0' || s[1] != 'x') return 0;
  u64 v = 0;
  for (size_t i = 2; i < s.size(); ++i) {
    const char c = s[i];
    v = v * 16 + (u64)(c >= 'a' ? c - 'a' + 10 : c - '0');
  }
  return v;
}
bool has(const std::map<std::string, std::string>& m, const char* k, const std::string& v)
{
  auto i = m.find(k);
  return i != m.end() && i->second == v;
}
struct In {
  int kind;
  u64 size, ref, ptr;
  std::string name, text;
  int cat;
  long t;
} in[8];
}  // namespace

extern "C" void harness_main()
{
  const u64 K = sym_config("k", 2);
  char dir[40] = "/tmp/verif-store-XXXXXX";
  if (sym_is_native() && !mkdtemp(dir)) return;
  const std::string file = std::string(dir) + "/e.stats";
  int n = 0;
  {
    Store w(file);
    for (u64 k = 0; k < K; ++k) {
      In& x = in[n++];
      x.kind = (int)sym_choice(4, "kind");
      // one aspect varies at a time
      const unsigned vary = sym_choice(sym_config("plain", 0) ? 2 : 3, "vary");
      x.size = kSize[vary == 0 ? sym_choice(6, "size") : 2];
      static const u64 kPtr[3] = {0x1000, 0x7fffdeadbeef, 0xffffffffffffff00ull};
      x.ref = kPtr[vary == 1 ? sym_choice(2, "ref") : 0];
      x.ptr = kPtr[vary == 1 ? sym_choice(3, "ptr") : 1];
      x.t = 1234567890123l + (long)k;
      std::chrono::time_point<std::chrono::system_clock> ts{std::chrono::nanoseconds(x.t)};
      if (x.kind == 0) {
        ev::event e;
        x.text = vary == 2 ? symText("text") : "t";
        x.cat = vary == 1 ? (int)sym_choice(3, "category") : 1;
        x.name = vary == 2 && sym_choice(2, "event") ? x.text : "some event";
        e.name = x.name;
        e.cat = (ev::category)x.cat;
        e.string_args["arg0"] = x.text;
        e.string_args["pointer"] = "0x10";
        e.numeric_args["size"] = x.size;
        e.numeric_args["other"] = 7;
        e.tags["replay"] = "true";
        e.tags["name"] = x.text;
        e.timestamp = ts;
        w.insert(e);
        COVER("event");
      } else if (x.kind == 1) {
        ev::allocate e{x.size, (void*)x.ref, (void*)x.ptr, ts};
        w.insert(e);
        COVER("allocate");
      } else if (x.kind == 2) {
        x.name = vary == 2 ? symText("name") : "a name";
        ev::named_allocate e{x.size, (void*)x.ref, (void*)x.ptr, x.name, ts};
        w.insert(e);
        COVER("named_allocate");
      } else {
        ev::deallocate e{(void*)x.ref, (void*)x.ptr, ts};
        w.insert(e);
        COVER("deallocate");
      }
    }
    fflush(nullptr);
  }
  std::vector<ev::event> out;
  bool threw = false;
  try {
    Store r(file, true);
    out = r.get_events();
  } catch (umpire::runtime_error&) {
    threw = true;
  }
  if (sym_is_native()) {
    remove(file.c_str());
    rmdir(dir);
  }
  ASSERT(!threw, "what was written can be read");
  ASSERT(out.size() == (size_t)n, "every event is read back once");
  if (out.size() != (size_t)n) return;
  for (int i = 0; i < n; ++i) {
    const In& x = in[i];
    const ev::event& e = out[(size_t)i];
    static const char* const kName[4] = {"", "allocate", "named_allocate", "deallocate"};
    ASSERT(e.name == (x.kind ? kName[x.kind] : x.name), "events are read back in order with their names");
    ASSERT((int)e.cat == (x.kind ? (int)ev::category::operation : x.cat), "events are read back with their category");
    ASSERT(std::chrono::duration_cast<std::chrono::nanoseconds>(e.timestamp.time_since_epoch()).count() == x.t, "events are read back with their time");
    ASSERT(has(e.tags, "replay", "true"), "events are read back with their tags");
    if (x.kind != 3) {
      auto s = e.numeric_args.find("size");
      ASSERT(s != e.numeric_args.end() && s->second == x.size, "events are read back with their sizes");
    }
    if (x.kind == 0) {
      ASSERT(has(e.string_args, "arg0", x.text) && has(e.string_args, "pointer", "0x10") && e.numeric_args.size() == 2 && e.string_args.size() == 2, "events are read back with their arguments");
    } else {
      auto p = e.string_args.find("pointer"), r = e.string_args.find("allocator_ref");
      ASSERT(p != e.string_args.end() && hex(p->second) == x.ptr && r != e.string_args.end() && hex(r->second) == x.ref, "events are read back with their pointer and allocator");
      if (x.kind == 2) ASSERT(has(e.string_args, "allocation_name", x.name), "events are read back with the allocation's name");
    }
  }
  COVER("end");
}
