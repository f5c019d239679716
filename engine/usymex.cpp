#include <sys/prctl.h>
#include <signal.h>
// usymex: a small KLEE-style symbolic executor for LLVM-18 bitcode.
// Every branch, address and assertion that depends on a symbolic input is decided by z3 over
// all values that satisfy the path condition.  See /verif/DESIGN.md.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

#include "expr.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
typedef uint64_t u64;

// ------------------------------------------------------------------ options
struct Options {
  std::string bc, out, entry = "harness_main";
  int jobs = 1;
  double timeout = 600;
  u64 maxInst = 20000000;  // per path
  bool forkSelect = true;
  int maxViol = 1;
  int preempt = 2;
  int yields = 1;
  u64 mallocCap = 4096;
  bool verbose = false;
  std::map<std::string, u64> fix;
  std::map<std::string, u64> cfg;
} opt;

// ------------------------------------------------------------------ values
struct Val {
  u64 c = 0;
  E e = nullptr;
  const std::vector<Val>* agg = nullptr;
};
static inline Val CV(u64 c)
{
  Val v;
  v.c = c;
  return v;
}
static inline Val EV(E e)
{
  Val v;
  if (e->k == K::Const && e->w <= 64)
    v.c = (u64)e->c;
  else
    v.e = e;
  return v;
}
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline u64 msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { OHeap, OStack, OGlobal, OFunc, OExc };
static const unsigned PG = 128;
struct Page {
  uint8_t data[PG];
  uint8_t und[PG];  // 1 = never written
  std::unique_ptr<E[]> sym;
  Page(bool zero)
  {
    memset(data, 0, PG);
    memset(und, zero ? 0 : 1, PG);
  }
  Page(const Page& o)
  {
    memcpy(data, o.data, PG);
    memcpy(und, o.und, PG);
    if (o.sym) {
      sym.reset(new E[PG]);
      memcpy(sym.get(), o.sym.get(), sizeof(E) * PG);
    }
  }
};
typedef std::shared_ptr<Page> PageP;
struct Obj {
  u64 base = 0, size = 0;
  E symSize = nullptr;
  ObjKind kind = OHeap;
  bool ro = false;
  bool zero = false;
  uint8_t allocFam = 0;
  int tid = 0;
  std::string name;
  std::vector<PageP> vp;          // small objects
  std::map<uint32_t, PageP> mp;   // large objects (sparse)
  bool big() const { return size > 64 * PG; }
  void init()
  {
    if (!big()) vp.resize((size + PG - 1) / PG);
  }
  const Page* rd(u64 off) const
  {
    uint32_t i = off / PG;
    if (!big()) return vp[i].get();
    auto it = mp.find(i);
    return it == mp.end() ? nullptr : it->second.get();
  }
  Page* wr(u64 off)
  {
    uint32_t i = off / PG;
    PageP& p = big() ? mp[i] : vp[i];
    if (!p)
      p = std::make_shared<Page>(zero);
    else if (p.use_count() > 1)
      p = std::make_shared<Page>(*p);
    return p.get();
  }
  bool undAt(u64 off) const
  {
    const Page* p = rd(off);
    return p ? p->und[off % PG] : !zero;
  }
  uint8_t byteAt(u64 off) const
  {
    const Page* p = rd(off);
    return p ? p->data[off % PG] : 0;
  }
  E symAt(u64 off) const
  {
    const Page* p = rd(off);
    return p && p->sym ? p->sym[off % PG] : nullptr;
  }
  void setC(u64 off, uint8_t v)
  {
    Page* p = wr(off);
    p->data[off % PG] = v;
    p->und[off % PG] = 0;
    if (p->sym) p->sym[off % PG] = nullptr;
  }
  void setS(u64 off, E e)
  {
    Page* p = wr(off);
    p->und[off % PG] = 0;
    if (!p->sym) {
      p->sym.reset(new E[PG]);
      memset(p->sym.get(), 0, sizeof(E) * PG);
    }
    p->sym[off % PG] = e;
  }
  void setU(u64 off)
  {
    Page* p = wr(off);
    p->und[off % PG] = 1;
    if (p->sym) p->sym[off % PG] = nullptr;
  }
};
typedef std::shared_ptr<Obj> ObjP;

// ------------------------------------------------------------------ program
struct KInst {
  Instruction* I = nullptr;
  unsigned opc = 0;
  int dest = -1;
  unsigned w = 0;
  std::vector<int> ops;
  // gep
  u64 gepOff = 0;
  std::vector<std::pair<int, u64>> gepIdx;  // op slot, scale
  std::vector<unsigned> gepW;
  int succ[2] = {-1, -1};
};
struct KFunc {
  Function* F = nullptr;
  std::vector<KInst> insts;
  DenseMap<const BasicBlock*, int> bb;
  int nslots = 0;
  unsigned idx = 0;
  std::string dem;
  int native = 0;  // native handler id
};

struct Frame {
  KFunc* kf = nullptr;
  int pc = 0;
  std::vector<Val> loc;
  std::vector<u64> allocas;
  std::vector<Val> varargs;
  bool noCaller = false;
  u64 freeOnRet = 0;
};
struct ExcRec {
  u64 ti = 0, dtor = 0;
  int handlers = 0;
  bool rethrown = false;
};
typedef std::vector<uint32_t> VC;
struct Thread {
  std::vector<Frame> st;
  std::vector<u64> caught;
  u64 curExc = 0;  // exception being unwound
  enum { Run, BlockMutex, BlockJoin, BlockGuard, Done } status = Run;
  u64 waitOn = 0;
  bool schedDone = false;
  int yields = 0;  // consecutive yields of this thread at which no other thread ran
  VC vc;
};
struct MutexSt {
  int owner = -1;
  int depth = 0;
  VC vc;
};
struct Shadow {
  int wtid = -1;
  uint32_t wclk = 0;
  VC r;
};
struct SymRec {
  E var;
  std::string name;
};

struct State {
  std::map<u64, ObjP> mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<E> pc;
  std::unordered_set<uint32_t> pcset;
  ModelP model;
  std::vector<SymRec> inputs;
  std::map<std::string, int> nameCnt;
  u64 heapNext = 0x600000001000ull, stackNext = 0x7f0000001000ull;
  std::map<u64, ExcRec> exc;
  u64 ninst = 0;
  int preempts = 0;
  bool done = false;
  u64 heapLive = 0;
  std::map<u64, u64> freed;
  // concurrency
  std::map<u64, MutexSt> mtx;
  std::map<u64, VC> atomVC;
  std::map<u64, Shadow> shadow;
  bool raceOn = false;
  std::vector<std::string> trace;
  u64 mallocCap = 0;
  int mallocFail = 0;  // 0: never, 1: nondeterministic
  u64 errnoAddr = 0;
  std::map<std::pair<int, u64>, u64> tls;
  Thread& t() { return th[cur]; }
  Frame& f() { return th[cur].st.back(); }
};

static Module* M;
static const DataLayout* DL;
static std::vector<Val> consts;
static DenseMap<const Constant*, int> constIdx;
static std::unordered_map<Function*, KFunc*> kfuncs;
static std::vector<KFunc*> funcByIdx;
static std::unordered_map<u64, Function*> funcByAddr;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::map<u64, ObjP> constGlobals;
static std::unordered_map<std::string, u64> extAddr;
static std::unordered_map<u64, std::string> extName;
static std::deque<State*> work;

// ------------------------------------------------------------------ shared stats
struct Shared {
  std::atomic<u64> paths, infeasible, queries, qsat, qunsat, qcache, qlia, qliaFail, qliaUnk, insts, forks, asserts, assertsSym, viol,
      unknown, errors, symVars, died;
  std::atomic<u64> solverUs, solverMaxUs;
  std::atomic<int> slots;
  std::atomic<int> stop;
  std::atomic<int> timedOut;
  std::atomic<int> procs;
  std::atomic<u64> nviolSites, violSite[64];
  char errmsg[512];
  std::atomic<int> errlock;
  uint8_t fcov[65536];
  std::atomic<u64> coverHits[256];
  char coverName[256][96];
  std::atomic<int> ncover;
  std::atomic<u64> assertHits[512];
  char assertName[512][160];
  std::atomic<int> nassert;
  std::atomic<int> lock;
  std::atomic<int> nsamples;
  char samples[8][1024];
};
static Shared* sh;
static double tStart;
static double now()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void slock()
{
  int e = 0;
  while (!sh->lock.compare_exchange_weak(e, 1)) {
    e = 0;
    usleep(10);
  }
}
static void sunlock() { sh->lock = 0; }
static int namedIdx(char (*tab)[96], std::atomic<int>& n, const std::string& s, int cap)
{
  int k = n.load();
  for (int i = 0; i < k; ++i)
    if (s.compare(0, 95, tab[i]) == 0) return i;
  slock();
  k = n.load();
  for (int i = 0; i < k; ++i)
    if (s.compare(0, 95, tab[i]) == 0) {
      sunlock();
      return i;
    }
  if (k >= cap) {
    sunlock();
    return cap - 1;
  }
  strncpy(tab[k], s.c_str(), 95);
  n = k + 1;
  sunlock();
  return k;
}
static int assertIdx(const std::string& s)
{
  int k = sh->nassert.load();
  for (int i = 0; i < k; ++i)
    if (s.compare(0, 159, sh->assertName[i]) == 0) return i;
  slock();
  k = sh->nassert.load();
  for (int i = 0; i < k; ++i)
    if (s.compare(0, 159, sh->assertName[i]) == 0) {
      sunlock();
      return i;
    }
  if (k >= 512) {
    sunlock();
    return 511;
  }
  strncpy(sh->assertName[k], s.c_str(), 159);
  sh->nassert = k + 1;
  sunlock();
  return k;
}

struct EndPath {};  // thrown to end the current path
struct Fatal {
  std::string msg;
};
static void fatal(const std::string& m) { throw Fatal{m}; }

// ------------------------------------------------------------------ helpers
static unsigned tw(Type* t)
{
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}

static std::string where(State& s)
{
  std::string r;
  auto& st = s.t().st;
  int n = 0;
  for (int i = (int)st.size() - 1; i >= 0 && n < 12; --i, ++n) {
    KFunc* kf = st[i].kf;
    std::string loc;
    if (st[i].pc < (int)kf->insts.size()) {
      if (auto& d = kf->insts[st[i].pc].I->getDebugLoc())
        loc = (std::string)cast<DIScope>(d.getScope())->getFilename() + ":" + std::to_string(d.getLine());
    }
    std::string nm = kf->dem;
    if (nm.size() > 160) nm = nm.substr(0, 160) + "...";
    r += "    #" + std::to_string(n) + " " + nm + " at " + loc + "\n";
  }
  return r;
}
static std::string jesc(const std::string& s)
{
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n')
      r += "\\n";
    else if ((unsigned char)c < 32)
      r += ' ';
    else
      r += c;
  }
  return r;
}
static std::string inputsText(State& s, const Model& m)
{
  std::string r;
  for (auto& in : s.inputs) {
    u128 v = evalE(in.var, m);
    char b[256];
    snprintf(b, 256, "%s %u 0x%llx\n", in.name.c_str(), in.var->w, (unsigned long long)v);
    r += b;
  }
  return r;
}
static void reportViolation(State& s, const std::string& kind, const std::string& msg, const ModelP& m)
{
  // site identity: kind+msg+innermost location
  std::string w = where(s);
  std::string key = kind + "|" + msg;
  u64 h = std::hash<std::string>()(key);
  slock();
  u64 n = sh->nviolSites.load();
  bool dup = false;
  for (u64 i = 0; i < n && i < 64; ++i)
    if (sh->violSite[i] == h) dup = true;
  if (!dup && n < 64) {
    sh->violSite[n] = h;
    sh->nviolSites = n + 1;
  }
  sunlock();
  sh->viol++;
  if (dup) return;
  std::string base = opt.out + "/viol_" + std::to_string(n);
  {
    std::ofstream f(base + ".inputs");
    f << inputsText(s, *m);
  }
  {
    std::ofstream f(base + ".txt");
    f << "kind: " << kind << "\nmessage: " << msg << "\n" << w << "inputs:\n" << inputsText(s, *m);
    for (auto& t : s.trace) f << "trace: " << t << "\n";
  }
  if (opt.verbose) fprintf(stderr, "VIOL %s: %s\n%s%s", kind.c_str(), msg.c_str(), w.c_str(), inputsText(s, *m).c_str());
  if ((int)sh->nviolSites.load() >= opt.maxViol) sh->stop = 1;
}
[[noreturn]] static void violate(State& s, const std::string& kind, const std::string& msg)
{
  reportViolation(s, kind, msg, s.model);
  throw EndPath{};
}

static void addC(State& s, E c)
{
  if (isC(c)) {
    if (!c->c) fatal("adding false constraint");
    return;
  }
  if (c->k == K::And && c->w == 1) {
    addC(s, c->a);
    addC(s, c->b);
    return;
  }
  if (s.pcset.insert(c->id).second) s.pc.push_back(c);
}
static bool known(State& s, E c)
{
  if (isC(c)) return c->c;
  if (s.pcset.count(c->id)) return true;
  if (c->k == K::And && c->w == 1) return known(s, c->a) && known(s, c->b);
  return false;
}
// can c be true under s.pc?  On Sat, m is a model.
static bool maySat(State& s, E c, ModelP& m)
{
  if (isFalse(c)) return false;
  if (known(s, mkNot(c))) return false;
  if (evalE(c, *s.model)) {
    m = s.model;
    return true;
  }
  Res r = solve(s.pc, c, s.model, m);
  if (r == Res::Unknown) {
    sh->unknown++;
    fatal("solver returned unknown");
  }
  return r == Res::Sat;
}
static State* cloneState(State& s)
{
  sh->forks++;
  return new State(s);
}

// fork so that c holds in the current state; the sibling (not c) re-executes the current instruction.
// returns with c in s.pc.  If c is impossible, returns false (s unchanged).
static bool branch(State& s, E c)
{
  if (isC(c)) return c->c;
  if (known(s, c)) return true;
  E nc = mkNot(c);
  if (known(s, nc)) return false;
  bool mv = evalE(c, *s.model) != 0;
  ModelP om;
  E pos = mv ? c : nc, neg = mv ? nc : c;
  if (maySat(s, neg, om)) {
    State* o = cloneState(s);
    o->model = om;
    addC(*o, neg);
    work.push_back(o);
    addC(s, pos);
  }
  return mv;
}
static u64 concretize(State& s, const Val& v, unsigned w, int limit = 100000)
{
  if (!v.e) return v.c;
  u64 x = (u64)evalE(v.e, *s.model);
  E eq = mkEq(v.e, mkConst(x, w));
  if (known(s, eq) || isTrue(eq)) return x;
  ModelP om;
  E ne = mkNot(eq);
  if (maySat(s, ne, om)) {
    State* o = cloneState(s);
    o->model = om;
    addC(*o, ne);
    work.push_back(o);
    addC(s, eq);
  }
  return x;
}

// ------------------------------------------------------------------ memory access
static ObjP* findObj(State& s, u64 a)
{
  auto it = s.mem.upper_bound(a);
  if (it != s.mem.begin()) {
    --it;
    if (a < it->second->base + std::max<u64>(it->second->size, 1)) return &it->second;
  }
  auto it2 = constGlobals.upper_bound(a);
  if (it2 != constGlobals.begin()) {
    --it2;
    if (a < it2->second->base + std::max<u64>(it2->second->size, 1)) return &it2->second;
  }
  return nullptr;
}
static Obj* writable(ObjP& p)
{
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return p.get();
}
static u64 allocObj(State& s, u64 size, ObjKind kind, const std::string& name, u64 align = 16, bool zero = false)
{
  u64& nx = kind == OStack ? s.stackNext : s.heapNext;
  if (align < 16) align = 16;
  nx = (nx + align - 1) & ~(align - 1);
  auto o = std::make_shared<Obj>();
  o->base = nx;
  o->size = size;
  o->kind = kind;
  o->name = name;
  o->tid = s.cur;
  o->zero = zero;
  o->init();
  nx += size + 32;
  s.mem[o->base] = o;
  if (kind == OHeap) s.heapLive++;
  return o->base;
}
static std::string hex(u64 v)
{
  char b[32];
  snprintf(b, 32, "0x%llx", (unsigned long long)v);
  return b;
}

static unsigned undCnt = 0;
static Val readObj(State& s, ObjP& op, u64 off, unsigned bytes, unsigned w)
{
  Obj* o = op.get();
  const Page* p = o->rd(off);
  u64 po = off % PG;
  if (p && po + bytes <= PG && !p->sym && bytes <= 8) {
    u64 u = 0;
    memcpy(&u, &p->und[po], bytes);
    if (!u) {
      u64 v = 0;
      memcpy(&v, &p->data[po], bytes);
      return CV(v & msk(w));
    }
  }
  // uninitialised bytes read as a fixed pattern (0xAA); values of uninitialised memory are not part of any claim.
  bool any = false;
  uint8_t buf[16];
  E sy[16];
  for (unsigned i = 0; i < bytes; ++i) {
    if (o->undAt(off + i)) {
      buf[i] = 0xAA;
      sy[i] = nullptr;
    } else {
      buf[i] = o->byteAt(off + i);
      sy[i] = o->symAt(off + i);
      if (sy[i]) any = true;
    }
  }
  if (!any) {
    u128 v = 0;
    memcpy(&v, buf, bytes);
    if (bytes <= 8) return CV((u64)v & msk(w));
    return EV(mkConst(v, w));
  }
  E r = sy[0] ? sy[0] : mkConst(buf[0], 8);
  for (unsigned i = 1; i < bytes; ++i) r = mkConcat(sy[i] ? sy[i] : mkConst(buf[i], 8), r);
  if (r->w != w) r = mkExtract(r, 0, w);
  return EV(r);
}
static void writeObj(State& s, ObjP& op, u64 off, const Val& v, unsigned bytes, unsigned w)
{
  Obj* o = writable(op);
  if (!v.e) {
    u64 c = v.c;
    u64 po = off % PG;
    if (bytes <= 8 && po + bytes <= PG) {
      Page* p = o->wr(off);
      memcpy(&p->data[po], &c, bytes);
      memset(&p->und[po], 0, bytes);
      if (p->sym)
        for (unsigned i = 0; i < bytes; ++i) p->sym[po + i] = nullptr;
      return;
    }
    for (unsigned i = 0; i < bytes; ++i) o->setC(off + i, i < 8 ? (uint8_t)(c >> (8 * i)) : 0);
    return;
  }
  E e = v.e;
  if (e->w != bytes * 8) e = mkZExt(e, bytes * 8);
  for (unsigned i = 0; i < bytes; ++i) {
    E b = mkExtract(e, i * 8, 8);
    if (isC(b))
      o->setC(off + i, (uint8_t)b->c);
    else
      o->setS(off + i, b);
  }
}

static void raceCheck(State& s, u64 addr, u64 bytes, bool write);

// Resolve an access of `bytes` bytes.  Returns the object and a concrete offset, or a symbolic offset in soff.
static ObjP& resolve(State& s, const Val& a, u64 bytes, bool write, u64& off, E& soff)
{
  soff = nullptr;
  u64 addr = a.e ? (u64)evalE(a.e, *s.model) : a.c;
  ObjP* p = findObj(s, addr);
  if (!p) {
    std::string why = addr < 4096 ? "null-page" : "unallocated or freed";
    auto it = s.freed.upper_bound(addr);
    if (it != s.freed.begin()) {
      --it;
      if (addr < it->first + it->second) why = "use after free";
    }
    violate(s, "memory", std::string(write ? "write" : "read") + " of " + std::to_string(bytes) +
                             " bytes at invalid address (" + why + ")");
  }
  Obj* o = p->get();
  if (o->kind == OFunc) violate(s, "memory", "access to a function address");
  if (write && o->ro) violate(s, "memory", "write to read-only object " + o->name);
  if (!a.e) {
    off = addr - o->base;
    if (off + bytes > o->size || off + bytes < off)
      violate(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " in " +
                               (o->kind == OHeap ? "heap block" : o->kind == OStack ? "stack object" : o->name));
    if (o->symSize) {
      E ok = mkBin(K::Ule, mkConst(off + bytes, 64), o->symSize);
      ModelP m;
      if (maySat(s, mkNot(ok), m)) {
        s.model = m;
        violate(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " in heap block");
      }
    }
    if (s.raceOn) raceCheck(s, addr, bytes, write);
    return *p;
  }
  // symbolic address
  if (bytes > o->size)
    violate(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " (symbolic address)");
  E rel = mkSub(a.e, mkConst(o->base, 64));
  E lim = o->symSize ? o->symSize : mkConst(o->size, 64);
  // rel <= lim - bytes  and lim >= bytes
  E inb = mkAnd1(mkBin(K::Ule, mkConst(bytes, 64), lim), mkBin(K::Ule, rel, mkSub(lim, mkConst(bytes, 64))));
  if (!evalE(inb, *s.model))
    violate(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " (symbolic address)");
  branch(s, inb);
  if (isC(rel)) {
    off = (u64)rel->c;
    return *p;
  }
  soff = rel;
  off = addr - o->base;
  return *p;
}

static Val loadW(State& s, const Val& a, unsigned bytes, unsigned w)
{
  u64 off;
  E so;
  ObjP& p = resolve(s, a, bytes, false, off, so);
  if (!so) return readObj(s, p, off, bytes, w);
  // enumerate feasible offsets
  std::vector<u64> offs{off};
  std::vector<E> block{mkNot(mkEq(so, mkConst(off, 64)))};
  E excl = block[0];
  bool many = false;
  for (;;) {
    ModelP m;
    if (!maySat(s, excl, m)) break;
    u64 v = (u64)evalE(so, *m);
    offs.push_back(v);
    excl = mkAnd1(excl, mkNot(mkEq(so, mkConst(v, 64))));
    if (offs.size() > 64) {
      many = true;
      break;
    }
  }
  if (many) {
    u64 v = concretize(s, EV(so), 64);
    return readObj(s, p, v, bytes, w);
  }
  std::sort(offs.begin(), offs.end());
  E r = nullptr;
  for (auto o : offs) {
    E x = toE(readObj(s, p, o, bytes, w), w);
    r = r ? mkIte(mkEq(so, mkConst(o, 64)), x, r) : x;
  }
  return EV(r);
}
static void storeW(State& s, const Val& a, const Val& v, unsigned bytes, unsigned w)
{
  u64 off;
  E so;
  ObjP& p = resolve(s, a, bytes, true, off, so);
  if (so) off = concretize(s, EV(so), 64);
  writeObj(s, p, off, v, bytes, w);
}
static Val addC64(const Val& a, u64 k)
{
  if (!k) return a;
  if (!a.e) return CV(a.c + k);
  return EV(mkAdd(a.e, mkConst(k, 64)));
}
static Val loadT(State& s, const Val& a, Type* t)
{
  if (unsigned w = tw(t)) return loadW(s, a, (unsigned)DL->getTypeStoreSize(t), w);
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    auto* v = new std::vector<Val>();
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      v->push_back(loadT(s, addC64(a, sl->getElementOffset(i)), st->getElementType(i)));
    Val r;
    r.agg = v;
    return r;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    auto* v = new std::vector<Val>();
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); ++i) v->push_back(loadT(s, addC64(a, es * i), at->getElementType()));
    Val r;
    r.agg = v;
    return r;
  }
  fatal("load of unsupported type");
  return Val();
}
static void storeT(State& s, const Val& a, const Val& v, Type* t)
{
  if (unsigned w = tw(t)) {
    storeW(s, a, v, (unsigned)DL->getTypeStoreSize(t), w);
    return;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      storeT(s, addC64(a, sl->getElementOffset(i)), v.agg ? (*v.agg)[i] : Val(), st->getElementType(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); ++i)
      storeT(s, addC64(a, es * i), v.agg ? (*v.agg)[i] : Val(), at->getElementType());
    return;
  }
  fatal("store of unsupported type");
}
static std::string readStr(State& s, u64 a)
{
  std::string r;
  for (;; ++a) {
    ObjP* p = findObj(s, a);
    if (!p) break;
    u64 off = a - (*p)->base;
    if (off >= (*p)->size) break;
    if ((*p)->symAt(off)) break;
    char c = (char)(*p)->byteAt(off);
    if (!c) break;
    r += c;
    if (r.size() > 4000) break;
  }
  return r;
}
static void copyBytes(State& s, const Val& d, const Val& sr, u64 n, bool race)
{
  if (!n) return;
  u64 so, dof;
  E e1, e2;
  bool ro = s.raceOn;
  Val dd = d, ss = sr;
  if (ss.e) ss = CV(concretize(s, ss, 64));
  if (dd.e) dd = CV(concretize(s, dd, 64));
  ObjP& ps = resolve(s, ss, n, false, so, e1);
  ObjP keep = ps;
  ObjP& pd = resolve(s, dd, n, true, dof, e2);
  (void)ro;
  Obj* o = writable(pd);
  Obj* q = keep.get();
  struct B {
    uint8_t c, u;
    E s;
  };
  std::vector<B> t(n);
  for (u64 i = 0; i < n; ++i) t[i] = B{q->byteAt(so + i), (uint8_t)q->undAt(so + i), q->symAt(so + i)};
  for (u64 i = 0; i < n; ++i) {
    if (t[i].u)
      o->setU(dof + i);
    else if (t[i].s)
      o->setS(dof + i, t[i].s);
    else
      o->setC(dof + i, t[i].c);
  }
}

// ------------------------------------------------------------------ concurrency
static void vcJoin(VC& a, const VC& b)
{
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]);
}
static uint32_t vcAt(const VC& a, int i) { return i < (int)a.size() ? a[i] : 0; }
static void vcTick(State& s)
{
  auto& v = s.t().vc;
  if ((int)v.size() <= s.cur) v.resize(s.cur + 1, 0);
  v[s.cur]++;
}
// vector-clock race detection; shadow key: granule*16 + 0 for whole 8-byte granules, + 1 + i for byte i of it
static void raceTouch(State& s, Shadow& sd, bool write)
{
  VC& me = s.t().vc;
  if (sd.wtid >= 0 && sd.wtid != s.cur && sd.wclk > vcAt(me, sd.wtid))
    violate(s, "race", std::string("data race: ") + (write ? "write" : "read") + " after unsynchronised write");
  if (write)
    for (int i = 0; i < (int)sd.r.size(); ++i)
      if (i != s.cur && sd.r[i] > vcAt(me, i)) violate(s, "race", "data race: write after unsynchronised read");
}
static void raceMark(State& s, Shadow& sd, bool write)
{
  VC& me = s.t().vc;
  if (write) {
    sd.wtid = s.cur;
    sd.wclk = vcAt(me, s.cur);
    sd.r.clear();
  } else {
    if ((int)sd.r.size() <= s.cur) sd.r.resize(s.cur + 1, 0);
    sd.r[s.cur] = vcAt(me, s.cur);
  }
}
static void raceCheck(State& s, u64 addr, u64 bytes, bool write)
{
  ObjP* p = findObj(s, addr);
  if (p && ((*p)->ro)) return;
  for (u64 g = addr & ~7ull; g < addr + bytes; g += 8) {
    u64 lo = std::max(addr, g) - g, hi = std::min(addr + bytes, g + 8) - g, key = (g >> 3) * 16;
    if (lo == 0 && hi == 8) {
      for (auto it = s.shadow.lower_bound(key); it != s.shadow.end() && it->first <= key + 8; ++it) raceTouch(s, it->second, write);
      raceMark(s, s.shadow[key], write);
    } else {
      auto it = s.shadow.find(key);
      if (it != s.shadow.end()) raceTouch(s, it->second, write);
      for (u64 i = lo; i < hi; ++i) {
        Shadow& sd = s.shadow[key + 1 + i];
        raceTouch(s, sd, write);
        raceMark(s, sd, write);
      }
    }
  }
}
static E newSym(State& s, const std::string& nm, unsigned w)
{
  int k = s.nameCnt[nm]++;
  std::string full = nm + "#" + std::to_string(k);
  E v = mkVar(full, w);
  s.inputs.push_back({v, full});
  return v;
}
static bool runnable(State& s, int i)
{
  Thread& t = s.th[i];
  switch (t.status) {
    case Thread::Run: return true;
    case Thread::BlockMutex: return s.mtx[t.waitOn].owner < 0;
    case Thread::BlockJoin: return s.th[t.waitOn].status == Thread::Done;
    case Thread::BlockGuard: {
      ObjP* p = findObj(s, t.waitOn);
      return !p || (*p)->byteAt(t.waitOn - (*p)->base + 1) == 0;
    }
    default: return false;
  }
}
// choose a thread to run; forks one sibling per alternative.  `preemptible`: current thread could continue.
// `yield`: the current thread offers to wait; switching is not counted as a preemption, and a thread that has yielded opt.yields times in
// vain lets another one run (fairness)
static void pickThread(State& s, bool preemptible, bool yield = false)
{
  std::vector<int> r;
  if (yield) {
    bool other = false;
    for (int i = 0; i < (int)s.th.size(); ++i) other = other || (i != s.cur && runnable(s, i));
    if (other && s.t().yields >= opt.yields)
      preemptible = false;
    else
      s.t().yields++;
    if (s.t().yields > 50) violate(s, "deadlock", "a thread waits forever");
  }
  if (preemptible) r.push_back(s.cur);
  if (!preemptible || yield || s.preempts < opt.preempt)
    for (int i = 0; i < (int)s.th.size(); ++i)
      if (!((preemptible || yield) && i == s.cur) && runnable(s, i)) r.push_back(i);
  if (r.empty()) violate(s, "deadlock", "all threads blocked");
  int before = s.cur;
  size_t ch = 0;
  if (r.size() > 1) {
    E v = newSym(s, "sched", 8);
    for (size_t k = 1; k < r.size(); ++k) {
      State* o = cloneState(s);
      auto m = std::make_shared<Model>(*s.model);
      m->gen = newModelGen();
      m->v[v->off] = r[k];
      o->model = m;
      addC(*o, mkEq(v, mkConst(r[k], 8)));
      if (preemptible && !yield) o->preempts++;
      if (r[k] != before)
        for (auto& t : o->th) t.yields = 0;
      o->cur = r[k];
      o->th[r[k]].status = Thread::Run;
      o->th[before].schedDone = false;
      if (r[k] != before) o->th[r[k]].schedDone = true;
      work.push_back(o);
    }
    auto m = std::make_shared<Model>(*s.model);
    m->gen = newModelGen();
    m->v[v->off] = r[0];
    s.model = m;
    addC(s, mkEq(v, mkConst(r[0], 8)));
  }
  if (r[ch] != before)
    for (auto& t : s.th) t.yields = 0;
  s.cur = r[ch];
  s.th[s.cur].status = Thread::Run;
  s.th[s.cur].schedDone = true;
}
// returns true if the current instruction should proceed now; false if another thread was switched in.
static bool schedPoint(State& s)
{
  if (s.th.size() < 2) return true;
  if (s.t().schedDone) {
    s.t().schedDone = false;
    return true;
  }
  int before = s.cur;
  pickThread(s, true);
  if (s.cur == before) {
    s.t().schedDone = false;
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ calls
static void pushFrame(State& s, KFunc* kf, const std::vector<Val>& args)
{
  sh->fcov[kf->idx & 65535] = 1;
  if (s.t().st.size() > 2000) violate(s, "memory", "stack overflow (recursion deeper than 2000 frames)");
  s.t().st.emplace_back();
  Frame& f = s.t().st.back();
  f.kf = kf;
  f.loc.resize(kf->nslots);
  unsigned np = kf->F->arg_size();
  for (unsigned i = 0; i < np && i < args.size(); ++i) {
    if (kf->F->hasParamAttribute(i, Attribute::ByVal)) {
      Type* t = kf->F->getParamByValType(i);
      u64 sz = DL->getTypeAllocSize(t);
      u64 a = allocObj(s, sz, OStack, "byval");
      Frame& f2 = s.t().st.back();
      copyBytes(s, CV(a), args[i], sz, false);
      f2.allocas.push_back(a);
      f2.loc[i] = CV(a);
    } else
      f.loc[i] = args[i];
  }
  if (kf->F->isVarArg())
    for (unsigned i = np; i < args.size(); ++i) s.t().st.back().varargs.push_back(args[i]);
}
static void popFrame(State& s)
{
  Frame& f = s.f();
  for (u64 a : f.allocas) s.mem.erase(a);
  u64 fr = f.freeOnRet;
  s.t().st.pop_back();
  if (fr) {
    s.mem.erase(fr);
    s.exc.erase(fr);
  }
}
static inline Val& setDest(State& s, const KInst& k, const Val& v)
{
  Val& d = s.f().loc[k.dest];
  d = v;
  return d;
}
static void gotoBB(State& s, int target, const BasicBlock* from)
{
  Frame& f = s.f();
  KFunc* kf = f.kf;
  int pc = target;
  // phis
  static std::vector<std::pair<int, Val>> tmp;
  tmp.clear();
  while (kf->insts[pc].opc == Instruction::PHI) {
    const KInst& k = kf->insts[pc];
    auto* phi = cast<PHINode>(k.I);
    int idx = phi->getBasicBlockIndex(from);
    int o = k.ops[idx];
    tmp.push_back({k.dest, o >= 0 ? f.loc[o] : consts[~o]});
    ++pc;
  }
  for (auto& p : tmp) f.loc[p.first] = p.second;
  f.pc = pc;
}
// after a call/invoke at the current pc of the top frame completed with value v
static void finishCall(State& s, const Val& v)
{
  Frame& f = s.f();
  const KInst& k = f.kf->insts[f.pc];
  if (k.dest >= 0) f.loc[k.dest] = v;
  if (k.opc == Instruction::Invoke)
    gotoBB(s, k.succ[0], k.I->getParent());
  else
    f.pc++;
}

// ---- RTTI
static u64 rd64(State& s, u64 a)
{
  Val v = loadW(s, CV(a), 8, 64);
  return concretize(s, v, 64);
}
static bool extIs(u64 a, const char* n)
{
  auto it = extName.find(a);
  return it != extName.end() && it->second == n;
}
static int tiKind(State& s, u64 ti)
{
  u64 vp = rd64(s, ti) - 16;
  if (extIs(vp, "_ZTVN10__cxxabiv120__si_class_type_infoE")) return 1;
  if (extIs(vp, "_ZTVN10__cxxabiv121__vmi_class_type_infoE")) return 2;
  return 0;
}
// find base `want` inside type ti at offset off (of object at addr obj; for virtual bases)
static bool tiFind(State& s, u64 ti, u64 want, u64 obj, u64 off, u64& outOff)
{
  if (ti == want) {
    outOff = off;
    return true;
  }
  int k = tiKind(s, ti);
  if (k == 1) return tiFind(s, rd64(s, ti + 16), want, obj, off, outOff);
  if (k == 2) {
    uint32_t n = (uint32_t)(rd64(s, ti + 16) >> 32);
    for (uint32_t i = 0; i < n; ++i) {
      u64 b = rd64(s, ti + 24 + 16 * i);
      int64_t fl = (int64_t)rd64(s, ti + 32 + 16 * i);
      int64_t bo = fl >> 8;
      if (fl & 1) {
        if (!obj) continue;
        u64 vp = rd64(s, obj + off);
        bo = (int64_t)rd64(s, vp + bo);
      }
      if (tiFind(s, b, want, obj, off + bo, outOff)) return true;
    }
  }
  return false;
}
static std::map<u64, int> typeIds;
static int typeId(u64 ti)
{
  auto it = typeIds.find(ti);
  if (it != typeIds.end()) return it->second;
  int n = typeIds.size() + 1;
  typeIds[ti] = n;
  return n;
}
// landingpad decision: returns selector; sets enter=false if not entered
static bool lpMatch(State& s, LandingPadInst* lp, const KInst& lk, Frame& fr, u64 exc, int& sel, bool& handler)
{
  ExcRec& er = s.exc[exc];
  handler = false;
  for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
    if (lp->isCatch(i)) {
      u64 ti = consts[~lk.ops[i]].c;
      u64 o;
      if (ti == 0 || tiFind(s, er.ti, ti, 0, 0, o)) {
        sel = typeId(ti);
        handler = true;
        return true;
      }
    } else {
      auto* c = cast<Constant>(lp->getClause(i));
      unsigned n = cast<ArrayType>(c->getType())->getNumElements();
      bool allowed = false;
      for (unsigned j = 0; j < n; ++j) {
        auto* el = c->getAggregateElement(j);
        u64 ti = 0;
        if (auto* gv = dyn_cast<GlobalValue>(el->stripPointerCasts())) ti = gaddr[gv];
        u64 o;
        if (tiFind(s, er.ti, ti, 0, 0, o)) allowed = true;
      }
      if (!allowed) {
        sel = -1;
        handler = true;
        return true;
      }
    }
  }
  if (lp->isCleanup()) {
    sel = 0;
    return true;
  }
  return false;
}
static LandingPadInst* lpOf(const KInst& k) { return cast<InvokeInst>(k.I)->getLandingPadInst(); }
static const KInst& lpKInst(KFunc* kf, LandingPadInst* lp)
{
  int pc = kf->bb[lp->getParent()];
  while (kf->insts[pc].I != lp) ++pc;
  return kf->insts[pc];
}
static std::string tiName(State& s, u64 ti) { return demangle("_ZTS" + readStr(s, rd64(s, ti + 8))); }

// unwind exception `exc`, starting at the current frame's current instruction
static void unwind(State& s, u64 exc, bool checkCur)
{
  Thread& t = s.t();
  // phase 1
  bool found = false;
  for (int i = (int)t.st.size() - 1; i >= 0 && !found; --i) {
    if (i == (int)t.st.size() - 1 && !checkCur) continue;
    Frame& f = t.st[i];
    const KInst& k = f.kf->insts[f.pc];
    if (k.opc == Instruction::Invoke) {
      int sel;
      bool h;
      auto* lp = lpOf(k);
      if (lpMatch(s, lp, lpKInst(f.kf, lp), f, exc, sel, h) && h) found = true;
    }
    if (f.noCaller && i > 0) break;
  }
  if (!found) violate(s, "terminate", "uncaught exception of type " + tiName(s, s.exc[exc].ti) + " (std::terminate)");
  bool first = true;
  for (;;) {
    if (!(first && !checkCur)) {
      Frame& f = s.f();
      const KInst& k = f.kf->insts[f.pc];
      if (k.opc == Instruction::Invoke) {
        auto* lp = lpOf(k);
        int sel;
        bool h;
        const KInst& lk = lpKInst(f.kf, lp);
        if (lpMatch(s, lp, lk, f, exc, sel, h)) {
          gotoBB(s, f.kf->bb[lp->getParent()], k.I->getParent());
          Frame& f2 = s.f();
          // now at landingpad
          while (f2.kf->insts[f2.pc].I != lp) f2.pc++;
          auto* v = new std::vector<Val>{CV(exc), CV((uint32_t)sel)};
          Val a;
          a.agg = v;
          f2.loc[lk.dest] = a;
          f2.pc++;
          return;
        }
      }
    }
    first = false;
    popFrame(s);
    if (s.t().st.empty()) fatal("unwound past the last frame");
  }
}

// ------------------------------------------------------------------ external / native functions
typedef std::function<void(State&, CallBase*, std::vector<Val>&)> Native;
static std::unordered_map<std::string, Native> natives;

static void endThread(State& s)
{
  Thread& t = s.t();
  t.status = Thread::Done;
  if (s.cur == 0) {
    s.done = true;
    return;
  }
  vcTick(s);
  pickThread(s, false);
}

static u64 errnoCell(State& s)
{
  if (!s.errnoAddr) s.errnoAddr = allocObj(s, 8 * 16, OGlobal, "errno", 16, true);  // one per thread
  return s.errnoAddr + 8 * (s.cur & 15);
}
static Val noMem(State& s)
{
  storeW(s, CV(errnoCell(s)), CV(12), 4, 32);  // ENOMEM
  return CV(0);
}
static Val doMalloc(State& s, const Val& n, const char* nm, bool zero, u64 align = 16, int fam = 0)
{
  if (!n.e) {
    if (n.c > (1ull << 31)) return noMem(s);  // larger than the modelled heap: malloc returns NULL
    u64 a = allocObj(s, n.c, OHeap, nm, align, zero);
    s.mem[a]->allocFam = fam;
    return CV(a);
  }
  u64 cap = s.mallocCap ? s.mallocCap : opt.mallocCap;
  E le = mkBin(K::Ule, n.e, mkConst(cap, 64));
  if (!branch(s, le)) return noMem(s);
  u64 a = allocObj(s, cap, OHeap, nm, align, zero);
  s.mem[a]->symSize = n.e;
  s.mem[a]->allocFam = fam;
  return CV(a);
}
static void doFree(State& s, const Val& p, int fam)
{
  u64 a = concretize(s, p, 64);
  if (!a) return;
  auto it = s.mem.find(a);
  if (it == s.mem.end() || it->second->kind != OHeap) {
    auto fr = s.freed.find(a);
    violate(s, "memory", fr != s.freed.end() ? "double free" : "free of an invalid pointer");
  }
  if (s.raceOn) raceCheck(s, a, std::min<u64>(it->second->size, 4096), true);
  s.freed[a] = it->second->size;
  s.mem.erase(it);
  s.heapLive--;
}
static std::string argStr(State& s, const Val& v) { return readStr(s, concretize(s, v, 64)); }

static void doAssert(State& s, const Val& v, unsigned w, const std::string& msg, const char* kind = "assert")
{
  sh->asserts++;
  int idx = assertIdx(msg);
  sh->assertHits[idx]++;
  if (!v.e) {
    if (!(v.c & msk(w))) violate(s, kind, msg);
    return;
  }
  sh->assertsSym++;
  E c = mkNot(mkEq(v.e, mkConst(0, w)));
  ModelP m;
  if (maySat(s, mkNot(c), m)) {
    reportViolation(s, kind, msg, m);
    // continue with the good side if possible
    if (!maySat(s, c, m)) throw EndPath{};
    s.model = m;
    addC(s, c);
  }
}
static void mutexLock(State& s, u64 m, bool recursive)
{
  MutexSt& ms = s.mtx[m];
  ms.owner = s.cur;
  ms.depth = 1;
  vcJoin(s.t().vc, ms.vc);
}

static void setupNatives()
{
  auto R = [](const char* n, Native f) { natives[n] = f; };
  // ---- harness API
  auto mkSym = [](unsigned w) {
    return [w](State& s, CallBase*, std::vector<Val>& a) {
      std::string nm = argStr(s, a[0]);
      for (auto& c : nm)
        if (isspace(c)) c = '_';
      auto fx = opt.fix.find(nm + "#" + std::to_string(s.nameCnt[nm]));
      E v = newSym(s, nm, w);
      sh->symVars++;
      if (fx != opt.fix.end()) {
        E eq = mkEq(v, mkConst(fx->second, w));
        ModelP m;
        if (!maySat(s, eq, m)) throw EndPath{};
        s.model = m;
        addC(s, eq);
      }
      finishCall(s, EV(v));
    };
  };
  R("sym_u64", mkSym(64));
  R("sym_u32", mkSym(32));
  R("sym_u8", mkSym(8));
  R("sym_assume", [](State& s, CallBase* cb, std::vector<Val>& a) {
    if (!a[0].e) {
      if (!(uint32_t)a[0].c) {
        sh->infeasible++;
        throw EndPath{};
      }
    } else {
      E c = mkNot(mkEq(a[0].e, mkConst(0, 32)));
      ModelP m;
      if (!maySat(s, c, m)) {
        sh->infeasible++;
        throw EndPath{};
      }
      s.model = m;
      addC(s, c);
    }
    finishCall(s, Val());
  });
  R("sym_assert", [](State& s, CallBase*, std::vector<Val>& a) {
    doAssert(s, a[0], 32, argStr(s, a[1]));
    finishCall(s, Val());
  });
  R("sym_concretize", [](State& s, CallBase*, std::vector<Val>& a) {
    u64 v = concretize(s, a[0], 64);
    finishCall(s, CV(v));
  });
  R("sym_known", [](State& s, CallBase*, std::vector<Val>& a) {  // is the condition true on this whole path?
    bool r;
    if (!a[0].e)
      r = (uint32_t)a[0].c != 0;
    else {
      ModelP m;
      r = !maySat(s, mkEq(a[0].e, mkConst(0, 32)), m);
    }
    finishCall(s, CV(r));
  });
  R("sym_cover", [](State& s, CallBase*, std::vector<Val>& a) {
    int i = namedIdx(sh->coverName, sh->ncover, argStr(s, a[0]), 256);
    sh->coverHits[i]++;
    finishCall(s, Val());
  });
  R("sym_trace", [](State& s, CallBase*, std::vector<Val>& a) {
    std::string v = a[1].e ? exprStr(a[1].e, 8) + " ~ " + hex((u64)evalE(a[1].e, *s.model)) : hex(a[1].c);
    s.trace.push_back(argStr(s, a[0]) + " = " + v);
    if (opt.verbose) fprintf(stderr, "TRACE %s\n", s.trace.back().c_str());
    finishCall(s, Val());
  });
  R("sym_is_native", [](State& s, CallBase*, std::vector<Val>& a) { finishCall(s, CV(0)); });
  R("sym_is_concrete", [](State& s, CallBase*, std::vector<Val>& a) { finishCall(s, CV(a[0].e ? 0 : 1)); });
  R("sym_config", [](State& s, CallBase*, std::vector<Val>& a) {
    auto it = opt.cfg.find(argStr(s, a[0]));
    finishCall(s, it == opt.cfg.end() ? a[1] : CV(it->second));
  });
  R("sym_end_path", [](State& s, CallBase*, std::vector<Val>& a) { throw EndPath{}; });
  R("sym_fail", [](State& s, CallBase*, std::vector<Val>& a) { violate(s, "assert", argStr(s, a[0])); });
  R("sym_heap_live", [](State& s, CallBase*, std::vector<Val>& a) { finishCall(s, CV(s.heapLive)); });
  R("sym_malloc_cap", [](State& s, CallBase*, std::vector<Val>& a) {
    s.mallocCap = a[0].c;
    finishCall(s, Val());
  });
  R("sym_malloc_may_fail", [](State& s, CallBase*, std::vector<Val>& a) {
    s.mallocFail = (int)a[0].c;
    finishCall(s, Val());
  });
  // is [p, p+n) inside one live object?
  R("sym_valid", [](State& s, CallBase*, std::vector<Val>& a) {
    u64 p = concretize(s, a[0], 64);
    ObjP* o = findObj(s, p);
    if (!o) {
      finishCall(s, CV(0));
      return;
    }
    E lim = (*o)->symSize ? (*o)->symSize : mkConst((*o)->size, 64);
    E off = mkConst(p - (*o)->base, 64);
    E n = toE(a[1], 64);
    E ok = mkAnd1(mkBin(K::Ule, off, lim), mkBin(K::Ule, n, mkSub(lim, off)));
    finishCall(s, EV(mkZExt(ok, 32)));
  });
  // ---- threads
  R("sym_thread_create", [](State& s, CallBase*, std::vector<Val>& a) {
    u64 fa = concretize(s, a[0], 64);
    auto it = funcByAddr.find(fa);
    if (it == funcByAddr.end()) fatal("thread start is not a function");
    int id = s.th.size();
    finishCall(s, CV(id));
    s.raceOn = true;
    vcTick(s);
    Thread nt;
    nt.vc = s.t().vc;
    s.th.push_back(nt);
    int old = s.cur;
    s.cur = id;
    vcTick(s);
    pushFrame(s, kfuncs[it->second], {a[1]});
    s.f().noCaller = true;
    s.cur = old;
    s.t().schedDone = false;
  });
  R("sym_thread_join", [](State& s, CallBase*, std::vector<Val>& a) {
    int id = (int)a[0].c;
    if (s.th[id].status != Thread::Done) {
      s.t().status = Thread::BlockJoin;
      s.t().waitOn = id;
      s.t().schedDone = false;
      pickThread(s, false);
      return;
    }
    vcJoin(s.t().vc, s.th[id].vc);
    s.t().schedDone = false;
    bool all = true;
    for (size_t i = 1; i < s.th.size(); ++i)
      if (s.th[i].status != Thread::Done) all = false;
    if (all) {
      s.raceOn = false;
      s.shadow.clear();
    }
    finishCall(s, Val());
  });
  auto lockFn = [](State& s, CallBase*, std::vector<Val>& a) {
    u64 m = concretize(s, a[0], 64);
    if (!schedPoint(s)) return;
    MutexSt& ms = s.mtx[m];
    if (ms.owner == s.cur) {
      // recursive mutex (PTHREAD_MUTEX_RECURSIVE_NP == 1 in __kind at offset 16)
      Val kd = loadW(s, CV(m + 16), 4, 32);
      if (!kd.e && kd.c == 1) {
        ms.depth++;
        finishCall(s, CV(0));
        return;
      }
      violate(s, "deadlock", "self-deadlock: locking a mutex the thread already holds");
    }
    if (ms.owner >= 0) {
      s.t().status = Thread::BlockMutex;
      s.t().waitOn = m;
      pickThread(s, false);
      return;
    }
    mutexLock(s, m, false);
    finishCall(s, CV(0));
  };
  auto unlockFn = [](State& s, CallBase*, std::vector<Val>& a) {
    u64 m = concretize(s, a[0], 64);
    MutexSt& ms = s.mtx[m];
    if (ms.owner != s.cur) violate(s, "assert", "unlock of a mutex not held by this thread");
    if (--ms.depth == 0) {
      ms.owner = -1;
      ms.vc = s.t().vc;
      vcTick(s);
    }
    finishCall(s, CV(0));
  };
  R("pthread_mutex_lock", lockFn);
  R("pthread_mutex_unlock", unlockFn);
  R("pthread_mutex_trylock", [](State& s, CallBase*, std::vector<Val>& a) {
    u64 m = concretize(s, a[0], 64);
    if (!schedPoint(s)) return;
    MutexSt& ms = s.mtx[m];
    if (ms.owner >= 0) {
      finishCall(s, CV(16));
      return;
    }
    mutexLock(s, m, false);
    finishCall(s, CV(0));
  });
  R("pthread_rwlock_wrlock", lockFn);
  R("pthread_rwlock_rdlock", lockFn);
  R("pthread_rwlock_unlock", unlockFn);
  auto ret0 = [](State& s, CallBase*, std::vector<Val>& a) { finishCall(s, CV(0)); };
  for (const char* n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init",
                        "pthread_mutexattr_settype", "pthread_mutexattr_setpshared", "pthread_mutexattr_destroy",
                        "pthread_rwlock_init", "pthread_rwlock_destroy"})
    R(n, ret0);
  R("sched_yield", [](State& s, CallBase*, std::vector<Val>& a) {
    if (s.th.size() > 1 && !s.t().schedDone) {
      const int before = s.cur;
      pickThread(s, true, true);
      if (s.cur != before) return;
    }
    s.t().schedDone = false;
    finishCall(s, CV(0));
  });
  if (!opt.cfg.count("atexit"))
    for (const char* n : {"__cxa_atexit", "atexit"}) R(n, ret0);
  R("__pthread_key_create", ret0);
  R("pthread_self", [](State& s, CallBase*, std::vector<Val>& a) { finishCall(s, CV(0x1000 + s.cur)); });
  R("__cxa_guard_acquire", [](State& s, CallBase*, std::vector<Val>& a) {
    u64 g = a[0].c;
    if (!schedPoint(s)) return;
    bool ro = s.raceOn;
    s.raceOn = false;
    Val v = loadW(s, CV(g), 1, 8);
    Val inp = loadW(s, CV(g + 1), 1, 8);
    if (v.c) {
      s.raceOn = ro;
      vcJoin(s.t().vc, s.atomVC[g]);
      finishCall(s, CV(0));
      return;
    }
    if (inp.c) {
      s.raceOn = ro;
      s.t().status = Thread::BlockGuard;
      s.t().waitOn = g;
      pickThread(s, false);
      return;
    }
    storeW(s, CV(g + 1), CV(1), 1, 8);
    s.raceOn = ro;
    finishCall(s, CV(1));
  });
  R("__cxa_guard_release", [](State& s, CallBase*, std::vector<Val>& a) {
    bool ro = s.raceOn;
    s.raceOn = false;
    storeW(s, CV(a[0].c), CV(1), 1, 8);
    storeW(s, CV(a[0].c + 1), CV(0), 1, 8);
    s.raceOn = ro;
    s.atomVC[a[0].c] = s.t().vc;
    vcTick(s);
    finishCall(s, Val());
  });
  R("__cxa_guard_abort", [](State& s, CallBase*, std::vector<Val>& a) {
    bool ro = s.raceOn;
    s.raceOn = false;
    storeW(s, CV(a[0].c + 1), CV(0), 1, 8);
    s.raceOn = ro;
    finishCall(s, Val());
  });
  // ---- heap
  R("malloc", [](State& s, CallBase*, std::vector<Val>& a) {
    Val r = doMalloc(s, a[0], "malloc", false);
    finishCall(s, r);
  });
  R("calloc", [](State& s, CallBase*, std::vector<Val>& a) {
    Val n = (!a[0].e && !a[1].e) ? CV(a[0].c * a[1].c) : EV(mkBin(K::Mul, toE(a[0], 64), toE(a[1], 64)));
    Val r = doMalloc(s, n, "calloc", true);
    finishCall(s, r);
  });
  R("free", [](State& s, CallBase*, std::vector<Val>& a) {
    doFree(s, a[0], 0);
    finishCall(s, Val());
  });
  R("realloc", [](State& s, CallBase*, std::vector<Val>& a) {
    u64 p = concretize(s, a[0], 64);
    if (!p) {
      Val r = doMalloc(s, a[1], "realloc", false);
      finishCall(s, r);
      return;
    }
    auto it = s.mem.find(p);
    if (it == s.mem.end() || it->second->kind != OHeap) violate(s, "memory", "realloc of an invalid pointer");
    Val r = doMalloc(s, a[1], "realloc", false);
    if (r.c) {
      // copy min(old,new); all capacity bytes are carried over, sizes bound what may be read
      ObjP src = s.mem[p];
      Obj* d = s.mem[r.c].get();
      u64 n = std::min(src->size, d->size);
      for (u64 i = 0; i < n; ++i) {
        if (src->undAt(i)) continue;
        if (E e = src->symAt(i))
          d->setS(i, e);
        else
          d->setC(i, src->byteAt(i));
      }
      doFree(s, CV(p), 0);
    }
    finishCall(s, r);
  });
  R("aligned_alloc", [](State& s, CallBase*, std::vector<Val>& a) {
    Val r = doMalloc(s, a[1], "aligned_alloc", false, concretize(s, a[0], 64));
    finishCall(s, r);
  });
  R("posix_memalign", [](State& s, CallBase*, std::vector<Val>& a) {
    u64 al = concretize(s, a[1], 64);
    Val r = doMalloc(s, a[2], "posix_memalign", false, al);
    if (!r.c) {
      finishCall(s, CV(12));
      return;
    }
    storeW(s, a[0], r, 8, 64);
    finishCall(s, CV(0));
  });
  // ---- mem*
  auto mem = [](bool move) {
    return [](State& s, CallBase* cb, std::vector<Val>& a) {
      u64 n = concretize(s, a[2], 64);
      copyBytes(s, a[0], a[1], n, true);
      finishCall(s, a[0]);
    };
  };
  R("memcpy", mem(false));
  R("memmove", mem(true));
  R("memset", [](State& s, CallBase* cb, std::vector<Val>& a) {
    u64 n = concretize(s, a[2], 64);
    if (n) {
      u64 off;
      E so;
      Val d = a[0];
      if (d.e) d = CV(concretize(s, d, 64));
      ObjP& p = resolve(s, d, n, true, off, so);
      Val b = a[1];
      if (b.e) b = EV(mkExtract(b.e, 0, 8));
      b.c &= 0xff;
      if (b.e) {
        for (u64 i = 0; i < n; ++i) writeObj(s, p, off + i, b, 1, 8);
      } else {
        Obj* o = writable(p);
        for (u64 i = 0; i < n; ++i) o->setC(off + i, (uint8_t)b.c);
      }
    }
    finishCall(s, a[0]);
  });
  // ---- exceptions
  R("__cxa_allocate_exception", [](State& s, CallBase*, std::vector<Val>& a) {
    u64 p = allocObj(s, a[0].c, OExc, "exception");
    finishCall(s, CV(p));
  });
  R("__cxa_free_exception", [](State& s, CallBase*, std::vector<Val>& a) {
    s.mem.erase(a[0].c);
    s.exc.erase(a[0].c);
    finishCall(s, Val());
  });
  R("__cxa_throw", [](State& s, CallBase*, std::vector<Val>& a) {
    ExcRec r;
    r.ti = a[1].c;
    r.dtor = a[2].c;
    s.exc[a[0].c] = r;
    unwind(s, a[0].c, true);
  });
  R("__cxa_begin_catch", [](State& s, CallBase*, std::vector<Val>& a) {
    u64 e = a[0].c;
    s.exc[e].handlers++;
    s.exc[e].rethrown = false;
    s.t().caught.push_back(e);
    finishCall(s, CV(e));
  });
  R("__cxa_get_exception_ptr", [](State& s, CallBase*, std::vector<Val>& a) { finishCall(s, a[0]); });
  R("__cxa_end_catch", [](State& s, CallBase*, std::vector<Val>& a) {
    if (s.t().caught.empty()) fatal("end_catch without caught exception");
    u64 e = s.t().caught.back();
    s.t().caught.pop_back();
    ExcRec& er = s.exc[e];
    er.handlers--;
    finishCall(s, Val());
    if (er.handlers == 0 && !er.rethrown) {
      auto it = funcByAddr.find(er.dtor);
      if (er.dtor && it != funcByAddr.end() && !it->second->isDeclaration()) {
        pushFrame(s, kfuncs[it->second], {CV(e)});
        s.f().noCaller = true;
        s.f().freeOnRet = e;
      } else {
        s.mem.erase(e);
        s.exc.erase(e);
      }
    }
  });
  R("__cxa_rethrow", [](State& s, CallBase*, std::vector<Val>& a) {
    if (s.t().caught.empty()) violate(s, "terminate", "rethrow without an active exception");
    u64 e = s.t().caught.back();
    s.exc[e].rethrown = true;
    unwind(s, e, true);
  });
  R("_ZSt9terminatev", [](State& s, CallBase*, std::vector<Val>& a) { violate(s, "terminate", "std::terminate called"); });
  R("abort", [](State& s, CallBase*, std::vector<Val>& a) { violate(s, "terminate", "abort called"); });
  R("exit", [](State& s, CallBase*, std::vector<Val>& a) { violate(s, "terminate", "exit called"); });
  R("__assert_fail", [](State& s, CallBase*, std::vector<Val>& a) {
    violate(s, "terminate", "assert failed: " + argStr(s, a[0]));
  });
  R("__cxa_pure_virtual", [](State& s, CallBase*, std::vector<Val>& a) { violate(s, "terminate", "pure virtual call"); });
  R("__dynamic_cast", [](State& s, CallBase*, std::vector<Val>& a) {
    u64 p = concretize(s, a[0], 64);
    u64 dst = a[2].c;
    u64 vp = rd64(s, p);
    int64_t ott = (int64_t)rd64(s, vp - 16);
    u64 ti = rd64(s, vp - 8);
    u64 obj = p + ott;
    u64 off;
    if (tiFind(s, ti, dst, obj, 0, off))
      finishCall(s, CV(obj + off));
    else
      finishCall(s, CV(0));
  });
  R("__errno_location", [](State& s, CallBase*, std::vector<Val>& a) {
    finishCall(s, CV(errnoCell(s)));
  });
  // where the output goes is not followed, except in the run that is about it
  if (!opt.cfg.count("streams")) {
    R("_ZN6umpire4util11flush_filesEv", ret0);
    R("_ZN6umpire4util13initialize_ioEb", ret0);
    R("_ZN6umpire4util11finalize_ioEv", ret0);
  }
  R("getpid", [](State& s, CallBase*, std::vector<Val>& a) { finishCall(s, CV(4242)); });
  R("backtrace", ret0);
  R("backtrace_symbols", ret0);
}

static bool streamStub(State& s, Function* F, CallBase* cb, std::vector<Val>& a)
{
  // iostream / locale machinery that is only declared (extern templates): output is not modelled.
  static std::unordered_map<Function*, int> kind;  // 1: return arg0, 2: empty string sret, 3: ret zero/void
  auto it = kind.find(F);
  int k = 0;
  if (it != kind.end())
    k = it->second;
  else {
    std::string d = demangle(F->getName().str());
    auto has = [&](const char* x) { return d.find(x) != std::string::npos; };
    bool st = has("std::basic_ostream") || has("std::basic_stringstream") || has("std::__cxx11::basic_stringstream") ||
              has("basic_ostringstream") || has("basic_istringstream") || has("std::ostream") || has("std::ios_base") ||
              has("std::basic_ios") || has("std::basic_istream") || has("std::locale") || has("basic_ofstream") ||
              has("basic_ifstream") || has("basic_filebuf") || has("basic_stringbuf") || has("basic_streambuf") ||
              has("std::chrono::") || has("std::_Setw") || has("std::ostream&");
    if (st) {
      if (has("::str() const"))
        k = 2;
      else if (F->getReturnType()->isPointerTy())
        k = 1;
      else
        k = 3;
    }
    kind[F] = k;
  }
  if (!k) return false;
  if (k == 2) {
    // std::string at sret: {ptr, size, sso buf}
    u64 p = concretize(s, a[0], 64);
    storeW(s, CV(p), CV(p + 16), 8, 64);
    storeW(s, CV(p + 8), CV(0), 8, 64);
    storeW(s, CV(p + 16), CV(0), 1, 8);
    finishCall(s, Val());
  } else if (k == 1)
    finishCall(s, a.empty() ? CV(0) : a[0]);
  else
    finishCall(s, CV(0));
  return true;
}

static void callFunction(State& s, Function* F, CallBase* cb, std::vector<Val>& args)
{
  auto n = natives.find(F->getName().str());
  if (n != natives.end() ) {
    n->second(s, cb, args);
    return;
  }
  if (!F->isDeclaration()) {
    pushFrame(s, kfuncs[F], args);
    return;
  }
  if (streamStub(s, F, cb, args)) return;
  fatal("call to undefined external function " + F->getName().str() + " (" + demangle(F->getName().str()) + ")\n" +
        where(s));
}

static void execIntrinsic(State& s, IntrinsicInst* I, const KInst& k, std::vector<Val>& a)
{
  auto fin = [&](const Val& v) { finishCall(s, v); };
  unsigned w = tw(I->getType());
  switch (I->getIntrinsicID()) {
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::donothing:
    case Intrinsic::prefetch:
    case Intrinsic::var_annotation:
    case Intrinsic::assume:
    case Intrinsic::stackrestore: fin(Val()); return;
    case Intrinsic::stacksave: fin(CV(0)); return;
    case Intrinsic::expect:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::annotation:
    case Intrinsic::ptr_annotation: fin(a[0]); return;
    case Intrinsic::is_constant: fin(CV(0)); return;
    case Intrinsic::objectsize: fin(CV(~0ull)); return;
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: {
      u64 n = concretize(s, a[2], 64);
      copyBytes(s, a[0], a[1], n, true);
      fin(Val());
      return;
    }
    case Intrinsic::memset: {
      natives["memset"](s, I, a);
      return;
    }
    case Intrinsic::threadlocal_address: {
      if (s.cur == 0) {
        fin(a[0]);
        return;
      }
      u64& p = s.tls[{s.cur, a[0].c}];
      if (!p) {
        auto* g = dyn_cast<GlobalVariable>(I->getArgOperand(0));
        if (!g || !g->hasInitializer() || !g->getInitializer()->isNullValue()) fatal("thread_local variable with an initial value");
        p = allocObj(s, DL->getTypeAllocSize(g->getValueType()), OGlobal, "tls", 16, true);
      }
      fin(CV(p));
      return;
    }
    case Intrinsic::eh_typeid_for: fin(CV(typeId(a[0].c))); return;
    case Intrinsic::trap:
    case Intrinsic::ubsantrap: violate(s, "terminate", "trap"); return;
    case Intrinsic::umul_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow: {
      unsigned ow = tw(I->getArgOperand(0)->getType());
      E x = toE(a[0], ow), y = toE(a[1], ow);
      bool sg = I->getIntrinsicID() == Intrinsic::smul_with_overflow || I->getIntrinsicID() == Intrinsic::sadd_with_overflow ||
                I->getIntrinsicID() == Intrinsic::ssub_with_overflow;
      unsigned ww = ow * 2 > 128 ? 128 : ow * 2;
      E X = sg ? mkSExt(x, ww) : mkZExt(x, ww), Y = sg ? mkSExt(y, ww) : mkZExt(y, ww);
      E r;
      switch (I->getIntrinsicID()) {
        case Intrinsic::umul_with_overflow:
        case Intrinsic::smul_with_overflow: r = mkBin(K::Mul, X, Y); break;
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::sadd_with_overflow: r = mkAdd(X, Y); break;
        default: r = mkSub(X, Y);
      }
      E lo = mkExtract(r, 0, ow);
      E ov = mkNot(mkEq(r, sg ? mkSExt(lo, ww) : mkZExt(lo, ww)));
      Val v;
      v.agg = new std::vector<Val>{EV(lo), EV(ov)};
      fin(v);
      return;
    }
    case Intrinsic::umax:
    case Intrinsic::umin:
    case Intrinsic::smax:
    case Intrinsic::smin: {
      E x = toE(a[0], w), y = toE(a[1], w);
      K c = (I->getIntrinsicID() == Intrinsic::umax || I->getIntrinsicID() == Intrinsic::umin) ? K::Ult : K::Slt;
      bool mx = I->getIntrinsicID() == Intrinsic::umax || I->getIntrinsicID() == Intrinsic::smax;
      E lt = mkBin(c, x, y);
      fin(EV(mx ? mkIte(lt, y, x) : mkIte(lt, x, y)));
      return;
    }
    case Intrinsic::usub_sat: {
      E x = toE(a[0], w), y = toE(a[1], w);
      fin(EV(mkIte(mkBin(K::Ult, x, y), mkConst(0, w), mkSub(x, y))));
      return;
    }
    case Intrinsic::uadd_sat: {
      E x = toE(a[0], w), y = toE(a[1], w);
      E r = mkAdd(x, y);
      fin(EV(mkIte(mkBin(K::Ult, r, x), mkConst(~(u128)0, w), r)));
      return;
    }
    case Intrinsic::abs: {
      E x = toE(a[0], w);
      fin(EV(mkIte(mkBin(K::Slt, x, mkConst(0, w)), mkSub(mkConst(0, w), x), x)));
      return;
    }
    case Intrinsic::fabs: {
      E x = toE(a[0], w);
      fin(EV(mkBin(K::And, x, mkConst(maskw(w - 1), w))));
      return;
    }
    case Intrinsic::ctlz:
    case Intrinsic::cttz: {
      E x = toE(a[0], w);
      E r = mkConst(w, w);
      bool lz = I->getIntrinsicID() == Intrinsic::ctlz;
      for (unsigned i = 0; i < w; ++i) {
        unsigned bit = lz ? i : w - 1 - i;
        E isSet = mkExtract(x, bit, 1);
        r = mkIte(isSet, mkConst(lz ? w - 1 - bit : bit, w), r);
      }
      fin(EV(r));
      return;
    }
    case Intrinsic::ctpop: {
      E x = toE(a[0], w);
      E r = mkConst(0, w);
      for (unsigned i = 0; i < w; ++i) r = mkAdd(r, mkZExt(mkExtract(x, i, 1), w));
      fin(EV(r));
      return;
    }
    case Intrinsic::bswap: {
      E x = toE(a[0], w);
      E r = mkExtract(x, 0, 8);
      for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8));
      fin(EV(r));
      return;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      E x = toE(a[0], w), y = toE(a[1], w);
      u64 sft = concretize(s, a[2], w) % w;
      E cc = mkConcat(x, y);
      if (I->getIntrinsicID() == Intrinsic::fshl)
        fin(EV(mkExtract(cc, w - (unsigned)sft, w)));
      else
        fin(EV(mkExtract(cc, (unsigned)sft, w)));
      return;
    }
    case Intrinsic::vastart: {
      // va_list: {gp_offset, fp_offset, overflow_area, reg_save}; all varargs in overflow area
      auto& va = s.f().varargs;
      u64 n = va.size() * 8;
      u64 p = allocObj(s, n ? n : 8, OStack, "varargs");
      s.f().allocas.push_back(p);
      for (size_t i = 0; i < va.size(); ++i) {
        Val x = va[i];
        if (x.e && x.e->w != 64) x = EV(mkZExt(x.e, 64));
        storeW(s, CV(p + 8 * i), x, 8, 64);
      }
      storeW(s, a[0], CV(48), 4, 32);
      storeW(s, addC64(a[0], 4), CV(304), 4, 32);
      storeW(s, addC64(a[0], 8), CV(p), 8, 64);
      storeW(s, addC64(a[0], 16), CV(0), 8, 64);
      fin(Val());
      return;
    }
    case Intrinsic::vaend: fin(Val()); return;
    case Intrinsic::vacopy:
      copyBytes(s, a[0], a[1], 24, false);
      fin(Val());
      return;
    case Intrinsic::fmuladd: {
      E r = mkFP(K::FAdd, mkFP(K::FMul, toE(a[0], w), toE(a[1], w), w), toE(a[2], w), w);
      fin(EV(r));
      return;
    }
    case Intrinsic::ceil:
    case Intrinsic::floor: {
      u64 b = concretize(s, a[0], w);
      double d;
      if (w == 32) {
        float f;
        uint32_t x = (uint32_t)b;
        memcpy(&f, &x, 4);
        d = f;
      } else
        memcpy(&d, &b, 8);
      d = I->getIntrinsicID() == Intrinsic::ceil ? __builtin_ceil(d) : __builtin_floor(d);
      if (w == 32) {
        float f = (float)d;
        uint32_t x;
        memcpy(&x, &f, 4);
        b = x;
      } else
        memcpy(&b, &d, 8);
      fin(CV(b));
      return;
    }
    default: break;
  }
  std::string nm;
  raw_string_ostream os(nm);
  I->print(os);
  fatal("unsupported intrinsic " + nm);
}

// ------------------------------------------------------------------ instruction execution
static inline const Val& OP(State& s, const KInst& k, int i)
{
  int o = k.ops[i];
  return o >= 0 ? s.f().loc[o] : consts[~o];
}
static Val binop(State& s, unsigned opc, const Val& a, const Val& b, unsigned w)
{
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c, m = msk(w);
    switch (opc) {
      case Instruction::Add: return CV((x + y) & m);
      case Instruction::Sub: return CV((x - y) & m);
      case Instruction::Mul: return CV((x * y) & m);
      case Instruction::And: return CV(x & y);
      case Instruction::Or: return CV(x | y);
      case Instruction::Xor: return CV(x ^ y);
      case Instruction::Shl: return CV(y >= w ? 0 : (x << y) & m);
      case Instruction::LShr: return CV(y >= w ? 0 : x >> y);
      case Instruction::AShr: return CV((u64)((int64_t)sx(x, w) >> (y >= w ? w - 1 : y)) & m);
      default: break;
    }
  }
  if (opc == Instruction::UDiv || opc == Instruction::URem || opc == Instruction::SDiv || opc == Instruction::SRem) {
    E y = toE(b, w);
    E z = mkEq(y, mkConst(0, w));
    if (isTrue(z)) violate(s, "arith", "division by zero");
    if (!isC(z)) {
      ModelP m;
      if (maySat(s, z, m)) {
        reportViolation(s, "arith", "division by zero", m);
        if (!maySat(s, mkNot(z), m)) throw EndPath{};
        s.model = m;
        addC(s, mkNot(z));
      }
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (opc) {
    case Instruction::Add: return EV(mkAdd(x, y));
    case Instruction::Sub: return EV(mkSub(x, y));
    case Instruction::Mul: return EV(mkBin(K::Mul, x, y));
    case Instruction::UDiv: return EV(mkBin(K::UDiv, x, y));
    case Instruction::SDiv: return EV(mkBin(K::SDiv, x, y));
    case Instruction::URem: return EV(mkBin(K::URem, x, y));
    case Instruction::SRem: return EV(mkBin(K::SRem, x, y));
    case Instruction::And: return EV(mkBin(K::And, x, y));
    case Instruction::Or: return EV(mkBin(K::Or, x, y));
    case Instruction::Xor: return EV(mkBin(K::Xor, x, y));
    case Instruction::Shl: return EV(mkBin(K::Shl, x, y));
    case Instruction::LShr: return EV(mkBin(K::LShr, x, y));
    case Instruction::AShr: return EV(mkBin(K::AShr, x, y));
    case Instruction::FAdd: return EV(mkFP(K::FAdd, x, y, w));
    case Instruction::FSub: return EV(mkFP(K::FSub, x, y, w));
    case Instruction::FMul: return EV(mkFP(K::FMul, x, y, w));
    case Instruction::FDiv: return EV(mkFP(K::FDiv, x, y, w));
    default: fatal("unsupported binary op"); return Val();
  }
}
static E icmpE(unsigned p, E x, E y)
{
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(x, y);
    case CmpInst::ICMP_NE: return mkNot(mkEq(x, y));
    case CmpInst::ICMP_UGT: return mkBin(K::Ult, y, x);
    case CmpInst::ICMP_UGE: return mkBin(K::Ule, y, x);
    case CmpInst::ICMP_ULT: return mkBin(K::Ult, x, y);
    case CmpInst::ICMP_ULE: return mkBin(K::Ule, x, y);
    case CmpInst::ICMP_SGT: return mkBin(K::Slt, y, x);
    case CmpInst::ICMP_SGE: return mkBin(K::Sle, y, x);
    case CmpInst::ICMP_SLT: return mkBin(K::Slt, x, y);
    case CmpInst::ICMP_SLE: return mkBin(K::Sle, x, y);
    default: fatal("icmp predicate"); return nullptr;
  }
}
static bool icmpC(unsigned p, u64 x, u64 y, unsigned w)
{
  switch (p) {
    case CmpInst::ICMP_EQ: return x == y;
    case CmpInst::ICMP_NE: return x != y;
    case CmpInst::ICMP_UGT: return x > y;
    case CmpInst::ICMP_UGE: return x >= y;
    case CmpInst::ICMP_ULT: return x < y;
    case CmpInst::ICMP_ULE: return x <= y;
    default: break;
  }
  int64_t a = (int64_t)sx(x, w), b = (int64_t)sx(y, w);
  switch (p) {
    case CmpInst::ICMP_SGT: return a > b;
    case CmpInst::ICMP_SGE: return a >= b;
    case CmpInst::ICMP_SLT: return a < b;
    default: return a <= b;
  }
}
static E fcmpE(unsigned p, E x, E y)
{
  E eq = mkFP(K::FOeq, x, y, 1), lt = mkFP(K::FOlt, x, y, 1), gt = mkFP(K::FOlt, y, x, 1), un = mkFP(K::FUno, x, y, 1);
  E r = mkConst(0, 1);
  if (p & 1) r = mkOr1(r, eq);
  if (p & 2) r = mkOr1(r, gt);
  if (p & 4) r = mkOr1(r, lt);
  if (p & 8) r = mkOr1(r, un);
  return r;
}
static Val selectV(E c, const Val& a, const Val& b, Type* t)
{
  if (unsigned w = tw(t)) return EV(mkIte(c, toE(a, w), toE(b, w)));
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* v = new std::vector<Val>();
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      v->push_back(selectV(c, (*a.agg)[i], (*b.agg)[i], st->getElementType(i)));
    Val r;
    r.agg = v;
    return r;
  }
  fatal("select of unsupported type");
  return Val();
}
static Val zeroOf(Type* t)
{
  if (tw(t)) return CV(0);
  Val r;
  auto* v = new std::vector<Val>();
  if (auto* st = dyn_cast<StructType>(t))
    for (auto* e : st->elements()) v->push_back(zeroOf(e));
  else if (auto* at = dyn_cast<ArrayType>(t))
    for (unsigned i = 0; i < at->getNumElements(); ++i) v->push_back(zeroOf(at->getElementType()));
  r.agg = v;
  return r;
}
static Val insertV(const Val& a, ArrayRef<unsigned> idx, const Val& x)
{
  if (idx.empty()) return x;
  auto* v = new std::vector<Val>(*a.agg);
  (*v)[idx[0]] = insertV((*a.agg)[idx[0]], idx.slice(1), x);
  Val r;
  r.agg = v;
  return r;
}

static void doReturn(State& s, const Val& v)
{
  bool nc = s.f().noCaller;
  popFrame(s);
  if (s.t().st.empty()) {
    endThread(s);
    return;
  }
  if (nc) return;  // resumes wherever the frame below stands
  finishCall(s, v);
}

static void atomicSync(State& s, u64 a, bool rel, bool acq)
{
  if (!s.raceOn) return;
  VC& v = s.atomVC[a];
  if (acq) vcJoin(s.t().vc, v);
  if (rel) {
    vcJoin(v, s.t().vc);
    vcTick(s);
  }
}

static void step(State& s)
{
  Frame& f = s.f();
  const KInst& k = f.kf->insts[f.pc];
  s.ninst++;
  switch (k.opc) {
    case Instruction::Ret:
      doReturn(s, k.ops.empty() ? Val() : OP(s, k, 0));
      return;
    case Instruction::Br: {
      auto* bi = cast<BranchInst>(k.I);
      if (bi->isUnconditional()) {
        gotoBB(s, k.succ[0], k.I->getParent());
        return;
      }
      Val c = OP(s, k, 0);
      bool t = c.e ? branch(s, c.e) : (c.c & 1);
      gotoBB(s, k.succ[t ? 0 : 1], k.I->getParent());
      return;
    }
    case Instruction::Switch: {
      auto* si = cast<SwitchInst>(k.I);
      Val c = OP(s, k, 0);
      unsigned w = tw(si->getCondition()->getType());
      BasicBlock* tgt = nullptr;
      if (!c.e) {
        tgt = si->getDefaultDest();
        for (auto& cs : si->cases())
          if (cs.getCaseValue()->getValue().getZExtValue() == c.c) {
            tgt = cs.getCaseSuccessor();
            break;
          }
      } else {
        u64 mv = (u64)evalE(c.e, *s.model);
        tgt = si->getDefaultDest();
        E cond = nullptr;
        for (auto& cs : si->cases())
          if (cs.getCaseValue()->getValue().getZExtValue() == mv) {
            tgt = cs.getCaseSuccessor();
          }
        // condition: value reaches tgt
        E any = mkConst(0, 1);
        if (tgt == si->getDefaultDest()) {
          any = mkConst(1, 1);
          for (auto& cs : si->cases())
            if (cs.getCaseSuccessor() != tgt)
              any = mkAnd1(any, mkNot(mkEq(c.e, mkConst(cs.getCaseValue()->getValue().getZExtValue(), w))));
        } else
          for (auto& cs : si->cases())
            if (cs.getCaseSuccessor() == tgt)
              any = mkOr1(any, mkEq(c.e, mkConst(cs.getCaseValue()->getValue().getZExtValue(), w)));
        cond = any;
        branch(s, cond);  // model satisfies cond, sibling re-executes
      }
      gotoBB(s, s.f().kf->bb[tgt], k.I->getParent());
      return;
    }
    case Instruction::Unreachable: violate(s, "memory", "reached unreachable code (undefined behaviour)"); return;
    case Instruction::Resume: {
      Val v = OP(s, k, 0);
      u64 e = (*v.agg)[0].c;
      unwind(s, e, false);
      return;
    }
    case Instruction::LandingPad: fatal("fell into landingpad"); return;
    case Instruction::Invoke:
    case Instruction::Call: {
      auto* cb = cast<CallBase>(k.I);
      std::vector<Val> args;
      unsigned n = cb->arg_size();
      args.reserve(n);
      for (unsigned i = 0; i < n; ++i) args.push_back(OP(s, k, i));
      if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
        execIntrinsic(s, ii, k, args);
        return;
      }
      if (cb->isInlineAsm()) {
        finishCall(s, CV(0));
        return;
      }
      Function* F = cb->getCalledFunction();
      if (!F) {
        u64 fa = concretize(s, OP(s, k, n), 64);
        auto it = funcByAddr.find(fa);
        if (it == funcByAddr.end()) violate(s, "memory", "call through an invalid function pointer");
        F = it->second;
      }
      callFunction(s, F, cb, args);
      return;
    }
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(k.I);
      u64 sz = DL->getTypeAllocSize(ai->getAllocatedType());
      if (ai->isArrayAllocation()) sz *= concretize(s, OP(s, k, 0), 64);
      u64 a = allocObj(s, sz, OStack, "stack", ai->getAlign().value());
      Frame& ff = s.f();
      ff.allocas.push_back(a);
      ff.loc[k.dest] = CV(a);
      ff.pc++;
      return;
    }
    case Instruction::Load: {
      auto* li = cast<LoadInst>(k.I);
      Val a = OP(s, k, 0);
      if (li->isAtomic() && s.raceOn) {
        bool ro = s.raceOn;
        s.raceOn = false;
        Val v = loadT(s, a, li->getType());
        s.raceOn = ro;
        if (!a.e && li->getOrdering() != AtomicOrdering::Monotonic) atomicSync(s, a.c, false, true);
        s.f().loc[k.dest] = v;
        s.f().pc++;
        return;
      }
      Val v = k.w ? loadW(s, a, (k.w + 7) / 8, k.w) : loadT(s, a, li->getType());
      s.f().loc[k.dest] = v;
      s.f().pc++;
      return;
    }
    case Instruction::Store: {
      auto* si = cast<StoreInst>(k.I);
      Val a = OP(s, k, 1);
      if (si->isAtomic() && s.raceOn) {
        bool ro = s.raceOn;
        s.raceOn = false;
        storeT(s, a, OP(s, k, 0), si->getValueOperand()->getType());
        s.raceOn = ro;
        if (!a.e && si->getOrdering() != AtomicOrdering::Monotonic) atomicSync(s, a.c, true, false);
        s.f().pc++;
        return;
      }
      Val v = OP(s, k, 0);
      storeT(s, a, v, si->getValueOperand()->getType());
      s.f().pc++;
      return;
    }
    case Instruction::AtomicRMW: {
      auto* ar = cast<AtomicRMWInst>(k.I);
      if (!schedPoint(s)) return;
      unsigned w = tw(ar->getType());
      Val a = OP(s, k, 0), v = OP(s, k, 1);
      bool ro = s.raceOn;
      s.raceOn = false;
      Val old = loadW(s, a, (w + 7) / 8, w);
      Val nv;
      switch (ar->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, w); break;
        case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, w); break;
        case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v, w); break;
        case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v, w); break;
        case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v, w); break;
        default: fatal("atomicrmw op");
      }
      storeW(s, a, nv, (w + 7) / 8, w);
      s.raceOn = ro;
      if (!a.e) atomicSync(s, a.c, true, true);
      s.f().loc[k.dest] = old;
      s.f().pc++;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* cx = cast<AtomicCmpXchgInst>(k.I);
      if (!schedPoint(s)) return;
      unsigned w = tw(cx->getCompareOperand()->getType());
      Val a = OP(s, k, 0);
      bool ro = s.raceOn;
      s.raceOn = false;
      Val old = loadW(s, a, (w + 7) / 8, w);
      E eq = mkEq(toE(old, w), toE(OP(s, k, 1), w));
      bool ok = branch(s, eq);
      if (ok) storeW(s, a, OP(s, k, 2), (w + 7) / 8, w);
      s.raceOn = ro;
      if (!a.e) atomicSync(s, a.c, true, true);
      Val r;
      r.agg = new std::vector<Val>{old, CV(ok)};
      s.f().loc[k.dest] = r;
      s.f().pc++;
      return;
    }
    case Instruction::Fence: f.pc++; return;
    case Instruction::GetElementPtr: {
      Val b = OP(s, k, 0);
      if (!b.e) {
        u64 a = b.c + k.gepOff;
        E sym = nullptr;
        for (size_t i = 0; i < k.gepIdx.size(); ++i) {
          int o = k.gepIdx[i].first;
          const Val& x = o >= 0 ? f.loc[o] : consts[~o];
          if (!x.e)
            a += (u64)(int64_t)sx(x.c, k.gepW[i]) * k.gepIdx[i].second;
          else {
            E t = mkBin(K::Mul, mkSExt(x.e, 64), mkConst(k.gepIdx[i].second, 64));
            sym = sym ? mkAdd(sym, t) : t;
          }
        }
        f.loc[k.dest] = sym ? EV(mkAdd(sym, mkConst(a, 64))) : CV(a);
      } else {
        E a = mkAdd(b.e, mkConst(k.gepOff, 64));
        for (size_t i = 0; i < k.gepIdx.size(); ++i) {
          int o = k.gepIdx[i].first;
          const Val& x = o >= 0 ? f.loc[o] : consts[~o];
          a = mkAdd(a, mkBin(K::Mul, mkSExt(toE(x, k.gepW[i]), 64), mkConst(k.gepIdx[i].second, 64)));
        }
        f.loc[k.dest] = EV(a);
      }
      f.pc++;
      return;
    }
    case Instruction::ICmp: {
      auto* ci = cast<ICmpInst>(k.I);
      const Val &a = OP(s, k, 0), &b = OP(s, k, 1);
      unsigned w = tw(ci->getOperand(0)->getType());
      if (!a.e && !b.e)
        f.loc[k.dest] = CV(icmpC(ci->getPredicate(), a.c, b.c, w));
      else
        f.loc[k.dest] = EV(icmpE(ci->getPredicate(), toE(a, w), toE(b, w)));
      f.pc++;
      return;
    }
    case Instruction::FCmp: {
      auto* ci = cast<FCmpInst>(k.I);
      unsigned w = tw(ci->getOperand(0)->getType());
      f.loc[k.dest] = EV(fcmpE(ci->getPredicate(), toE(OP(s, k, 0), w), toE(OP(s, k, 1), w)));
      f.pc++;
      return;
    }
    case Instruction::Select: {
      const Val& c = OP(s, k, 0);
      if (!c.e)
        f.loc[k.dest] = (c.c & 1) ? OP(s, k, 1) : OP(s, k, 2);
      else if (opt.forkSelect && k.w > 1) {
        bool t = branch(s, c.e);
        f.loc[k.dest] = t ? OP(s, k, 1) : OP(s, k, 2);
      } else
        f.loc[k.dest] = selectV(c.e, OP(s, k, 1), OP(s, k, 2), k.I->getType());
      f.pc++;
      return;
    }
    case Instruction::ZExt:
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::BitCast:
    case Instruction::Trunc:
    case Instruction::AddrSpaceCast: {
      const Val& a = OP(s, k, 0);
      unsigned iw = tw(k.I->getOperand(0)->getType());
      if (a.agg) {
        f.loc[k.dest] = a;
      } else if (!a.e && k.w <= 64)
        f.loc[k.dest] = CV(a.c & msk(k.w));
      else {
        E x = toE(a, iw);
        f.loc[k.dest] = EV(k.w < iw ? mkExtract(x, 0, k.w) : mkZExt(x, k.w));
      }
      f.pc++;
      return;
    }
    case Instruction::SExt: {
      const Val& a = OP(s, k, 0);
      unsigned iw = tw(k.I->getOperand(0)->getType());
      if (!a.e && k.w <= 64)
        f.loc[k.dest] = CV((u64)(int64_t)sx(a.c, iw) & msk(k.w));
      else
        f.loc[k.dest] = EV(mkSExt(toE(a, iw), k.w));
      f.pc++;
      return;
    }
    case Instruction::UIToFP:
    case Instruction::SIToFP:
    case Instruction::FPToUI:
    case Instruction::FPToSI:
    case Instruction::FPExt:
    case Instruction::FPTrunc: {
      unsigned iw = tw(k.I->getOperand(0)->getType());
      if (!iw || !k.w) fatal("unsupported fp type");
      K kk = k.opc == Instruction::UIToFP   ? K::UIToFP
             : k.opc == Instruction::SIToFP ? K::SIToFP
             : k.opc == Instruction::FPToUI ? K::FPToUI
             : k.opc == Instruction::FPToSI ? K::FPToSI
                                            : K::FPConv;
      f.loc[k.dest] = EV(mkFP(kk, toE(OP(s, k, 0), iw), nullptr, k.w));
      f.pc++;
      return;
    }
    case Instruction::FNeg: {
      f.loc[k.dest] = EV(mkBin(K::Xor, toE(OP(s, k, 0), k.w), mkConst((u128)1 << (k.w - 1), k.w)));
      f.pc++;
      return;
    }
    case Instruction::ExtractValue: {
      Val a = OP(s, k, 0);
      for (unsigned i : cast<ExtractValueInst>(k.I)->indices()) a = a.agg ? Val((*a.agg)[i]) : Val();
      f.loc[k.dest] = a;
      f.pc++;
      return;
    }
    case Instruction::InsertValue: {
      Val a = OP(s, k, 0);
      if (!a.agg) a = zeroOf(k.I->getType());
      f.loc[k.dest] = insertV(a, cast<InsertValueInst>(k.I)->getIndices(), OP(s, k, 1));
      f.pc++;
      return;
    }
    case Instruction::Freeze:
      f.loc[k.dest] = OP(s, k, 0);
      f.pc++;
      return;
    case Instruction::VAArg: fatal("va_arg instruction"); return;
    default:
      if (k.I->isBinaryOp()) {
        Val a = OP(s, k, 0), b = OP(s, k, 1);
        Val r = binop(s, k.opc, a, b, k.w);
        s.f().loc[k.dest] = r;
        s.f().pc++;
        return;
      }
  }
  std::string nm;
  raw_string_ostream os(nm);
  k.I->print(os);
  fatal("unsupported instruction " + nm);
}

// ------------------------------------------------------------------ module preparation
static u64 globalAddr(const GlobalValue* g);
static Val constVal(const Constant* c);
static void initBytes(const Constant* c, std::vector<uint8_t>& d, u64 off)
{
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    u64 es = cds->getElementByteSize();
    StringRef r = cds->getRawDataValues();
    (void)es;
    memcpy(&d[off], r.data(), r.size());
    return;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) initBytes(c->getAggregateElement(i), d, off + sl->getElementOffset(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); ++i) initBytes(c->getAggregateElement(i), d, off + es * i);
    return;
  }
  Val v = constVal(c);
  u64 n = DL->getTypeStoreSize(t);
  u128 x = v.e ? v.e->c : v.c;
  memcpy(&d[off], &x, n);
}
static Val constVal(const Constant* c)
{
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) return CV(ci->getZExtValue());
    u128 v = ci->getValue().extractBitsAsZExtValue(64, 0) | ((u128)ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64);
    return EV(mkConst(v, w));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    auto b = cf->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() > 64) return CV(0);
    return CV(b.getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return CV(0);
  if (isa<UndefValue>(c)) return zeroOf(c->getType());
  if (auto* gv = dyn_cast<GlobalValue>(c)) return CV(globalAddr(gv));
  if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c)) {
    Val r;
    auto* v = new std::vector<Val>();
    unsigned n = isa<StructType>(c->getType()) ? cast<StructType>(c->getType())->getNumElements()
                                               : cast<ArrayType>(c->getType())->getNumElements();
    for (unsigned i = 0; i < n; ++i) v->push_back(constVal(c->getAggregateElement(i)));
    r.agg = v;
    return r;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!g->accumulateConstantOffset(*DL, off)) fatal("non-constant constant gep");
        return CV(constVal(ce->getOperand(0)).c + off.getZExtValue());
      }
      case Instruction::BitCast:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::AddrSpaceCast:
      case Instruction::Trunc: {
        Val v = constVal(ce->getOperand(0));
        return CV(v.c & msk(tw(ce->getType())));
      }
      case Instruction::Add:
      case Instruction::Sub:
      case Instruction::Xor:
      case Instruction::Mul: {
        E x = toE(constVal(ce->getOperand(0)), tw(ce->getType())), y = toE(constVal(ce->getOperand(1)), tw(ce->getType()));
        switch (ce->getOpcode()) {
          case Instruction::Add: return EV(mkAdd(x, y));
          case Instruction::Sub: return EV(mkSub(x, y));
          case Instruction::Xor: return EV(mkBin(K::Xor, x, y));
          default: return EV(mkBin(K::Mul, x, y));
        }
      }
      case Instruction::ICmp: {
        unsigned w = tw(ce->getOperand(0)->getType());
        return CV(icmpC(ce->getPredicate(), constVal(ce->getOperand(0)).c, constVal(ce->getOperand(1)).c, w));
      }
      default: break;
    }
  }
  std::string nm;
  raw_string_ostream os(nm);
  c->print(os);
  fatal("unsupported constant " + nm);
  return Val();
}
static u64 nextGlobal = 0x10000000, nextFunc = 0x400000;
static u64 globalAddr(const GlobalValue* g)
{
  if (auto* al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee()).c;
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  fatal("no address for global " + g->getName().str());
  return 0;
}
static int constSlot(const Constant* c)
{
  auto it = constIdx.find(c);
  if (it != constIdx.end()) return it->second;
  int i = consts.size();
  consts.push_back(constVal(c));
  constIdx[c] = i;
  return i;
}

static void prepare(State& s)
{
  unsigned idx = 0;
  for (auto& F : *M) {
    // weak undefined pthread hooks must look present so std::mutex really locks
    u64 a = nextFunc;
    nextFunc += 16;
    gaddr[&F] = a;
    funcByAddr[a] = &F;
    auto* kf = new KFunc();
    kf->F = &F;
    kf->idx = idx++;
    kf->dem = demangle(F.getName().str());
    kfuncs[&F] = kf;
    funcByIdx.push_back(kf);
  }
  for (auto& G : M->globals()) {
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
    if (G.isDeclaration()) {
      sz = std::max<u64>(sz, 64);
      if (G.getName().starts_with("_ZTV")) sz = std::max<u64>(sz, 256);
    }
    u64 al = 16;
    if (G.getAlign()) al = std::max<u64>(al, G.getAlign()->value());
    nextGlobal = (nextGlobal + al - 1) & ~(al - 1);
    gaddr[&G] = nextGlobal;
    if (G.isDeclaration()) extName[nextGlobal] = G.getName().str();
    nextGlobal += sz + 32;
  }
  for (auto& G : M->globals()) {
    auto o = std::make_shared<Obj>();
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
    if (G.isDeclaration()) {
      sz = std::max<u64>(sz, 64);
      if (G.getName().starts_with("_ZTV")) sz = std::max<u64>(sz, 256);
    }
    o->base = gaddr[&G];
    o->size = sz;
    o->kind = OGlobal;
    o->name = "@" + G.getName().str();
    o->zero = true;
    o->init();
    if (!G.isDeclaration() && G.getInitializer() && !G.getName().starts_with("llvm.") && !G.getInitializer()->isNullValue()) {
      std::vector<uint8_t> d(sz, 0);
      initBytes(G.getInitializer(), d, 0);
      for (u64 i = 0; i < sz; ++i)
        if (d[i]) o->setC(i, d[i]);
    }
    o->ro = G.isConstant();
    if (G.isConstant())
      constGlobals[o->base] = o;
    else
      s.mem[o->base] = o;
  }
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    KFunc* kf = kfuncs[&F];
    DenseMap<const Value*, int> slot;
    int n = 0;
    for (auto& A : F.args()) slot[&A] = n++;
    for (auto& B : F)
      for (auto& I : B)
        if (!I.getType()->isVoidTy()) slot[&I] = n++;
    kf->nslots = n;
    int pc = 0;
    for (auto& B : F) {
      kf->bb[&B] = pc;
      for (auto& I : B) {
        (void)I;
        ++pc;
      }
    }
    auto opnd = [&](Value* v) -> int {
      if (auto* c = dyn_cast<Constant>(v)) return ~constSlot(c);
      auto it = slot.find(v);
      if (it != slot.end()) return it->second;
      return ~constSlot(ConstantInt::get(Type::getInt64Ty(M->getContext()), 0));
    };
    for (auto& B : F)
      for (auto& I : B) {
        KInst k;
        k.I = &I;
        k.opc = I.getOpcode();
        k.w = tw(I.getType());
        if (!I.getType()->isVoidTy()) k.dest = slot[&I];
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          k.ops.push_back(opnd(g->getPointerOperand()));
          for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
            Value* ix = ti.getOperand();
            if (auto* st = ti.getStructTypeOrNull()) {
              k.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            } else {
              u64 es = DL->getTypeAllocSize(ti.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(ix))
                k.gepOff += es * (u64)ci->getSExtValue();
              else {
                k.gepIdx.push_back({opnd(ix), es});
                k.gepW.push_back(tw(ix->getType()));
              }
            }
          }
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) {
            k.ops.push_back(opnd(br->getCondition()));
            k.succ[1] = kf->bb[br->getSuccessor(1)];
          }
          k.succ[0] = kf->bb[br->getSuccessor(0)];
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          k.ops.push_back(opnd(sw->getCondition()));
        } else if (auto* cb = dyn_cast<CallBase>(&I)) {
          bool dbg = isa<DbgInfoIntrinsic>(cb);
          for (auto& A : cb->args()) k.ops.push_back(dbg || A->getType()->isMetadataTy() ? ~constSlot(ConstantInt::get(Type::getInt64Ty(M->getContext()), 0)) : opnd(A));
          if (!cb->isInlineAsm()) k.ops.push_back(dbg ? 0 : opnd(cb->getCalledOperand()));
          if (auto* iv = dyn_cast<InvokeInst>(cb)) k.succ[0] = kf->bb[iv->getNormalDest()];
        } else if (auto* phi = dyn_cast<PHINode>(&I)) {
          for (auto& v : phi->incoming_values()) k.ops.push_back(opnd(v));
        } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
          for (unsigned i = 0; i < lp->getNumClauses(); ++i)
            k.ops.push_back(lp->isCatch(i) ? opnd(lp->getClause(i)) : ~constSlot(ConstantInt::get(Type::getInt64Ty(M->getContext()), 0)));
        } else {
          for (auto& o : I.operands())
            if (!isa<BasicBlock>(o)) k.ops.push_back(opnd(o));
        }
        kf->insts.push_back(std::move(k));
      }
  }
}

// ------------------------------------------------------------------ driver
static std::atomic<bool> interrupted{false};
static SolverStats lastSS;
static void flushStats()
{
  sh->queries += g_ss.queries - lastSS.queries;
  sh->qsat += g_ss.sat - lastSS.sat;
  sh->qunsat += g_ss.unsat - lastSS.unsat;
  sh->qcache += g_ss.cacheHits - lastSS.cacheHits;
  sh->qlia += g_ss.lia - lastSS.lia;
  sh->qliaFail += g_ss.liaFail - lastSS.liaFail;
  sh->qliaUnk += g_ss.liaUnk - lastSS.liaUnk;
  sh->solverUs += (u64)((g_ss.time - lastSS.time) * 1e6);
  u64 mx = (u64)(g_ss.maxTime * 1e6);
  u64 cur = sh->solverMaxUs.load();
  while (mx > cur && !sh->solverMaxUs.compare_exchange_weak(cur, mx)) {
  }
  lastSS = g_ss;
}
static void recordErr(const std::string& m)
{
  sh->errors++;
  slock();
  if (!sh->errmsg[0]) strncpy(sh->errmsg, m.c_str(), sizeof(sh->errmsg) - 1);
  sunlock();
  if (opt.verbose) fprintf(stderr, "ERROR: %s\n", m.c_str());
}
static void onChld(int)
{
  int st, e = errno;
  while (waitpid(-1, &st, WNOHANG) > 0)
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
      sh->died++;
      sh->stop = 1;
      sh->procs--;
    }
  errno = e;
}
static void runLoop()
{
  while (!work.empty()) {
    if (sh->stop) break;
    // share work with a new process
    if (work.size() >= 2 && sh->slots.load() > 0) {
      int v = sh->slots.load();
      if (v > 0 && sh->slots.compare_exchange_strong(v, v - 1)) {
        // the child takes every second state, oldest first
        fflush(0);
        sh->procs++;
        pid_t p = fork();
        if (p == 0) {
          std::deque<State*> mine;
          for (size_t i = 0; i < work.size(); i += 2) mine.push_back(work[i]);
          work.swap(mine);
          lastSS = g_ss;
          runLoop();
          flushStats();
          sh->slots++;
          sh->procs--;
          _exit(0);
        } else if (p > 0) {
          std::deque<State*> rest;
          for (size_t i = 0; i < work.size(); ++i)
            if (i % 2)
              rest.push_back(work[i]);
            else
              delete work[i];
          work.swap(rest);
        } else {
          sh->slots++;
          sh->procs--;
        }
      }
    }
    State* s = work.back();
    work.pop_back();
    u64 start = s->ninst, lastChk = s->ninst;
    try {
      while (!s->done) {
        step(*s);
        if (s->ninst - lastChk > 2000) {
          lastChk = s->ninst;
          if (sh->stop) throw EndPath{};
          if (now() - tStart > opt.timeout) {
            sh->timedOut = 1;
            sh->stop = 1;
            throw EndPath{};
          }
          if (s->ninst > opt.maxInst) violate(*s, "hang", "path exceeds the instruction bound (non-termination)");
        }
      }
      sh->paths++;
      // keep a few sample paths
      int n = sh->nsamples.load();
      if (n < 6 && sh->nsamples.compare_exchange_strong(n, n + 1)) {
        std::string t = inputsText(*s, *s->model);
        {
          std::ofstream f(opt.out + "/sample_" + std::to_string(n) + ".inputs");
          f << t;
          for (auto& tr : s->trace) f << "trace " << tr << "\n";
        }
        for (auto& c : t)
          if (c == '\n') c = ';';
        strncpy(sh->samples[n], t.c_str(), 1000);
      }
    } catch (EndPath&) {
      sh->paths++;
    } catch (Fatal& f) {
      std::string w;
      try {
        w = where(*s);
      } catch (...) {
      }
      recordErr(f.msg + "\n" + w);
      sh->stop = 1;
    }
    sh->insts += s->ninst - start;
    flushStats();
    delete s;
  }
}

int main(int argc, char** argv)
{
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") opt.out = nx();
    else if (a == "-j") opt.jobs = atoi(nx().c_str());
    else if (a == "-t") opt.timeout = atof(nx().c_str());
    else if (a == "--entry") opt.entry = nx();
    else if (a == "--max-inst") opt.maxInst = strtoull(nx().c_str(), 0, 0);
    else if (a == "--max-viol") opt.maxViol = atoi(nx().c_str());
    else if (a == "--preempt") opt.preempt = atoi(nx().c_str());
    else if (a == "--malloc-cap") opt.mallocCap = strtoull(nx().c_str(), 0, 0);
    else if (a == "--dump") g_dumpDir = nx();
    else if (a == "--no-fork-select") opt.forkSelect = false;
    else if (a == "--no-lia") g_useLia = false;
    else if (a == "--xcheck") g_xcheck = true;
    else if (a == "-v") opt.verbose = true;
    else if (a == "--fix" || a == "--cfg") {
      std::string kv = nx();
      auto p = kv.find('=');
      (a == "--fix" ? opt.fix : opt.cfg)[kv.substr(0, p)] = strtoull(kv.c_str() + p + 1, 0, 0);
      if (kv.substr(0, p) == "preempt") opt.preempt = atoi(kv.c_str() + p + 1);
      if (kv.substr(0, p) == "yields") opt.yields = atoi(kv.c_str() + p + 1);
    } else
      opt.bc = a;
  }
  if (opt.out.empty()) opt.out = ".";
  mkdir(opt.out.c_str(), 0777);
  tStart = now();
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->slots = opt.jobs - 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(opt.bc, err, ctx);
  if (!mod) {
    err.print("usymex", errs());
    return 3;
  }
  M = mod.get();
  DL = &M->getDataLayout();
  solverInit();
  setupNatives();
  State* s = new State();
  auto m = std::make_shared<Model>();
  m->gen = newModelGen();
  s->model = m;
  s->th.resize(1);
  s->th[0].vc = {1};
  std::string fatalMsg;
  try {
    prepare(*s);
    Function* F = M->getFunction(opt.entry);
    if (!F || F->isDeclaration()) fatal("no entry function " + opt.entry);
    std::vector<std::pair<int, Function*>> ctors;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors"))
      if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& o : ca->operands()) {
          auto* cs = cast<ConstantStruct>(o);
          if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
            ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
        }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    pushFrame(*s, kfuncs[F], {});
    for (int i = (int)ctors.size() - 1; i >= 0; --i) {
      pushFrame(*s, kfuncs[ctors[i].second], {});
      s->f().noCaller = true;
    }
    work.push_back(s);
  } catch (Fatal& f) {
    recordErr(f.msg);
  } catch (EndPath&) {
  }
  if (!sh->errors) {
    pid_t parent = getpid();
    (void)parent;
    sh->procs++;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    signal(SIGCHLD, onChld);
    runLoop();
    flushStats();
    sh->slots++;
    // wait for all children (they are in our process group tree; direct children are reaped here,
    // grandchildren tracked through the process counter)
    sh->procs--;
    while (sh->procs.load() > 0) {
      onChld(0);
      usleep(2000);
      if (now() - tStart > opt.timeout + 60) {
        recordErr("workers did not stop");
        break;
      }
    }
  }
  if (sh->died) recordErr("worker process died");
  double wall = now() - tStart;
  std::ofstream j(opt.out + "/result.json");
  j << "{\n";
  j << "\"status\":\""
    << (sh->viol ? "violation" : sh->errors ? "error" : sh->timedOut ? "timeout" : "ok") << "\",\n";
  j << "\"error\":\"" << jesc(sh->errmsg) << "\",\n";
  j << "\"timed_out\":" << sh->timedOut << ",\"errors\":" << sh->errors << ",\n";
  j << "\"paths\":" << sh->paths << ",\"infeasible_assumes\":" << sh->infeasible << ",\"forks\":" << sh->forks
    << ",\"instructions\":" << sh->insts << ",\n";
  j << "\"queries\":" << sh->queries << ",\"sat\":" << sh->qsat << ",\"unsat\":" << sh->qunsat
    << ",\"lia\":" << sh->qlia << ",\"lia_inapplicable\":" << sh->qliaFail << ",\"lia_unknown\":" << sh->qliaUnk << ",\"cache_hits\":" << sh->qcache << ",\"unknown\":" << sh->unknown << ",\n";
  j << "\"solver_s\":" << sh->solverUs / 1e6 << ",\"solver_max_s\":" << sh->solverMaxUs / 1e6 << ",\"wall_s\":" << wall
    << ",\n";
  j << "\"asserts_checked\":" << sh->asserts << ",\"asserts_symbolic\":" << sh->assertsSym << ",\"symbolic_inputs\":"
    << sh->symVars << ",\"violations\":" << sh->viol << ",\"violation_sites\":" << sh->nviolSites << ",\n";
  j << "\"asserts\":{";
  for (int i = 0; i < sh->nassert; ++i)
    j << (i ? "," : "") << "\"" << jesc(sh->assertName[i]) << "\":" << sh->assertHits[i];
  j << "},\n\"covers\":{";
  for (int i = 0; i < sh->ncover; ++i)
    j << (i ? "," : "") << "\"" << jesc(sh->coverName[i]) << "\":" << sh->coverHits[i];
  j << "},\n\"functions\":[";
  bool first = true;
  for (auto* kf : funcByIdx)
    if (!kf->F->isDeclaration() && sh->fcov[kf->idx & 65535]) {
      if (kf->dem.find("umpire::") == std::string::npos && kf->dem.find("judy") == std::string::npos) continue;
      auto* sp = kf->F->getSubprogram();
      std::string fn = sp ? (std::string)sp->getFilename() : "";
      if (fn.find("src/") == std::string::npos && fn.find("tools/") == std::string::npos) continue;
      j << (first ? "" : ",") << "\"" << jesc(kf->dem.substr(0, 200)) << "\"";
      first = false;
    }
  j << "],\n\"samples\":[";
  for (int i = 0; i < sh->nsamples && i < 6; ++i) j << (i ? "," : "") << "\"" << jesc(sh->samples[i]) << "\"";
  j << "]\n}\n";
  j.close();
  if (opt.verbose)
    fprintf(stderr, "paths=%llu queries=%llu solver=%.2fs wall=%.2fs viol=%llu err=%s\n", (unsigned long long)sh->paths,
            (unsigned long long)sh->queries, sh->solverUs / 1e6, wall, (unsigned long long)sh->viol, sh->errmsg);
  if (sh->viol) return 1;
  if (sh->errors || sh->timedOut) return 2;
  return 0;
}
