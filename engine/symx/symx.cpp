// symx: path-exhaustive symbolic execution of LLVM bitcode emitted by rustc.
//
// Every feasible path of an entry function is executed; inputs are symbolic
// bit-vectors, branch feasibility and assertions are decided by Z3 (branches
// that depend on one byte whose constraints are independent of all other
// inputs are decided exactly by tabulating that byte).  A branch with two
// feasible sides forks the process.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <semaphore.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <atomic>
#include <set>
#include <functional>

using namespace llvm;

struct Val { uint64_t v; Ref e; };

// ---------------------------------------------------------------- shared state
struct SharedState {
  sem_t tokens;
  std::atomic<uint64_t> paths, pruned, violations, errors, z3q, z3sat, z3unsat, z3unk, domq, asserts, assertQ, instrs, forks, merges, live, maxlive, killed, sampled;
  std::atomic<uint64_t> z3us;
  std::atomic<int> stop;
  std::atomic<uint64_t> cover[512];
  std::atomic<uint64_t> assertHit[512];
  std::atomic<uint8_t> fn[1 << 17];
};
static SharedState *S;
static int outfd = -1;
static double deadline;
static uint64_t maxViol = 3, sampleMax = 500;
static uint64_t maxInstr = 2000000000ull;

static void emit(const std::string &s) {
  std::string t = s + "\n";
  size_t off = 0;
  while (off < t.size()) { ssize_t r = write(outfd, t.data() + off, t.size() - off); if (r <= 0) break; off += r; }
}
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}

// ---------------------------------------------------------------- memory
static const uint64_t BASE = 0x100000000000ull, SIZE = 0x40000000ull; // 1 GiB
static const uint64_t SHB = 0x200000000000ull;
static const uint64_t FNB = 0x300000000000ull; // function addresses
static uint8_t *pageSym;
static uint64_t globTop = BASE + 4096, heapTop, heapEnd, stackTop, stackBase;
static inline bool inArena(uint64_t a, uint64_t n) { return a >= BASE + 4096 && a + n <= BASE + SIZE && a + n >= a; }
static inline Ref *sh(uint64_t a) { return (Ref *)(SHB + (a - BASE) * 4); }
static inline bool pgSym(uint64_t a, uint64_t n) {
  uint64_t p = (a - BASE) >> 12, q = (a + n - 1 - BASE) >> 12;
  if (pageSym[p] | pageSym[q]) return true;
  for (uint64_t i = p + 1; i < q; i++) if (pageSym[i]) return true;
  return false;
}
static inline void setPg(uint64_t a, uint64_t n) { for (uint64_t p = (a - BASE) >> 12; p <= ((a + n - 1 - BASE) >> 12); p++) pageSym[p] = 1; }

// ---------------------------------------------------------------- code
enum Op : uint8_t { O_BIN, O_ICMP, O_FBIN, O_FCMP, O_CAST, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_SELECT, O_COPY,
  O_UNREACH, O_XELT, O_IELT, O_SHUF, O_CMPXCHG, O_RMW, O_FNEG, O_NOP, O_BITCAST, O_UNSUP };
enum CK : uint8_t { C_ZEXT, C_SEXT, C_TRUNC, C_FEXT, C_FTRUNC, C_SITOFP, C_UITOFP, C_FPTOSI, C_FPTOUI };

struct Leaf { uint32_t off; uint16_t w; }; // w: bits (<=64), i128 is two leaves
struct Inst {
  uint8_t op, sub; uint16_t w, w2; uint16_t lanes; // w operand width, w2 result width
  int32_t dst, a, b, c;
  uint32_t n;     // slots / index into side tables
  uint64_t imm;
  const Instruction *I;
};
struct PhiCopy { int32_t dst, src; uint32_t n; };
struct Edge { int32_t pc; std::vector<PhiCopy> copies; };
struct GepIx { int32_t r; uint16_t w; int64_t scale; };
struct CallInfo { Function *f; int builtin; int32_t callee; std::vector<std::pair<int32_t, uint32_t>> args; std::vector<uint16_t> argw; uint32_t rslots; Edge *next; unsigned iid; uint16_t rw; uint16_t rlanes; };
struct SwitchInfo { std::vector<std::pair<uint64_t, Edge *>> cases; Edge *def; };
struct Code {
  Function *f; int id;
  std::vector<Inst> code;
  uint32_t nregs = 0;
  std::vector<Val> consts;
  std::vector<Edge *> edges;
  std::vector<std::vector<GepIx>> geps;
  std::vector<CallInfo *> calls;
  std::vector<SwitchInfo *> switches;
  std::vector<std::vector<Leaf>> layouts;
  std::vector<std::vector<int>> shuf;
  std::vector<std::pair<int32_t, const Value *>> regVal; // ascending by register
  DenseMap<const BasicBlock *, int32_t> pcOf;
  DenseMap<const BasicBlock *, const BasicBlock *> ipdom; bool havePd = false; // null: function exit
};

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static DenseMap<const GlobalValue *, uint64_t> gaddr;
static std::vector<Function *> fnByAddr;
static std::unordered_map<const Function *, Code *> codes;
static int nextCode = 0;
static std::vector<std::string> codeNames;

static Exprs X;
static Solver SV(X);
static uint64_t instrs = 0;

struct Frame { Code *c; uint32_t pc; uint32_t base; uint64_t sp; int32_t retDst; Edge *retEdge; uint32_t retN; };
static std::vector<Frame> frames;
static Val *regs; static uint32_t regTop = 0; static const uint32_t REGMAX = 1 << 24;

[[noreturn]] static void finish(int kind);

// ---------------------------------------------------------------- state merging
// A branch whose sides rejoin at its immediate post-dominator is executed on both sides in this process and
// the differing registers and bytes are joined with if-then-else terms.  Whatever the region does that
// cannot be undone (allocation, harness calls, panics, forks ...) abandons the attempt: everything is
// restored and the branch forks as usual.
struct Bail { const char *why; };
static int spec = 0;            // nesting of regions being executed speculatively
static Ref specCond = 0;        // conjunction of the side conditions of those regions
static uint64_t specN = 0;      // instructions left for the outermost attempt
static size_t stopDepth = 0; static int32_t stopPc = -1;
static bool mergeOn = true;
static bool specPrecise = false, specSkipped = false; // nested feasibility: ask Z3 too, or only tabulate
struct WRec { uint64_t a; uint32_t n, off; };
static std::vector<WRec> wlog; static std::vector<uint8_t> wbytes; static std::vector<Ref> wrefs;
[[noreturn]] static void bail(const char *why) { throw Bail{why}; }

static std::string backtrace() {
  std::string s = "[";
  int k = 0;
  for (int i = (int)frames.size() - 1; i >= 0 && k < 40; i--) {
    Frame &f = frames[i];
    auto &in = f.c->code[f.pc ? f.pc - 1 : 0];
    const DILocation *d = in.I ? in.I->getDebugLoc().get() : nullptr;
    std::string nm = demangle(f.c->f->getName().str());
    while (d && k < 40) {
      auto *sp = d->getScope()->getSubprogram();
      std::string t = (sp ? demangle((sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str()) : nm) + " (" + d->getFilename().str() + ":" + std::to_string(d->getLine()) + ")";
      s += (k++ ? ",\"" : "\"") + jesc(t) + "\"";
      d = d->getInlinedAt();
      if (!d) nm.clear();
    }
    if (!nm.empty()) s += (k++ ? ",\"" : "\"") + jesc(nm) + "\"";
  }
  return s + "]";
}

static std::vector<Val> observed;
static std::vector<uint32_t> inputVars; // var ids in creation order

static std::string valsJson(const std::vector<uint64_t> &m) {
  std::string s = "[";
  for (size_t i = 0; i < inputVars.size(); i++) {
    if (i) s += ",";
    s += "[" + std::to_string(X.vars[inputVars[i]].w) + "," + std::to_string(m[inputVars[i]]) + "]";
  }
  return s + "]";
}

[[noreturn]] static void fatal(const std::string &msg) {
  if (spec) bail("error");
  S->errors++;
  emit("{\"kind\":\"error\",\"what\":\"" + jesc(msg) + "\",\"stack\":" + backtrace() + ",\"vals\":" + valsJson(SV.model) + "}");
  S->stop = 1;
  finish(3);
}

static void violation(const std::string &what, int id, const std::vector<uint64_t> &m) {
  if (spec) bail("violation");
  uint64_t k = S->violations++;
  if (k < maxViol) emit("{\"kind\":\"violation\",\"what\":\"" + jesc(what) + "\",\"id\":" + std::to_string(id) + ",\"stack\":" + backtrace() + ",\"vals\":" + valsJson(m) + "}");
  if (k + 1 >= maxViol) S->stop = 2;
}

// ---------------------------------------------------------------- processes
// Every running process owns one token.  On a fork with a free token both sides run; without one the child
// takes over the parent's token and hands it back (through a pipe) when its own path ends, so at most
// (jobs x depth) processes are alive.  Nobody but the root waits for processes: it is the subreaper and
// looks at every exit status.
static int retFd = -1;
static void checkStatus(int st) {
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  S->killed++; S->errors++; S->stop = 1;
  emit("{\"kind\":\"error\",\"what\":\"worker process died (status " + std::to_string(st) + ")\",\"stack\":[],\"vals\":[]}");
}
static void flushStats() {
  S->z3q += SV.z3q; S->z3sat += SV.z3sat; S->z3unsat += SV.z3unsat; S->z3unk += SV.z3unk; S->domq += SV.domq;
  S->z3us += (uint64_t)(SV.z3time * 1e6); S->instrs += instrs;
  SV.z3q = SV.z3sat = SV.z3unsat = SV.z3unk = SV.domq = 0; SV.z3time = 0; instrs = 0;
}
[[noreturn]] static void finish(int kind) {
  if (spec) bail("path end");
  if (kind == 0) {
    S->paths++;
    if (S->sampled.load() < sampleMax) {
      // thin out: always the first 64, afterwards pseudo-randomly by path content
      uint64_t h = 1469598103934665603ull;
      for (auto v : SV.model) h = (h ^ v) * 1099511628211ull;
      uint64_t p = S->paths.load();
      uint64_t den = p < 64 ? 1 : p < 2000 ? 8 : p < 20000 ? 64 : 512;
      h ^= h >> 29;
      if (h % den == 0) {
        S->sampled++;
        X.newStamp();
        std::string o = "[";
        for (size_t i = 0; i < observed.size(); i++) {
          uint64_t v = observed[i].e ? (uint64_t)X.evalRec(observed[i].e, SV.model) : observed[i].v;
          o += (i ? "," : "") + std::to_string(v);
        }
        emit("{\"kind\":\"path\",\"vals\":" + valsJson(SV.model) + ",\"obs\":" + o + "]}");
      }
    }
  } else if (kind == 1) S->pruned++;
  flushStats();
  S->live--;
  if (retFd >= 0) { char c = 1; if (write(retFd, &c, 1) != 1) _exit(9); } else sem_post(&S->tokens);
  _exit(0);
}
// fork; returns true in the child
static bool forkSide() {
  if (S->stop.load()) finish(2);
  if (now_s() > deadline) { S->stop = 3; finish(2); }
  static const bool trace = getenv("SYMX_TRACE") != nullptr; // where do paths split?
  if (trace) { std::string b = backtrace(); fprintf(stderr, "FORK %s\n", b.substr(0, 700).c_str()); }
  bool par = sem_trywait(&S->tokens) == 0;
  int fds[2] = {-1, -1};
  if (!par && pipe(fds)) fatal("pipe failed");
  S->forks++;
  uint64_t l = ++S->live, mx = S->maxlive.load();
  while (l > mx && !S->maxlive.compare_exchange_weak(mx, l)) {}
  pid_t p = -1;
  for (int i = 0; p < 0 && i < 50; i++) { p = fork(); if (p < 0) usleep(100000); }
  if (p < 0) { if (par) sem_post(&S->tokens); fatal("fork failed"); }
  if (p == 0) {
    if (retFd >= 0) close(retFd);
    if (!par) close(fds[0]);
    retFd = par ? -1 : fds[1];
    SV.z3q = SV.z3sat = SV.z3unsat = SV.z3unk = SV.domq = 0; SV.z3time = 0; instrs = 0;
    return true;
  }
  if (!par) {
    close(fds[1]);
    char c; ssize_t r;
    while ((r = read(fds[0], &c, 1)) < 0 && errno == EINTR) {}
    close(fds[0]);
    if (r != 1) { S->errors++; S->stop = 1; } // the child died: the root reports it
  }
  for (int st; waitpid(-1, &st, WNOHANG) > 0;) checkStatus(st);
  return false;
}

// ---------------------------------------------------------------- decisions
static void slowQuery(double t0) { // where is the time spent?
  static const bool qtrace = getenv("SYMX_QTRACE") != nullptr;
  if (qtrace && now_s() - t0 > 0.02) fprintf(stderr, "QUERY %.2f %s\n", now_s() - t0, backtrace().substr(0, 400).c_str());
}
static bool decide(Ref c) {
  if (X.isc(c)) return X.kv(c) != 0;
  if (spec) bail("decision");
  bool m = X.eval(c, SV.model) == 1;
  Ref mine = m ? c : X.lnot(c), other = m ? X.lnot(c) : c;
  std::vector<uint64_t> nm;
  double t0 = now_s();
  int r = SV.feasible(other, nm);
  slowQuery(t0);
  if (r < 0) fatal("solver returned unknown");
  if (r == 0) return m;
  if (forkSide()) { SV.model = nm; SV.add(other); return !m; }
  SV.add(mine);
  if (S->stop.load()) finish(2);
  return m;
}
static void assume(Ref c) {
  if (X.isc(c)) { if (!X.kv(c)) finish(1); return; }
  if (X.eval(c, SV.model) != 1) {
    std::vector<uint64_t> nm;
    int r = SV.feasible(c, nm);
    if (r < 0) fatal("solver returned unknown");
    if (r == 0) finish(1);
    SV.model = nm;
  }
  SV.add(c);
}
static uint64_t concretize(Ref e) {
  for (;;) {
    uint64_t v = (uint64_t)X.eval(e, SV.model);
    if (X.isc(e)) return v;
    if (decide(X.mk(E_EQ, 1, e, X.cst(v, X.w(e))))) return v;
  }
}
static inline Ref toE(const Val &v, unsigned w) { return v.e ? v.e : X.cst(v.v, w); }
static inline Val ofE(Ref e) { if (X.isc(e)) return Val{(uint64_t)X.kv(e), 0}; return Val{0, e}; }
static inline uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline uint64_t conc(const Val &v) { return v.e ? concretize(v.e) : v.v; }

// ---------------------------------------------------------------- loads and stores
static Val loadC(uint64_t a, unsigned w) { // concrete address, w <= 64 bits
  unsigned n = (w + 7) / 8;
  if (!inArena(a, n)) fatal("load outside guest memory");
  if (!pgSym(a, n)) {
    uint64_t v = 0; memcpy(&v, (void *)a, n);
    return Val{v & msk(w), 0};
  }
  Ref *s = sh(a);
  bool any = false;
  for (unsigned i = 0; i < n; i++) any |= s[i] != 0;
  if (!any) { uint64_t v = 0; memcpy(&v, (void *)a, n); return Val{v & msk(w), 0}; }
  Ref e = 0;
  for (unsigned i = 0; i < n; i++) {
    Ref b = s[i] ? s[i] : X.cst(*(uint8_t *)(a + i), 8);
    e = e ? X.mk(E_CONCAT, 8 * (i + 1), b, e) : b;
  }
  if (8 * n != w) e = X.mk(E_EXTRACT, w, e, 0, 0, 0);
  return ofE(e);
}
static void noteWrite(uint64_t a, uint64_t n) {
  if (!spec) return;
  if (n > 256 || wbytes.size() > 4096) bail("large write");
  uint32_t o = wbytes.size();
  wlog.push_back({a, (uint32_t)n, o});
  wbytes.insert(wbytes.end(), (uint8_t *)a, (uint8_t *)a + n);
  wrefs.insert(wrefs.end(), sh(a), sh(a) + n);
}
static void undoWrites(size_t mark) {
  while (wlog.size() > mark) {
    WRec r = wlog.back(); wlog.pop_back();
    memcpy((void *)r.a, &wbytes[r.off], r.n);
    if (pgSym(r.a, r.n)) memcpy(sh(r.a), &wrefs[r.off], 4 * r.n);
    wbytes.resize(r.off); wrefs.resize(r.off);
  }
}
static void storeC(uint64_t a, unsigned w, const Val &v) {
  unsigned n = (w + 7) / 8;
  if (!inArena(a, n)) fatal("store outside guest memory");
  noteWrite(a, n);
  if (!v.e) {
    memcpy((void *)a, &v.v, n);
    if (pgSym(a, n)) memset(sh(a), 0, 4 * n);
    return;
  }
  Ref e = v.e;
  if (8 * n != w) e = X.mk(E_ZEXT, 8 * n, e);
  setPg(a, n);
  Ref *s = sh(a);
  for (unsigned i = 0; i < n; i++) {
    Ref b = X.mk(E_EXTRACT, 8, e, 0, 0, 8 * i);
    if (X.isc(b)) { s[i] = 0; *(uint8_t *)(a + i) = (uint8_t)X.kv(b); }
    else { s[i] = b; *(uint8_t *)(a + i) = 0xEE; }
  }
}
// base + stride * [0, count): a superset of the values of an address expression
static bool strided(Ref e, uint64_t &base, uint64_t &stride, uint64_t &count, int d = 0) {
  const Expr ex = X.n[e];
  if (d > 8) return false;
  if (ex.op == E_ADD && X.isc(ex.b)) { if (!strided(ex.a, base, stride, count, d + 1)) return false; base += (uint64_t)X.kv(ex.b); return true; }
  if (ex.op == E_SHL && X.isc(ex.b)) {
    u128 h = X.hi(ex.a); if (h > 300 || X.kv(ex.b) > 16) return false;
    base = 0; stride = 1ull << (unsigned)X.kv(ex.b); count = (uint64_t)h + 1; return true;
  }
  if (ex.op == E_MUL && X.isc(ex.b)) {
    u128 h = X.hi(ex.a); if (h > 300 || X.kv(ex.b) > 65536) return false;
    base = 0; stride = (uint64_t)X.kv(ex.b); count = (uint64_t)h + 1; return true;
  }
  if (ex.op == E_ZEXT) { uint64_t b, s, c; if (strided(ex.a, b, s, c, d + 1) && b + s * c <= X.hi(e) + s) { base = b; stride = s; count = c; return true; } }
  u128 h = X.hi(e);
  if (h > 300) return false;
  base = 0; stride = 1; count = (uint64_t)h + 1; return true;
}
// candidate values of an expression
static bool candidates(Ref e, std::vector<uint64_t> &out) {
  { uint64_t b, st, c; if (X.n[e].sup != SUP_NONE && strided(e, b, st, c) && c <= 300) {
      bool big = X.n[e].sup == SUP_MULTI || X.vars[X.n[e].sup - 1].w > 8;
      if (big) { for (uint64_t i = 0; i < c; i++) out.push_back(b + st * i); std::sort(out.begin(), out.end()); return true; } } }
  std::set<uint64_t> s;
  if (!SV.values(e, s, 300)) {
    const Expr ex = X.n[e];
    if (ex.sup == SUP_MULTI || ex.sup == SUP_NONE) return false;
    uint32_t v = ex.sup - 1;
    unsigned w = X.vars[v].w;
    if (w > 16) return false;
    s.clear();
    std::vector<uint64_t> m = SV.model;
    for (uint64_t x = 0; x < (1ull << w); x++) {
      if (w <= 8 && !SV.dom[v][x]) continue;
      m[v] = x; X.newStamp();
      s.insert((uint64_t)X.evalRec(e, m));
      if (s.size() > 300) return false;
    }
  }
  out.assign(s.begin(), s.end());
  return !out.empty();
}
static Val load(const Val &p, unsigned w) {
  if (!p.e) return loadC(p.v, w);
  std::vector<uint64_t> c;
  if (candidates(p.e, c)) {
    bool ok = true, allc = true;
    for (auto a : c) ok &= inArena(a, (w + 7) / 8);
    if (ok) {
      std::vector<Val> vs;
      for (auto a : c) { vs.push_back(loadC(a, w)); allc &= vs.back().e == 0; }
      if (c.size() == 1) return vs[0];
      if (allc) {
        Table t; t.keys = c;
        bool same = true;
        for (auto &v : vs) { t.vals.push_back(v.v); same &= v.v == vs[0].v; }
        if (same) return vs[0];
        if (c.size() > 3) {
          X.tables.push_back(t);
          return ofE(X.mk(E_TABLE, w, p.e, 0, 0, X.tables.size() - 1));
        }
      }
      Ref r = 0;
      for (size_t i = 0; i < c.size(); i++) {
        Ref xe = toE(vs[i], w);
        r = r ? X.mk(E_ITE, w, X.mk(E_EQ, 1, p.e, X.cst(c[i], 64)), xe, r) : xe;
      }
      return ofE(r);
    }
  }
  return loadC(concretize(p.e), w);
}
static void store(const Val &p, unsigned w, const Val &v) { storeC(conc(p), w, v); }

static void memmoveG(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  if (!inArena(d, n) || !inArena(s, n)) fatal("memcpy outside guest memory");
  noteWrite(d, n);
  bool ps = pgSym(s, n), pd = pgSym(d, n);
  memmove((void *)d, (void *)s, n);
  if (ps) { setPg(d, n); memmove(sh(d), sh(s), 4 * n); }
  else if (pd) memset(sh(d), 0, 4 * n);
}
// copy with a possibly symbolic source address (number formatting copies from a digit table)
static void copyFrom(uint64_t d, const Val &s, uint64_t n) {
  std::vector<uint64_t> c;
  if (!s.e || n > 16 || !candidates(s.e, c)) { memmoveG(d, conc(s), n); return; }
  std::vector<std::pair<unsigned, Val>> parts;
  uint64_t o = 0;
  while (o < n) {
    unsigned k = n - o >= 8 ? 8 : n - o >= 4 ? 4 : n - o >= 2 ? 2 : 1;
    Val a = o ? ofE(X.mk(E_ADD, 64, s.e, X.cst(o, 64))) : s;
    parts.push_back({k, load(a, 8 * k)});
    o += k;
  }
  o = 0;
  for (auto &p : parts) { storeC(d + o, 8 * p.first, p.second); o += p.first; }
}
static void memsetG(uint64_t d, const Val &v, uint64_t n) {
  if (!n) return;
  if (!inArena(d, n)) fatal("memset outside guest memory");
  if (!v.e) { noteWrite(d, n); memset((void *)d, (int)v.v, n); if (pgSym(d, n)) memset(sh(d), 0, 4 * n); }
  else for (uint64_t i = 0; i < n; i++) storeC(d + i, 8, v);
}
static std::unordered_map<uint64_t, std::vector<uint64_t>> freeLists;
static uint64_t gmalloc(uint64_t n, uint64_t al) {
  if (al < 16) al = 16;
  uint64_t cls = 16; while (cls < n) cls = cls < 4096 ? cls * 2 : cls + 4096;
  if (al == 16) { auto it = freeLists.find(cls); if (it != freeLists.end() && !it->second.empty()) { uint64_t p = it->second.back(); it->second.pop_back(); *(uint64_t *)(p - 8) = n; return p; } }
  uint64_t p = (heapTop + 16 + al - 1) & ~(al - 1);
  if (p + cls > heapEnd) fatal("guest heap exhausted");
  *(uint64_t *)(p - 8) = n; *(uint64_t *)(p - 16) = al == 16 ? cls : 0;
  heapTop = p + cls;
  return p;
}
static void gfree(uint64_t p) { if (p) { uint64_t cls = *(uint64_t *)(p - 16); if (cls) freeLists[cls].push_back(p); } }
static uint64_t gsize(uint64_t p) { return *(uint64_t *)(p - 8); }

// ---------------------------------------------------------------- types and constants
static uint32_t slots(Type *t) {
  if (t->isVoidTy()) return 0;
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 128) return 0; return w <= 64 ? 1 : 2; }
  if (t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) return 1;
  if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * slots(v->getElementType());
  if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slots(a->getElementType());
  if (auto *s = dyn_cast<StructType>(t)) { uint32_t n = 0; for (auto *e : s->elements()) n += slots(e); return n; }
  return 0;
}
static unsigned scalarW(Type *t) {
  if (auto *v = dyn_cast<FixedVectorType>(t)) t = v->getElementType();
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy() || t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static void layout(Type *t, uint64_t off, std::vector<Leaf> &out) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w <= 64) out.push_back({(uint32_t)off, (uint16_t)w}); else { out.push_back({(uint32_t)off, 64}); out.push_back({(uint32_t)off + 8, (uint16_t)(w - 64)}); } return; }
  if (t->isPointerTy() || t->isDoubleTy()) { out.push_back({(uint32_t)off, 64}); return; }
  if (t->isFloatTy()) { out.push_back({(uint32_t)off, 32}); return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeSizeInBits(v->getElementType()) / 8; for (unsigned i = 0; i < v->getNumElements(); i++) layout(v->getElementType(), off + i * sz, out); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) layout(a->getElementType(), off + i * sz, out); return; }
  if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) layout(s->getElementType(i), off + sl->getElementOffset(i), out); return; }
}
static uint64_t addrOf(const GlobalValue *g) {
  if (auto *al = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  if (auto *f = dyn_cast<Function>(g)) { fnByAddr.push_back(const_cast<Function *>(f)); return gaddr[g] = FNB + 16 * fnByAddr.size(); }
  // late: external global without definition
  uint64_t p = gmalloc(64, 16); memset((void *)p, 0, 64);
  return gaddr[g] = p;
}
static uint64_t constInt(const Constant *c);
static void flatten(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    out.push_back({ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0), 0});
    if (ci->getBitWidth() > 64) out.push_back({ci->getValue().extractBitsAsZExtValue(ci->getBitWidth() - 64, 64), 0});
    return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back({cf->getValueAPF().bitcastToAPInt().getZExtValue(), 0}); return; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (uint32_t i = 0, n = slots(t); i < n; i++) out.push_back({0, 0}); return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) flatten(ca->getOperand(i), out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) flatten(cd->getElementAsConstant(i), out); return; }
  out.push_back({constInt(c), 0});
}
static uint64_t constInt(const Constant *c) {
  if (auto *g = dyn_cast<GlobalValue>(c)) return addrOf(g);
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0);
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
      return constInt(ce->getOperand(0)) + off.getSExtValue(); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constInt(ce->getOperand(0));
    case Instruction::Trunc: return constInt(ce->getOperand(0)) & msk(ce->getType()->getIntegerBitWidth());
    case Instruction::Add: return constInt(ce->getOperand(0)) + constInt(ce->getOperand(1));
    case Instruction::Sub: return (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & msk(scalarW(ce->getType()));
    case Instruction::And: return constInt(ce->getOperand(0)) & constInt(ce->getOperand(1));
    case Instruction::ICmp: {
      uint64_t x = constInt(ce->getOperand(0)), y = constInt(ce->getOperand(1));
      if (ce->getPredicate() == CmpInst::ICMP_EQ) return x == y;
      if (ce->getPredicate() == CmpInst::ICMP_NE) return x != y;
      break; }
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  fatal("unsupported constant " + s);
}
static void initMem(const Constant *c, uint64_t a) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(cs->getOperand(i), a + sl->getElementOffset(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(ca->getOperand(i), a + i * sz); return; }
  std::vector<Val> vs; flatten(c, vs);
  std::vector<Leaf> ls; layout(t, 0, ls);
  for (size_t i = 0; i < ls.size(); i++) memcpy((void *)(a + ls[i].off), &vs[i].v, (ls[i].w + 7) / 8);
}

// ---------------------------------------------------------------- translation
enum Builtin { B_NONE = 0, B_INTRIN, B_SYM, B_ASSUME, B_ASSERT, B_COVER, B_OBSERVE, B_CONCR, B_PANIC, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMALIGN, B_PMEMALIGN,
  B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_MEMCHR, B_MEMRCHR, B_ZERO, B_ABORT, B_ASM, B_WRITE, B_GETRANDOM, B_SYSCALL, B_ERRNO, B_TIME, B_FLOOR, B_MUTE, B_FAIL, B_ONE, B_UNKNOWN };

static int builtinFor(const Function *f) {
  StringRef n = f->getName();
  static const std::map<std::string, int> tab = {
    {"symx_u8", B_SYM}, {"symx_u16", B_SYM}, {"symx_u32", B_SYM}, {"symx_u64", B_SYM}, {"symx_bool", B_SYM},
    {"symx_assume", B_ASSUME}, {"symx_assert", B_ASSERT}, {"symx_cover", B_COVER}, {"symx_observe", B_OBSERVE}, {"symx_concretize", B_CONCR},
    {"rust_begin_unwind", B_PANIC}, {"abort", B_ABORT}, {"exit", B_ABORT}, {"_exit", B_ABORT},
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"aligned_alloc", B_MEMALIGN}, {"posix_memalign", B_PMEMALIGN},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR}, {"memrchr", B_MEMRCHR},
    {"getenv", B_ZERO}, {"__cxa_thread_atexit_impl", B_ZERO}, {"pthread_key_create", B_ZERO}, {"pthread_setspecific", B_ZERO}, {"pthread_getspecific", B_ZERO}, {"pthread_self", B_ZERO},
    {"write", B_WRITE}, {"writev", B_WRITE}, {"getrandom", B_GETRANDOM}, {"syscall", B_SYSCALL}, {"__errno_location", B_ERRNO}, {"sched_yield", B_ZERO}, {"open64", B_FAIL}, {"open", B_FAIL}, {"sched_getaffinity", B_FAIL}, {"readlink", B_FAIL}, {"getcwd", B_ZERO}, {"close", B_ZERO}, {"sysconf", B_ONE},
  };
  auto it = tab.find(n.str());
  if (it != tab.end()) return it->second;
  if (f->isIntrinsic()) return B_INTRIN;
  if (n.starts_with("_ZN4core9panicking") || n.starts_with("_ZN3std9panicking11begin_panic") || n.starts_with("_ZN3std9panicking20rust_panic_with_hook") ||
      n.starts_with("_ZN4core6result13unwrap_failed") || n.starts_with("_ZN4core6option13expect_failed") || n.starts_with("_ZN4core6option13unwrap_failed") ||
      n.starts_with("_ZN4core3str16slice_error_fail") || n.starts_with("_ZN4core5slice5index") && n.contains("_fail") || n.starts_with("_ZN4core4cell22panic_already") || n.starts_with("_ZN5alloc5alloc18handle_alloc_error") || n.starts_with("_ZN5alloc7raw_vec17capacity_overflow"))
    return B_PANIC;
  if (f->isDeclaration() && !f->isMaterializable()) return B_UNKNOWN;
  return B_NONE;
}

struct Translator {
  Code *C; Function *F;
  DenseMap<const Value *, int32_t> reg;
  DenseMap<const Constant *, int32_t> creg;
  DenseMap<const BasicBlock *, int32_t> pcOf;
  std::vector<std::pair<Edge *, std::pair<const BasicBlock *, const BasicBlock *>>> fix;

  int32_t op(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = creg.find(c);
      if (it != creg.end()) return it->second;
      int32_t idx = ~(int32_t)C->consts.size();
      size_t before = C->consts.size();
      std::vector<Val> tmp; flatten(c, tmp);
      C->consts.insert(C->consts.end(), tmp.begin(), tmp.end());
      if (C->consts.size() == before) C->consts.push_back({0, 0});
      creg[c] = idx;
      return idx;
    }
    auto it = reg.find(v);
    if (it != reg.end()) return it->second;
    uint32_t n = slots(v->getType());
    int32_t r = C->nregs; C->nregs += n ? n : 1;
    reg[v] = r;
    C->regVal.push_back({r, v});
    return r;
  }
  Edge *edge(const BasicBlock *from, const BasicBlock *to) {
    Edge *e = new Edge(); C->edges.push_back(e);
    fix.push_back({e, {from, to}});
    return e;
  }
  uint32_t lay(Type *t) { std::vector<Leaf> l; layout(t, 0, l); C->layouts.push_back(l); return C->layouts.size() - 1; }

  void run() {
    for (auto &a : F->args()) { uint32_t n = slots(a.getType()); reg[&a] = C->nregs; if (n) C->regVal.push_back({(int32_t)C->nregs, &a}); C->nregs += n; }
    for (auto &bb : *F) {
      pcOf[&bb] = C->code.size();
      for (auto &I : bb) one(I);
    }
    for (auto &f : fix) {
      f.first->pc = pcOf[f.second.second];
      for (auto &phi : f.second.second->phis()) {
        const Value *v = phi.getIncomingValueForBlock(f.second.first);
        uint32_t n = slots(phi.getType());
        f.first->copies.push_back({op(&phi), op(v), n});
      }
    }
    C->pcOf = pcOf;
  }
  void push(Inst i) { C->code.push_back(i); }
  void one(const Instruction &I) {
    Inst in; memset(&in, 0, sizeof in); in.I = &I; in.lanes = 1;
    Type *T = I.getType();
    if (auto *vt = dyn_cast<FixedVectorType>(T)) in.lanes = vt->getNumElements();
    if (isa<PHINode>(I)) { op(&I); return; }
    if (!T->isVoidTy()) in.dst = op(&I);
    auto unsup = [&]() { in.op = O_UNSUP; push(in); };
    if (auto *b = dyn_cast<BinaryOperator>(&I)) {
      in.w = scalarW(T); in.a = op(b->getOperand(0)); in.b = op(b->getOperand(1));
      in.op = O_BIN;
      switch (b->getOpcode()) {
      case Instruction::Add: in.sub = E_ADD; break; case Instruction::Sub: in.sub = E_SUB; break; case Instruction::Mul: in.sub = E_MUL; break;
      case Instruction::UDiv: in.sub = E_UDIV; break; case Instruction::SDiv: in.sub = E_SDIV; break; case Instruction::URem: in.sub = E_UREM; break; case Instruction::SRem: in.sub = E_SREM; break;
      case Instruction::And: in.sub = E_AND; break; case Instruction::Or: in.sub = E_OR; break; case Instruction::Xor: in.sub = E_XOR; break;
      case Instruction::Shl: in.sub = E_SHL; break; case Instruction::LShr: in.sub = E_LSHR; break; case Instruction::AShr: in.sub = E_ASHR; break;
      case Instruction::FAdd: in.op = O_FBIN; in.sub = E_FADD; break; case Instruction::FSub: in.op = O_FBIN; in.sub = E_FSUB; break;
      case Instruction::FMul: in.op = O_FBIN; in.sub = E_FMUL; break; case Instruction::FDiv: in.op = O_FBIN; in.sub = E_FDIV; break;
      default: return unsup();
      }
      push(in); return;
    }
    switch (I.getOpcode()) {
    case Instruction::FNeg: in.op = O_FNEG; in.w = scalarW(T); in.a = op(I.getOperand(0)); push(in); return;
    case Instruction::ICmp: { in.op = O_ICMP; in.sub = cast<ICmpInst>(I).getPredicate(); in.w = scalarW(I.getOperand(0)->getType()); in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); push(in); return; }
    case Instruction::FCmp: { in.op = O_FCMP; in.sub = cast<FCmpInst>(I).getPredicate(); in.w = scalarW(I.getOperand(0)->getType()); in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); push(in); return; }
    case Instruction::ZExt: in.sub = C_ZEXT; goto cast_;
    case Instruction::SExt: in.sub = C_SEXT; goto cast_;
    case Instruction::Trunc: in.sub = C_TRUNC; goto cast_;
    case Instruction::FPExt: in.sub = C_FEXT; goto cast_;
    case Instruction::FPTrunc: in.sub = C_FTRUNC; goto cast_;
    case Instruction::SIToFP: in.sub = C_SITOFP; goto cast_;
    case Instruction::UIToFP: in.sub = C_UITOFP; goto cast_;
    case Instruction::FPToSI: in.sub = C_FPTOSI; goto cast_;
    case Instruction::FPToUI: in.sub = C_FPTOUI; goto cast_;
    case Instruction::PtrToInt: in.sub = scalarW(T) < 64 ? C_TRUNC : C_ZEXT; goto cast_;
    case Instruction::IntToPtr: in.sub = C_ZEXT; goto cast_;
    cast_: in.op = O_CAST; in.w = scalarW(I.getOperand(0)->getType()); in.w2 = scalarW(T); in.a = op(I.getOperand(0)); push(in); return;
    case Instruction::BitCast: {
      Type *s = I.getOperand(0)->getType();
      in.a = op(I.getOperand(0));
      if (slots(s) == slots(T) && scalarW(s) == scalarW(T)) { in.op = O_COPY; in.n = slots(T); push(in); return; }
      in.op = O_BITCAST; in.w = scalarW(s); in.w2 = scalarW(T);
      in.n = isa<FixedVectorType>(s) ? cast<FixedVectorType>(s)->getNumElements() : 1;
      push(in); return; }
    case Instruction::Freeze: in.op = O_COPY; in.a = op(I.getOperand(0)); in.n = slots(T); push(in); return;
    case Instruction::Load: { in.op = O_LOAD; in.a = op(I.getOperand(0)); in.n = lay(T); in.w = C->layouts[in.n].size() == 1 ? C->layouts[in.n][0].w : 0; push(in); return; }
    case Instruction::Store: { in.op = O_STORE; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.n = lay(I.getOperand(0)->getType()); in.w = C->layouts[in.n].size() == 1 ? C->layouts[in.n][0].w : 0; push(in); return; }
    case Instruction::Alloca: {
      auto &a = cast<AllocaInst>(I);
      in.op = O_ALLOCA; in.a = op(a.getArraySize()); in.imm = DL->getTypeAllocSize(a.getAllocatedType()); in.n = a.getAlign().value(); push(in); return; }
    case Instruction::GetElementPtr: {
      auto &g = cast<GetElementPtrInst>(I);
      if (isa<VectorType>(T)) return unsup();
      in.op = O_GEP; in.a = op(g.getPointerOperand());
      int64_t k = 0; std::vector<GepIx> ix;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Value *v = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull()) { k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); continue; }
        int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(v)) { k += sc * ci->getSExtValue(); continue; }
        ix.push_back({op(v), (uint16_t)v->getType()->getIntegerBitWidth(), sc});
      }
      in.imm = (uint64_t)k;
      if (ix.empty()) in.n = 0; else { C->geps.push_back(ix); in.n = C->geps.size(); }
      push(in); return; }
    case Instruction::Br: {
      auto &b = cast<BranchInst>(I);
      if (b.isUnconditional()) { in.op = O_BR; in.imm = (uint64_t)edge(I.getParent(), b.getSuccessor(0)); push(in); return; }
      in.op = O_CBR; in.a = op(b.getCondition());
      in.imm = (uint64_t)edge(I.getParent(), b.getSuccessor(0));
      Edge *e2 = edge(I.getParent(), b.getSuccessor(1));
      in.n = C->edges.size() - 1; (void)e2;
      push(in); return; }
    case Instruction::Switch: {
      auto &s = cast<SwitchInst>(I);
      in.op = O_SWITCH; in.a = op(s.getCondition()); in.w = scalarW(s.getCondition()->getType());
      auto *si = new SwitchInfo();
      si->def = edge(I.getParent(), s.getDefaultDest());
      for (auto &c : s.cases()) si->cases.push_back({c.getCaseValue()->getValue().extractBitsAsZExtValue(std::min(64u, c.getCaseValue()->getBitWidth()), 0), edge(I.getParent(), c.getCaseSuccessor())});
      C->switches.push_back(si); in.n = C->switches.size() - 1; push(in); return; }
    case Instruction::Ret: { in.op = O_RET; auto &r = cast<ReturnInst>(I); if (r.getReturnValue()) { in.a = op(r.getReturnValue()); in.n = slots(r.getReturnValue()->getType()); } push(in); return; }
    case Instruction::Select: { in.op = O_SELECT; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.c = op(I.getOperand(2)); in.n = slots(T); in.w = scalarW(T); in.sub = isa<VectorType>(I.getOperand(0)->getType()); 
      if (!in.w) { in.n = slots(T); std::vector<Leaf> l; layout(T, 0, l); C->layouts.push_back(l); in.imm = C->layouts.size() - 1; }
      push(in); return; }
    case Instruction::ExtractValue: {
      auto &e = cast<ExtractValueInst>(I);
      uint32_t off = 0; Type *t = e.getAggregateOperand()->getType();
      for (unsigned k : e.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) off += slots(st->getElementType(j)); t = st->getElementType(k); } else { t = cast<ArrayType>(t)->getElementType(); off += k * slots(t); } }
      in.op = O_COPY; in.a = op(e.getAggregateOperand()); if (in.a >= 0) in.a += off; else in.a -= off; in.n = slots(T); push(in); return; }
    case Instruction::InsertValue: {
      auto &e = cast<InsertValueInst>(I);
      uint32_t off = 0; Type *t = T;
      for (unsigned k : e.indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) off += slots(st->getElementType(j)); t = st->getElementType(k); } else { t = cast<ArrayType>(t)->getElementType(); off += k * slots(t); } }
      in.op = O_COPY; in.a = op(e.getAggregateOperand()); in.n = slots(T); push(in);
      in.a = op(e.getInsertedValueOperand()); in.dst += off; in.n = slots(e.getInsertedValueOperand()->getType()); push(in); return; }
    case Instruction::ExtractElement: in.op = O_XELT; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.n = slots(T); push(in); return;
    case Instruction::InsertElement: in.op = O_IELT; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.c = op(I.getOperand(2)); in.n = slots(I.getOperand(1)->getType()); push(in); return;
    case Instruction::ShuffleVector: {
      auto &s = cast<ShuffleVectorInst>(I);
      std::vector<int> m; for (int k : s.getShuffleMask()) m.push_back(k);
      C->shuf.push_back(m); in.n = C->shuf.size() - 1; in.op = O_SHUF; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1));
      in.imm = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements(); push(in); return; }
    case Instruction::AtomicCmpXchg: in.op = O_CMPXCHG; in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.c = op(I.getOperand(2)); in.w = scalarW(I.getOperand(1)->getType()); push(in); return;
    case Instruction::AtomicRMW: in.op = O_RMW; in.sub = cast<AtomicRMWInst>(I).getOperation(); in.a = op(I.getOperand(0)); in.b = op(I.getOperand(1)); in.w = scalarW(T); push(in); return;
    case Instruction::Fence: return;
    case Instruction::Unreachable: in.op = O_UNREACH; push(in); return;
    case Instruction::Call: case Instruction::Invoke: {
      auto &cb = cast<CallBase>(I);
      auto *ci = new CallInfo(); ci->f = nullptr; ci->builtin = B_NONE; ci->callee = 0; ci->next = nullptr; ci->iid = 0;
      ci->rslots = slots(T); ci->rw = scalarW(T); ci->rlanes = in.lanes;
      Value *cv = cb.getCalledOperand()->stripPointerCasts();
      if (auto *ia = dyn_cast<InlineAsm>(cv)) {
        // code without effect (only a comment) hands its operand through; the processor is asked for no features
        ci->builtin = B_ASM;
        StringRef t = StringRef(ia->getAsmString()).trim();
        bool comment = t.empty() || (t.starts_with("/*") && t.ends_with("*/") && t.find("*/") == t.size() - 2) || (t.starts_with("#") && !t.contains('\n'));
        if (comment) ci->iid = ci->rslots == 0 ? 1 : (cb.arg_size() == 1 && cb.getArgOperand(0)->getType() == T ? 2 : 3);
        else ci->iid = t.contains("cpuid") || t.contains("xgetbv") ? 4 : 3;
      }
      else if (auto *f = dyn_cast<Function>(cv)) {
        ci->f = f; ci->builtin = builtinFor(f); ci->iid = f->getIntrinsicID();
        if (ci->builtin == B_INTRIN) {
          auto id = f->getIntrinsicID();
          if (id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_assign || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::prefetch || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::sideeffect || id == Intrinsic::donothing) { delete ci; return; }
        }
      } else if (auto *al = dyn_cast<GlobalAlias>(cv)) { ci->f = cast<Function>(al->getAliasee()->stripPointerCasts()); ci->builtin = builtinFor(ci->f); }
      else ci->callee = op(cv);
      if (ci->builtin != B_ASM || ci->iid == 2)
      for (auto &a : cb.args()) {
        if (a->getType()->isMetadataTy()) continue;
        ci->args.push_back({op(a), slots(a->getType())}); ci->argw.push_back(scalarW(a->getType()));
      }
      if (auto *iv = dyn_cast<InvokeInst>(&I)) ci->next = edge(I.getParent(), iv->getNormalDest());
      C->calls.push_back(ci); in.op = O_CALL; in.n = C->calls.size() - 1; push(in); return; }
    default: return unsup();
    }
  }
};

static Code *codeFor(Function *f) {
  auto it = codes.find(f);
  if (it != codes.end()) return it->second;
  if (f->isMaterializable()) { if (auto e = f->materialize()) fatal("materialize " + f->getName().str()); }
  if (f->isDeclaration()) fatal("call of undefined function " + f->getName().str());
  Code *c = new Code(); c->f = f; 
  Translator t; t.C = c; t.F = f; t.run();
  codes[f] = c;
  return c;
}
static DenseMap<const Function *, int> fnIndex;

// ---------------------------------------------------------------- interpreter
static inline Val *V(Frame &f, int32_t i) { return i >= 0 ? &regs[f.base + i] : &f.c->consts[~i]; }

static void takeEdge(Frame &f, Edge *e) {
  size_t n = e->copies.size();
  if (n == 1) { auto &c = e->copies[0]; Val *d = V(f, c.dst), *s = V(f, c.src); if (c.n == 1) *d = *s; else memmove(d, s, c.n * sizeof(Val)); }
  else if (n) {
    static std::vector<Val> tmp; tmp.clear();
    for (auto &c : e->copies) { Val *s = V(f, c.src); for (uint32_t i = 0; i < c.n; i++) tmp.push_back(s[i]); }
    size_t k = 0;
    for (auto &c : e->copies) { Val *d = V(f, c.dst); for (uint32_t i = 0; i < c.n; i++) d[i] = tmp[k++]; }
  }
  f.pc = e->pc;
}
static void enter(Function *fn, const std::vector<Val> &args, int32_t retDst, Edge *retEdge, uint32_t retN) {
  Code *c = codeFor(fn);
  S->fn[fnIndex[fn] & ((1 << 17) - 1)] = 1;
  if (frames.size() > 20000) fatal("guest recursion too deep");
  if (regTop + c->nregs + 16 > REGMAX) fatal("register stack exhausted");
  uint32_t b = regTop;
  regTop += c->nregs;
  for (size_t i = 0; i < args.size(); i++) regs[b + i] = args[i];
  frames.push_back({c, 0, b, stackTop, retDst, retEdge, retN});
}
static u128 join(const Val *p) { return (u128)p[0].v | ((u128)p[1].v << 64); }
static Ref joinE(const Val *p, unsigned w) { return X.mk(E_CONCAT, w, toE(p[1], w - 64), toE(p[0], 64)); }
static void split(Val *d, Ref e, unsigned w) { d[0] = ofE(X.mk(E_EXTRACT, 64, e, 0, 0, 0)); d[1] = ofE(X.mk(E_EXTRACT, w - 64, e, 0, 0, 64)); }

static Val bin(uint8_t op, unsigned w, const Val &a, const Val &b) {
  if (!(a.e | b.e)) {
    uint64_t x = a.v, y = b.v, m = msk(w);
    switch (op) {
    case E_ADD: return {(x + y) & m, 0};
    case E_SUB: return {(x - y) & m, 0};
    case E_MUL: return {(x * y) & m, 0};
    case E_AND: return {x & y, 0};
    case E_OR: return {x | y, 0};
    case E_XOR: return {x ^ y, 0};
    case E_SHL: return {y >= w ? 0 : (x << y) & m, 0};
    case E_LSHR: return {y >= w ? 0 : (x >> y), 0};
    case E_UDIV: if (y) return {x / y, 0}; break;
    case E_UREM: if (y) return {x % y, 0}; break;
    }
    return {(uint64_t)Exprs::apply(op, w, w, w, x, y, 0, 0), 0};
  }
  return ofE(X.mk(op, w, toE(a, w), toE(b, w)));
}
// A condition over one small variable that the variable's domain already decides.
static bool decided(Ref r, bool &val) {
  uint32_t sup = X.n[r].sup;
  if (sup == SUP_NONE || sup == SUP_MULTI || X.vars[sup - 1].w > 8) return false;
  uint32_t v = sup - 1;
  uint64_t keep = SV.model[v];
  int seen = 0;
  for (unsigned x = 0; x < 256 && seen != 3; x++) if (SV.dom[v][x]) {
    SV.model[v] = x; X.newStamp();
    seen |= X.evalRec(r, SV.model) ? 2 : 1;
  }
  SV.model[v] = keep;
  X.newStamp();
  if (seen == 3 || !seen) return false;
  val = seen == 2;
  SV.domq++;
  if (SV.picked(r)) SV.audit(val ? X.lnot(r) : r, 0);
  return true;
}
static Val icmp(unsigned pred, unsigned w, const Val &a, const Val &b) {
  if (!(a.e | b.e)) {
    uint64_t x = a.v, y = b.v;
    int64_t sx_ = (int64_t)sx(x, w), sy = (int64_t)sx(y, w);
    bool r = false;
    switch (pred) {
    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_SGT: r = sx_ > sy; break; case CmpInst::ICMP_SGE: r = sx_ >= sy; break; case CmpInst::ICMP_SLT: r = sx_ < sy; break; case CmpInst::ICMP_SLE: r = sx_ <= sy; break;
    }
    return {r, 0};
  }
  Ref x = toE(a, w), y = toE(b, w), r;
  switch (pred) {
  case CmpInst::ICMP_EQ: r = X.mk(E_EQ, 1, x, y); break;
  case CmpInst::ICMP_NE: r = X.lnot(X.mk(E_EQ, 1, x, y)); break;
  case CmpInst::ICMP_UGT: r = X.mk(E_ULT, 1, y, x); break;
  case CmpInst::ICMP_UGE: r = X.mk(E_ULE, 1, y, x); break;
  case CmpInst::ICMP_ULT: r = X.mk(E_ULT, 1, x, y); break;
  case CmpInst::ICMP_ULE: r = X.mk(E_ULE, 1, x, y); break;
  case CmpInst::ICMP_SGT: r = X.mk(E_SLT, 1, y, x); break;
  case CmpInst::ICMP_SGE: r = X.mk(E_SLE, 1, y, x); break;
  case CmpInst::ICMP_SLT: r = X.mk(E_SLT, 1, x, y); break;
  default: r = X.mk(E_SLE, 1, x, y); break;
  }
  bool v;
  if (decided(r, v)) return {v, 0};
  return ofE(r);
}
static Ref icmpE(unsigned pred, Ref x, Ref y) {
  switch (pred) {
  case CmpInst::ICMP_EQ: return X.mk(E_EQ, 1, x, y);
  case CmpInst::ICMP_NE: return X.lnot(X.mk(E_EQ, 1, x, y));
  case CmpInst::ICMP_UGT: return X.mk(E_ULT, 1, y, x);
  case CmpInst::ICMP_UGE: return X.mk(E_ULE, 1, y, x);
  case CmpInst::ICMP_ULT: return X.mk(E_ULT, 1, x, y);
  case CmpInst::ICMP_ULE: return X.mk(E_ULE, 1, x, y);
  case CmpInst::ICMP_SGT: return X.mk(E_SLT, 1, y, x);
  case CmpInst::ICMP_SGE: return X.mk(E_SLE, 1, y, x);
  case CmpInst::ICMP_SLT: return X.mk(E_SLT, 1, x, y);
  default: return X.mk(E_SLE, 1, x, y);
  }
}
static Val fcmp(unsigned p, unsigned w, const Val &a, const Val &b) {
  Ref x = toE(a, w), y = toE(b, w);
  auto OEQ = [&] { return X.mk(E_FOEQ, 1, x, y); };
  auto OLT = [&] { return X.mk(E_FOLT, 1, x, y); };
  auto OLE = [&] { return X.mk(E_FOLE, 1, x, y); };
  auto OGT = [&] { return X.mk(E_FOLT, 1, y, x); };
  auto OGE = [&] { return X.mk(E_FOLE, 1, y, x); };
  auto UNO = [&] { return X.mk(E_FUNO, 1, x, y); };
  switch (p) {
  case CmpInst::FCMP_FALSE: return {0, 0};
  case CmpInst::FCMP_TRUE: return {1, 0};
  case CmpInst::FCMP_OEQ: return ofE(OEQ());
  case CmpInst::FCMP_OGT: return ofE(OGT());
  case CmpInst::FCMP_OGE: return ofE(OGE());
  case CmpInst::FCMP_OLT: return ofE(OLT());
  case CmpInst::FCMP_OLE: return ofE(OLE());
  case CmpInst::FCMP_ONE: return ofE(X.mk(E_OR, 1, OLT(), OGT()));
  case CmpInst::FCMP_ORD: return ofE(X.lnot(UNO()));
  case CmpInst::FCMP_UNO: return ofE(UNO());
  case CmpInst::FCMP_UEQ: return ofE(X.lnot(X.mk(E_OR, 1, OLT(), OGT())));
  case CmpInst::FCMP_UGT: return ofE(X.lnot(OLE()));
  case CmpInst::FCMP_UGE: return ofE(X.lnot(OLT()));
  case CmpInst::FCMP_ULT: return ofE(X.lnot(OGE()));
  case CmpInst::FCMP_ULE: return ofE(X.lnot(OGT()));
  default: return ofE(X.lnot(OEQ()));
  }
}
static Val fcmpFast(unsigned p, unsigned w, const Val &a, const Val &b) {
  if (a.e | b.e) return fcmp(p, w, a, b);
  double x = w == 64 ? Exprs::d_of(a.v) : Exprs::f_of(a.v), y = w == 64 ? Exprs::d_of(b.v) : Exprs::f_of(b.v);
  bool un = std::isnan(x) || std::isnan(y), r = false;
  unsigned base = p & 7; // bits: E=1 G=2 L=4 U=8
  if (un) r = (p & 8) != 0; else r = (base & 1 && x == y) || (base & 2 && x > y) || (base & 4 && x < y);
  return {r, 0};
}
static void castOp(const Inst &in, Val *d, const Val *s) {
  unsigned w = in.w, w2 = in.w2;
  uint32_t sn = w > 64 ? 2 : 1, dn = w2 > 64 ? 2 : 1;
  if (sn == 1 && dn == 1) {
    if (!s->e) {
      uint64_t v = s->v;
      switch (in.sub) {
      case C_ZEXT: *d = {v, 0}; return;
      case C_SEXT: *d = {(uint64_t)(int64_t)sx(v, w) & msk(w2), 0}; return;
      case C_TRUNC: *d = {v & msk(w2), 0}; return;
      }
    }
    uint8_t eop = 0;
    switch (in.sub) {
    case C_ZEXT: eop = E_ZEXT; break; case C_SEXT: eop = E_SEXT; break; case C_TRUNC: eop = E_EXTRACT; break;
    case C_FEXT: eop = E_FEXT; break; case C_FTRUNC: eop = E_FTRUNC; break; case C_SITOFP: eop = E_SITOFP; break; case C_UITOFP: eop = E_UITOFP; break;
    case C_FPTOSI: eop = E_FPTOSI; break; case C_FPTOUI: eop = E_FPTOUI; break;
    }
    if (!s->e) { *d = {(uint64_t)Exprs::apply(eop, w2, w, 0, s->v, 0, 0, 0), 0}; return; }
    *d = ofE(X.mk(eop, w2, s->e)); return;
  }
  Ref e = sn == 1 ? toE(*s, w) : joinE(s, w), r;
  switch (in.sub) {
  case C_ZEXT: r = X.mk(E_ZEXT, w2, e); break;
  case C_SEXT: r = X.mk(E_SEXT, w2, e); break;
  case C_TRUNC: r = X.mk(E_EXTRACT, w2, e, 0, 0, 0); break;
  case C_SITOFP: r = X.mk(E_SITOFP, w2, e); break;
  case C_UITOFP: r = X.mk(E_UITOFP, w2, e); break;
  case C_FPTOSI: r = X.mk(E_FPTOSI, w2, e); break;
  case C_FPTOUI: r = X.mk(E_FPTOUI, w2, e); break;
  default: fatal("wide cast");
  }
  if (dn == 1) *d = ofE(r); else split(d, r, w2);
}
static Val ite(Ref c, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e && a.v == b.v) return a;
  return ofE(X.mk(E_ITE, w, c, toE(a, w), toE(b, w)));
}
static Val memcmpG(uint64_t a, uint64_t b, uint64_t n, bool isB) {
  if (n == 0) return {0, 0};
  if (!inArena(a, n) || !inArena(b, n)) fatal("memcmp outside guest memory");
  bool sym = pgSym(a, n) || pgSym(b, n);
  if (sym) { sym = false; Ref *x = sh(a), *y = sh(b); for (uint64_t i = 0; i < n; i++) sym |= (x[i] | y[i]) != 0; }
  if (!sym) { int r = memcmp((void *)a, (void *)b, n); return {(uint64_t)(uint32_t)(r < 0 ? -1 : r > 0 ? 1 : 0), 0}; }
  if (isB) {
    Ref eq = X.cst(1, 1);
    for (uint64_t i = 0; i < n; i++) {
      Ref t = X.mk(E_EQ, 1, toE(loadC(a + i, 8), 8), toE(loadC(b + i, 8), 8));
      if (X.isc(t) && !X.kv(t)) return {1, 0};
      eq = X.mk(E_AND, 1, eq, t);
    }
    return ofE(X.mk(E_ITE, 32, eq, X.cst(0, 32), X.cst(1, 32)));
  }
  Ref r = X.cst(0, 32);
  for (uint64_t k = n; k-- > 0;) {
    Ref x = toE(loadC(a + k, 8), 8), y = toE(loadC(b + k, 8), 8);
    Ref lt = X.mk(E_ITE, 32, X.mk(E_ULT, 1, x, y), X.cst(0xffffffff, 32), X.cst(1, 32));
    r = X.mk(E_ITE, 32, X.mk(E_EQ, 1, x, y), r, lt);
  }
  return ofE(r);
}
static Val cntz(const Val &a, unsigned w, bool lead) {
  if (!a.e) {
    uint64_t v = a.v; if (!v) return {w, 0};
    return {lead ? (uint64_t)(__builtin_clzll(v) - (64 - w)) : (uint64_t)__builtin_ctzll(v), 0};
  }
  Ref r = X.cst(w, w);
  for (unsigned i = 0; i < w; i++) {
    unsigned bit = lead ? i : w - 1 - i; // last one wins: highest bit for lead, lowest for trail
    Ref b = X.mk(E_EXTRACT, 1, a.e, 0, 0, bit);
    r = X.mk(E_ITE, w, b, X.cst(lead ? w - 1 - bit : bit, w), r);
  }
  return ofE(r);
}
static uint64_t errnoAddr = 0;

static void intrinsic(Frame &f, const Inst &in, CallInfo *ci) {
  auto A = [&](unsigned i) -> Val * { return V(f, ci->args[i].first); };
  Val *d = in.dst >= 0 ? &regs[f.base + in.dst] : nullptr;
  unsigned w = ci->argw.size() ? ci->argw[0] : 0;
  unsigned L = ci->rlanes;
  switch (ci->iid) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    uint64_t n = conc(*A(2)); if (n) copyFrom(conc(*A(0)), *A(1), n); return; }
  case Intrinsic::memset: { uint64_t n = conc(*A(2)); if (n) memsetG(conc(*A(0)), *A(1), n); return; }
  case Intrinsic::expect: *d = *A(0); return;
  case Intrinsic::is_constant: *d = {0, 0}; return;
  case Intrinsic::threadlocal_address: *d = *A(0); return;
  case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: *d = *A(0); return;
  case Intrinsic::ptrmask: *d = bin(E_AND, 64, *A(0), *A(1)); return;
  case Intrinsic::trap: case Intrinsic::ubsantrap: violation("trap", -1, SV.model); finish(2);
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    if (w > 64) {
      Ref a = joinE(A(0), w), b = joinE(A(1), w), r, o;
      if (ci->iid == Intrinsic::uadd_with_overflow) { r = X.mk(E_ADD, w, a, b); o = X.mk(E_ULT, 1, r, a); }
      else if (ci->iid == Intrinsic::usub_with_overflow) { r = X.mk(E_SUB, w, a, b); o = X.mk(E_ULT, 1, a, b); }
      else if (ci->iid == Intrinsic::umul_with_overflow) { r = X.mk(E_MUL, w, a, b); o = X.mk(E_UMULO, 1, a, b); }
      else fatal("wide signed overflow intrinsic");
      split(d, r, w); d[2] = ofE(o); return;
    }
    Val a = *A(0), b = *A(1);
    if (!(a.e | b.e)) {
      __int128 r; bool sg = ci->iid == Intrinsic::sadd_with_overflow || ci->iid == Intrinsic::ssub_with_overflow || ci->iid == Intrinsic::smul_with_overflow;
      __int128 x = sg ? sx(a.v, w) : (__int128)a.v, y = sg ? sx(b.v, w) : (__int128)b.v;
      bool big = false;
      if (ci->iid == Intrinsic::uadd_with_overflow || ci->iid == Intrinsic::sadd_with_overflow) r = x + y;
      else if (ci->iid == Intrinsic::usub_with_overflow || ci->iid == Intrinsic::ssub_with_overflow) r = x - y;
      else { if (!sg) { u128 p = (u128)x * (u128)y; d[0] = {(uint64_t)p & msk(w), 0}; d[1] = {(p >> w) != 0, 0}; return; } r = x * y; }
      bool o = sg ? sx((u128)r & mask128(w), w) != r : (r < 0 || (u128)r > mask128(w));
      d[0] = {(uint64_t)r & msk(w), 0}; d[1] = {o || big, 0}; return;
    }
    Ref x = toE(a, w), y = toE(b, w), r, o;
    auto neg = [&](Ref t) { return X.mk(E_EXTRACT, 1, t, 0, 0, w - 1); };
    switch (ci->iid) {
    case Intrinsic::uadd_with_overflow: r = X.mk(E_ADD, w, x, y); o = X.mk(E_ULT, 1, r, x); break;
    case Intrinsic::usub_with_overflow: r = X.mk(E_SUB, w, x, y); o = X.mk(E_ULT, 1, x, y); break;
    case Intrinsic::umul_with_overflow: r = X.mk(E_MUL, w, x, y); o = X.mk(E_UMULO, 1, x, y); break;
    case Intrinsic::sadd_with_overflow: r = X.mk(E_ADD, w, x, y); o = neg(X.mk(E_AND, w, X.mk(E_XOR, w, x, r), X.mk(E_XOR, w, y, r))); break;
    case Intrinsic::ssub_with_overflow: r = X.mk(E_SUB, w, x, y); o = neg(X.mk(E_AND, w, X.mk(E_XOR, w, x, y), X.mk(E_XOR, w, x, r))); break;
    default: r = X.mk(E_MUL, w, x, y); o = X.mk(E_SMULO, 1, x, y); break;
    }
    d[0] = ofE(r); d[1] = ofE(o); return;
  }
  case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
    if (w > 64) fatal("wide min/max/sat");
    for (unsigned i = 0; i < L; i++) {
      Val a = A(0)[i], b = A(1)[i];
      Ref x = toE(a, w), y = toE(b, w), r;
      switch (ci->iid) {
      case Intrinsic::uadd_sat: { Ref s = X.mk(E_ADD, w, x, y); r = X.mk(E_ITE, w, X.mk(E_ULT, 1, s, x), X.cst(~(u128)0, w), s); break; }
      case Intrinsic::usub_sat: r = X.mk(E_ITE, w, X.mk(E_ULT, 1, x, y), X.cst(0, w), X.mk(E_SUB, w, x, y)); break;
      case Intrinsic::umin: r = X.mk(E_ITE, w, X.mk(E_ULT, 1, x, y), x, y); break;
      case Intrinsic::umax: r = X.mk(E_ITE, w, X.mk(E_ULT, 1, x, y), y, x); break;
      case Intrinsic::smin: r = X.mk(E_ITE, w, X.mk(E_SLT, 1, x, y), x, y); break;
      case Intrinsic::smax: r = X.mk(E_ITE, w, X.mk(E_SLT, 1, x, y), y, x); break;
      default: {
        bool add = ci->iid == Intrinsic::sadd_sat;
        Ref s = X.mk(add ? E_ADD : E_SUB, w, x, y);
        Ref o = X.mk(E_EXTRACT, 1, X.mk(E_AND, w, X.mk(E_XOR, w, x, s), add ? X.mk(E_XOR, w, y, s) : X.mk(E_XOR, w, x, y)), 0, 0, w - 1);
        Ref lim = X.mk(E_ITE, w, X.mk(E_EXTRACT, 1, x, 0, 0, w - 1), X.cst((u128)1 << (w - 1), w), X.cst(((u128)1 << (w - 1)) - 1, w));
        r = X.mk(E_ITE, w, o, lim, s); }
      }
      d[i] = ofE(r);
    }
    return; }
  case Intrinsic::abs: { Ref x = toE(*A(0), w); *d = ofE(X.mk(E_ITE, w, X.mk(E_EXTRACT, 1, x, 0, 0, w - 1), X.mk(E_SUB, w, X.cst(0, w), x), x)); return; }
  case Intrinsic::ctlz: case Intrinsic::cttz: {
    if (w > 64) {
      u128 v = join(A(0)); if (A(0)[0].e | A(0)[1].e) fatal("wide ctlz");
      uint64_t r = w; 
      if (v) { r = 0; if (ci->iid == Intrinsic::ctlz) { while (!((v >> (w - 1 - r)) & 1)) r++; } else while (!((v >> r) & 1)) r++; }
      d[0] = {r, 0}; d[1] = {0, 0}; return;
    }
    for (unsigned i = 0; i < L; i++) d[i] = cntz(A(0)[i], w, ci->iid == Intrinsic::ctlz);
    return; }
  case Intrinsic::ctpop:
    for (unsigned i = 0; i < L; i++) {
      Val a = A(0)[i];
      if (!a.e) d[i] = {(uint64_t)__builtin_popcountll(a.v), 0};
      else { Ref r = X.cst(0, w); for (unsigned k = 0; k < w; k++) r = X.mk(E_ADD, w, r, X.mk(E_ZEXT, w, X.mk(E_EXTRACT, 1, a.e, 0, 0, k))); d[i] = ofE(r); }
    }
    return;
  case Intrinsic::bswap: {
    if (w > 64) fatal("wide bswap");
    Val a = *A(0);
    if (!a.e) { *d = {__builtin_bswap64(a.v) >> (64 - w), 0}; return; }
    Ref r = 0; for (unsigned k = 0; k < w; k += 8) { Ref b = X.mk(E_EXTRACT, 8, a.e, 0, 0, k); r = r ? X.mk(E_CONCAT, k + 8, r, b) : b; }
    *d = ofE(r); return; }
  case Intrinsic::bitreverse: { Val a = *A(0); if (a.e || w > 64) fatal("sym bitreverse"); uint64_t r = 0; for (unsigned k = 0; k < w; k++) if (a.v >> k & 1) r |= 1ull << (w - 1 - k); *d = {r, 0}; return; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    if (w > 64) fatal("wide fsh");
    for (unsigned i = 0; i < L; i++) {
      uint64_t s = conc(A(2)[i]) % w;
      bool l = ci->iid == Intrinsic::fshl;
      if (s == 0) { d[i] = l ? A(0)[i] : A(1)[i]; continue; }
      Val hi = bin(E_SHL, w, A(0)[i], Val{l ? s : w - s, 0}), lo = bin(E_LSHR, w, A(1)[i], Val{l ? w - s : s, 0});
      d[i] = bin(E_OR, w, hi, lo);
    }
    return; }
  case Intrinsic::fabs: *d = bin(E_AND, w, *A(0), Val{msk(w) >> 1, 0}); return;
  case Intrinsic::copysign: *d = bin(E_OR, w, bin(E_AND, w, *A(0), Val{msk(w) >> 1, 0}), bin(E_AND, w, *A(1), Val{1ull << (w - 1), 0})); return;
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: {
    u128 k = ci->iid == Intrinsic::floor ? 0 : ci->iid == Intrinsic::ceil ? 1 : ci->iid == Intrinsic::trunc ? 2 : ci->iid == Intrinsic::round ? 3 : 4;
    *d = ofE(X.mk(E_FRND, w, toE(*A(0), w), 0, 0, k)); return; }
  case Intrinsic::maxnum: case Intrinsic::minnum: {
    Ref x = toE(*A(0), w), y = toE(*A(1), w);
    bool mx = ci->iid == Intrinsic::maxnum;
    Ref pick = mx ? X.mk(E_FOLT, 1, x, y) : X.mk(E_FOLT, 1, y, x);
    Ref r = X.mk(E_ITE, w, pick, y, x);
    r = X.mk(E_ITE, w, X.mk(E_FUNO, 1, x, x), y, r);
    *d = ofE(r); return; }
  case Intrinsic::fmuladd: { Val p = {0, 0}; Ref r = X.mk(E_FADD, w, X.mk(E_FMUL, w, toE(*A(0), w), toE(*A(1), w)), toE(*A(2), w)); (void)p; *d = ofE(r); return; }
  case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: {
    Val a = *A(0); unsigned rw = ci->rw;
    if (a.e) { // bounded use only: require an in-range value, otherwise fork on it
      Ref x = a.e;
      double lo = ci->iid == Intrinsic::fptosi_sat ? -std::ldexp(1.0, rw - 1) : 0.0, hi = std::ldexp(1.0, ci->iid == Intrinsic::fptosi_sat ? rw - 1 : rw);
      Ref klo = w == 64 ? X.cst(Exprs::of_d(lo), 64) : X.cst(Exprs::of_f((float)lo), 32), khi = w == 64 ? X.cst(Exprs::of_d(hi), 64) : X.cst(Exprs::of_f((float)hi), 32);
      if (decide(X.mk(E_FUNO, 1, x, x))) { *d = {0, 0}; return; }
      if (decide(X.mk(E_FOLT, 1, x, klo))) { *d = {ci->iid == Intrinsic::fptosi_sat ? 1ull << (rw - 1) : 0, 0}; return; }
      if (!decide(X.mk(E_FOLT, 1, x, khi))) { *d = {ci->iid == Intrinsic::fptosi_sat ? msk(rw) >> 1 : msk(rw), 0}; return; }
      *d = ofE(X.mk(ci->iid == Intrinsic::fptosi_sat ? E_FPTOSI : E_FPTOUI, rw, x)); return;
    }
    double v = w == 64 ? Exprs::d_of(a.v) : Exprs::f_of(a.v);
    if (ci->iid == Intrinsic::fptosi_sat) {
      if (std::isnan(v)) { *d = {0, 0}; return; }
      double lo = -std::ldexp(1.0, rw - 1), hi = std::ldexp(1.0, rw - 1);
      *d = {v < lo ? (1ull << (rw - 1)) : v >= hi ? msk(rw) >> 1 : (uint64_t)(int64_t)v & msk(rw), 0}; return;
    }
    if (std::isnan(v) || v < 0) { *d = {0, 0}; return; }
    *d = {v >= std::ldexp(1.0, rw) ? msk(rw) : (uint64_t)v & msk(rw), 0}; return; }
  case Intrinsic::is_fpclass: {
    Val a = *A(0); uint64_t m = conc(*A(1)); if (a.e) fatal("symbolic is.fpclass");
    unsigned mb = w == 64 ? 52 : 23, eb = w - 1 - mb; bool neg = a.v >> (w - 1) & 1;
    uint64_t man = a.v & ((1ull << mb) - 1), ex = a.v >> mb & ((1ull << eb) - 1);
    unsigned c = ex == (1ull << eb) - 1 ? (man ? (man >> (mb - 1) & 1 ? 2 : 1) : neg ? 4 : 512) : ex ? (neg ? 8 : 256) : man ? (neg ? 16 : 128) : neg ? 32 : 64;
    *d = {(m & c) != 0, 0}; return; }
  case Intrinsic::sqrt: { Val a = *A(0); if (a.e) fatal("symbolic sqrt"); *d = {(uint64_t)(w == 64 ? Exprs::of_d(std::sqrt(Exprs::d_of(a.v))) : Exprs::of_f(std::sqrt(Exprs::f_of(a.v)))), 0}; return; }
  case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
    uint32_t n = ci->args[0].second; Val r = A(0)[0];
    for (uint32_t i = 1; i < n; i++) {
      Val y = A(0)[i];
      switch (ci->iid) { case Intrinsic::vector_reduce_or: r = bin(E_OR, w, r, y); break; case Intrinsic::vector_reduce_and: r = bin(E_AND, w, r, y); break; case Intrinsic::vector_reduce_add: r = bin(E_ADD, w, r, y); break; case Intrinsic::vector_reduce_xor: r = bin(E_XOR, w, r, y); break;
      case Intrinsic::vector_reduce_umax: r = ite(X.mk(E_ULT, 1, toE(r, w), toE(y, w)), w, y, r); break; default: r = ite(X.mk(E_ULT, 1, toE(r, w), toE(y, w)), w, r, y); }
    }
    *d = r; return; }
  default:
    fatal("unsupported intrinsic " + ci->f->getName().str());
  }
}

static Val makeSym(unsigned w) {
  Ref r = SV.newVar(w);
  inputVars.push_back(X.n[r].sup - 1);
  return Val{0, r};
}
static void doAssert(const Val &c, uint64_t id) {
  S->asserts++;
  if (id < 512) S->assertHit[id]++;
  if (!c.e) { if (!c.v) { violation("assertion", (int)id, SV.model); finish(2); } return; }
  unsigned w = X.w(c.e);
  Ref ok = w == 1 ? c.e : X.lnot(X.mk(E_EQ, 1, c.e, X.cst(0, w)));
  if (X.isc(ok)) { if (!X.kv(ok)) { violation("assertion", (int)id, SV.model); finish(2); } return; }
  std::vector<uint64_t> nm;
  Ref bad = X.lnot(ok);
  S->assertQ++;
  int r;
  if (X.eval(bad, SV.model) == 1) { nm = SV.model; r = 1; }
  else r = SV.z3check(bad, nm);
  if (r < 0) fatal("solver returned unknown");
  if (r == 1) { violation("assertion", (int)id, nm); }
  assume(ok);
}

static void run();
static void postDoms(Code *c) {
  c->havePd = true;
  std::vector<const BasicBlock *> order; // reverse post-order of the reversed graph, over the blocks that can return
  DenseMap<const BasicBlock *, int> num;
  std::vector<std::pair<const BasicBlock *, std::vector<const BasicBlock *>>> st;
  auto preds = [](const BasicBlock *b) { std::vector<const BasicBlock *> v; for (auto *p : predecessors(b)) v.push_back(p); return v; };
  for (auto &bb : *c->f) if (isa<ReturnInst>(bb.getTerminator()) && !num.count(&bb)) {
    num[&bb] = -1; st.push_back({&bb, preds(&bb)});
    while (!st.empty()) {
      if (st.back().second.empty()) { order.push_back(st.back().first); st.pop_back(); continue; }
      auto *p = st.back().second.back(); st.back().second.pop_back();
      if (!num.count(p)) { num[p] = -1; auto pp = preds(p); st.push_back({p, pp}); }
    }
  }
  std::reverse(order.begin(), order.end());
  int n = order.size();
  for (int i = 0; i < n; i++) num[order[i]] = i + 1; // 0 is the virtual exit
  std::vector<int> idom(n + 1, -1); idom[0] = 0;
  auto isect = [&](int a, int b) { while (a != b) { while (a > b) a = idom[a]; while (b > a) b = idom[b]; } return a; };
  for (bool ch = true; ch;) {
    ch = false;
    for (int i = 1; i <= n; i++) {
      const BasicBlock *b = order[i - 1];
      int d = -1;
      if (isa<ReturnInst>(b->getTerminator())) d = 0;
      for (auto *s : successors(b)) { auto it = num.find(s); if (it == num.end() || idom[it->second] < 0) continue; d = d < 0 ? it->second : isect(d, it->second); }
      if (d != idom[i]) { idom[i] = d; ch = true; }
    }
  }
  for (int i = 1; i <= n; i++) if (idom[i] >= 0) c->ipdom[order[i - 1]] = idom[i] ? order[idom[i] - 1] : nullptr;
}
static bool liveIn(const Value *v, const BasicBlock *J) {
  static DenseMap<const Value *, DenseSet<const BasicBlock *> *> cache;
  auto *&set = cache[v];
  if (!set) {
    set = new DenseSet<const BasicBlock *>();
    const BasicBlock *D = isa<Instruction>(v) ? cast<Instruction>(v)->getParent() : nullptr;
    std::vector<const BasicBlock *> work;
    auto mark = [&](const BasicBlock *b) { if (b != D && set->insert(b).second) work.push_back(b); };
    for (auto &u : v->uses()) {
      auto *I = dyn_cast<Instruction>(u.getUser());
      if (!I) continue;
      if (auto *ph = dyn_cast<PHINode>(I)) mark(ph->getIncomingBlock(u)); else mark(I->getParent());
    }
    while (!work.empty()) { auto *b = work.back(); work.pop_back(); for (auto *p : predecessors(b)) mark(p); }
  }
  return set->count(J);
}
struct Side { Ref cond; Edge *e; std::shared_ptr<std::vector<Val>> regs; int32_t pc = 0; }; // e, or a prepared frame
static void takeSide(const Side &s) {
  Frame &f = frames.back();
  if (s.regs) { std::copy(s.regs->begin(), s.regs->end(), regs + f.base); f.pc = s.pc; }
  else takeEdge(f, s.e);
}
static bool chainMode = false; // run() stops at the next symbolic branch of the frame
struct MStat { uint32_t ok = 0, fail = 0; bool precise = false; };
static std::unordered_map<const Inst *, MStat> mstats;
static const bool mtrace = getenv("SYMX_MTRACE") != nullptr;

static bool mergeable(const Val &a, const Val &b, unsigned w) {
  if (w < 64) return true;
  if (!a.e && !b.e) return false;
  auto ptr = [](const Val &v) { return !v.e && v.v >= BASE && v.v < FNB + (1ull << 32); };
  return !ptr(a) && !ptr(b);
}
// Execute all sides up to the join and continue there with the merged state.  The conditions exclude each
// other and cover everything; the last one is the "otherwise".
static bool tryMerge1(const Inst &in, const std::vector<Side> &sides);
static bool tryMerge(const Inst &in, const std::vector<Side> &sides) {
  if (spec) return tryMerge1(in, sides);
  MStat &ms = mstats[&in];
  specPrecise = ms.precise; specSkipped = false;
  if (tryMerge1(in, sides)) return true;
  if (specPrecise || !specSkipped) return false;
  specPrecise = true;
  if (tryMerge1(in, sides)) { mstats[&in].precise = true; return true; }
  return false;
}
static int specFeasible(Ref c) {
  std::vector<uint64_t> nm;
  if (X.isc(c)) return X.kv(c) != 0;
  if (X.eval(c, SV.model) == 1) return 1;
  double t0 = now_s();
  int r = SV.feasible(c, nm, spec && !specPrecise);
  slowQuery(t0);
  if (r == 2) { specSkipped = true; return 1; }
  return r;
}
static bool tryMerge1(const Inst &in, const std::vector<Side> &sides) {
  if (!mergeOn) { if (spec) bail("off"); return false; }
  MStat &ms = mstats[&in];
  if (!spec && ms.fail > 2 + 4 * ms.ok) return false;
  Frame saved = frames.back();
  Code *c = saved.c;
  if (!c->havePd) postDoms(c);
  const BasicBlock *J = nullptr;
  auto it = c->ipdom.find(in.I->getParent());
  if (it == c->ipdom.end()) { if (spec) bail("no join"); ms.fail = 1000; return false; }
  J = it->second;
  size_t depth = frames.size(), mark = wlog.size();
  if (!J && depth == 1) { if (spec) bail("entry exit"); return false; }
  uint32_t rt = regTop; uint64_t sp = stackTop;
  size_t oDepth = stopDepth; int32_t oPc = stopPc; Ref oCond = specCond; int oSpec = spec;
  chainMode = false;
  if (!spec) { specN = 4000; specCond = X.cst(1, 1); }
  std::vector<Val> pre(regs + saved.base, regs + saved.base + c->nregs);
  struct SideState { std::vector<Val> regs; std::unordered_map<uint64_t, std::pair<uint8_t, Ref>> mem; };
  std::vector<SideState> res(sides.size());
  std::vector<std::pair<uint64_t, uint32_t>> recs;
  int32_t endPc = -1;
  const char *why = nullptr;
  auto restore = [&] { undoWrites(mark); frames.resize(depth); frames.back() = saved; regTop = rt; stackTop = sp; std::copy(pre.begin(), pre.end(), regs + saved.base); };
  try {
    if (oSpec > 40) bail("nesting");
    Ref base = specCond;
    for (size_t i = 0; i < sides.size(); i++) {
      spec = oSpec + 1;
      specCond = X.mk(E_AND, 1, base, sides[i].cond);
      stopDepth = depth; stopPc = J ? c->pcOf[J] : -1;
      takeSide(sides[i]);
      run();
      if (frames.size() != depth || stackTop != sp) bail("shape");
      if (i && (int32_t)frames.back().pc != endPc) bail("different returns");
      endPc = frames.back().pc;
      res[i].regs.assign(regs + saved.base, regs + saved.base + c->nregs);
      for (size_t k = mark; k < wlog.size(); k++) {
        WRec &r = wlog[k];
        if (r.a >= sp && r.a < BASE + SIZE && sp >= stackBase) continue; // frames that are gone
        uint64_t a = r.a, n = r.n;
        while (n) { unsigned z = 8; while (z > n || (a % z && z > 1)) z /= 2; if (r.n <= 8) z = n; recs.push_back({a, z}); for (unsigned q = 0; q < z; q++) res[i].mem[a + q] = {*(uint8_t *)(a + q), pgSym(a + q, 1) ? *sh(a + q) : 0}; a += z; n -= z; }
      }
      if (recs.size() > 200) bail("many writes");
      restore();
    }
    // join registers
    std::vector<Val> out = res.back().regs;
    for (size_t k = 0; k < c->regVal.size(); k++) {
      int32_t r = c->regVal[k].first; const Value *v = c->regVal[k].second;
      int32_t r2 = k + 1 < c->regVal.size() ? c->regVal[k + 1].first : (int32_t)c->nregs;
      bool diff = false;
      for (size_t i = 0; i + 1 < sides.size() && !diff; i++) diff = memcmp(&res[i].regs[r], &out[r], (r2 - r) * sizeof(Val)) != 0;
      if (!diff) continue;
      bool live;
      if (J) live = (isa<PHINode>(v) && cast<PHINode>(v)->getParent() == J) || liveIn(v, J);
      else { const Inst &ri = c->code[endPc]; live = ri.n && ri.a >= r && ri.a < r2; }
      if (!live) continue;
      std::vector<Leaf> ls; layout(v->getType(), 0, ls);
      for (size_t q = 0; q < ls.size(); q++) {
        Val acc = out[r + q];
        for (size_t i = sides.size() - 1; i-- > 0;) {
          const Val &x = res[i].regs[r + q];
          if (x.e == acc.e && (x.e || x.v == acc.v)) continue;
          if (!mergeable(x, acc, ls[q].w)) bail("register");
          acc = ofE(X.mk(E_ITE, ls[q].w, sides[i].cond, toE(x, ls[q].w), toE(acc, ls[q].w)));
        }
        out[r + q] = acc;
      }
    }
    // join memory
    std::vector<std::pair<std::pair<uint64_t, uint32_t>, Val>> wr;
    std::sort(recs.begin(), recs.end()); recs.erase(std::unique(recs.begin(), recs.end()), recs.end());
    for (auto &rc : recs) {
      unsigned w = rc.second * 8;
      auto get = [&](SideState &ss) {
        Ref e = 0; uint64_t v = 0; bool sym = false;
        std::vector<Ref> bs;
        for (unsigned q = 0; q < rc.second; q++) {
          auto f = ss.mem.find(rc.first + q);
          uint8_t b; Ref br;
          if (f != ss.mem.end()) { b = f->second.first; br = f->second.second; } else { b = *(uint8_t *)(rc.first + q); br = pgSym(rc.first + q, 1) ? *sh(rc.first + q) : 0; }
          v |= (uint64_t)b << (8 * q); sym |= br != 0; bs.push_back(br ? br : X.cst(b, 8));
        }
        if (!sym) return Val{v, 0};
        for (unsigned q = 0; q < bs.size(); q++) e = e ? X.mk(E_CONCAT, 8 * (q + 1), bs[q], e) : bs[q];
        return ofE(e);
      };
      Val acc = get(res.back());
      for (size_t i = sides.size() - 1; i-- > 0;) {
        Val x = get(res[i]);
        if (x.e == acc.e && (x.e || x.v == acc.v)) continue;
        if (!mergeable(x, acc, w)) bail("memory");
        acc = ofE(X.mk(E_ITE, w, sides[i].cond, toE(x, w), toE(acc, w)));
      }
      wr.push_back({rc, acc});
    }
    spec = oSpec;
    std::copy(out.begin(), out.end(), regs + saved.base);
    for (auto &x : wr) storeC(x.first.first, 8 * x.first.second, x.second);
    frames.back().pc = endPc;
  } catch (Bail &b) { why = b.why; restore(); }
  spec = oSpec; specCond = oCond; stopDepth = oDepth; stopPc = oPc;
  if (why) {
    ms.fail++;
    if (mtrace) { frames.back().pc = saved.pc; std::string t = backtrace(); fprintf(stderr, "NOMERGE %d %s %s\n", spec, why, t.substr(0, 300).c_str()); }
    if (spec) throw Bail{why};
    return false;
  }
  ms.ok++; S->merges++;
  return true;
}
// a || b || c ... : several tests with a common target become one test.
// Follows the side that does not go to the shared block through code without effects to the next symbolic branch.
static std::unordered_map<const Inst *, MStat> cstats;
static bool orChain(const Inst &in, Ref c, Edge *et, Edge *ef, std::vector<Side> &out) {
  if (!mergeOn) return false;
  MStat &cs = cstats[&in];
  if (cs.fail > 3 + 8 * cs.ok) return false;
  Frame saved = frames.back();
  Code *cd = saved.c;
  size_t depth = frames.size(), mark = wlog.size();
  uint32_t rt = regTop; uint64_t sp = stackTop;
  size_t oDepth = stopDepth; int32_t oPc = stopPc; Ref oCond = specCond; int oSpec = spec; uint64_t oN = specN;
  auto *pre = new std::vector<Val>(regs + saved.base, regs + saved.base + cd->nregs);
  std::shared_ptr<std::vector<Val>> preP(pre);
  auto restoreTo = [&](const std::vector<Val> &r) { undoWrites(mark); frames.resize(depth); frames.back() = saved; regTop = rt; stackTop = sp; std::copy(r.begin(), r.end(), regs + saved.base); };
  auto blockOf = [&](Edge *e) { return cd->code[e->pc].I->getParent(); };
  bool any = false;
  for (int orient = 0; orient < 2 && !any; orient++) {
    Edge *x = orient ? ef : et, *y = orient ? et : ef;
    Ref condX = orient ? X.lnot(c) : c;
    const BasicBlock *XB = blockOf(x);
    // state on arrival at X
    restoreTo(*pre); takeEdge(frames.back(), x);
    std::vector<Val> xr(regs + saved.base, regs + saved.base + cd->nregs);
    std::vector<Val> yr = *pre; // state before taking y
    for (int step = 0; step < 64; step++) {
      restoreTo(yr);
      std::vector<Val> nr; Edge *nx = nullptr, *ny = nullptr; Ref c2 = 0;
      bool ok = true;
      try {
        spec = oSpec + 1; specN = 200; chainMode = true; stopDepth = depth; stopPc = 0x7fffffff;
        takeEdge(frames.back(), y);
        run();
        if (frames.size() != depth || stackTop != sp || wlog.size() != mark) bail("effect");
        const Inst &b = cd->code[frames.back().pc];
        c2 = V(frames.back(), b.a)->e;
        Edge *t2 = (Edge *)b.imm, *f2 = cd->edges[b.n];
        if (t2->pc == x->pc) { nx = t2; ny = f2; } else if (f2->pc == x->pc) { nx = f2; ny = t2; c2 = X.lnot(c2); } else bail("no common target");
        nr.assign(regs + saved.base, regs + saved.base + cd->nregs);
        takeEdge(frames.back(), nx);
        // join the state at X
        std::vector<Val> m = xr;
        for (size_t k = 0; k < cd->regVal.size(); k++) {
          int32_t r = cd->regVal[k].first; const Value *v = cd->regVal[k].second;
          int32_t r2 = k + 1 < cd->regVal.size() ? cd->regVal[k + 1].first : (int32_t)cd->nregs;
          if (!memcmp(&xr[r], regs + saved.base + r, (r2 - r) * sizeof(Val))) continue;
          if (!((isa<PHINode>(v) && cast<PHINode>(v)->getParent() == XB) || liveIn(v, XB))) continue;
          std::vector<Leaf> ls; layout(v->getType(), 0, ls);
          for (size_t q = 0; q < ls.size(); q++) {
            const Val &a = xr[r + q], &b2 = regs[saved.base + r + q];
            if (a.e == b2.e && (a.e || a.v == b2.v)) continue;
            if (!mergeable(a, b2, ls[q].w)) bail("register");
            m[r + q] = ofE(X.mk(E_ITE, ls[q].w, condX, toE(a, ls[q].w), toE(b2, ls[q].w)));
          }
        }
        xr = m;
      } catch (Bail &) { ok = false; }
      spec = oSpec; chainMode = false; specN = oN; stopDepth = oDepth; stopPc = oPc; specCond = oCond;
      if (!ok) break;
      condX = X.mk(E_OR, 1, condX, c2);
      yr = nr; y = ny; any = true;
      if (X.isc(condX)) break;
    }
    restoreTo(*pre);
    if (any) {
      Side sx{condX, nullptr, std::make_shared<std::vector<Val>>(xr), x->pc};
      restoreTo(yr); takeEdge(frames.back(), y);
      Side sy{X.lnot(condX), nullptr, std::make_shared<std::vector<Val>>(regs + saved.base, regs + saved.base + cd->nregs), y->pc};
      restoreTo(*pre);
      out = {sx, sy};
    }
  }
  if (any) { cs.ok++; S->merges++; } else cs.fail++;
  return any;
}
// Symbolic two-way branch: fold, merge or fork; leaves the frame where execution goes on.
static void branch(const Inst &in, Ref c, Edge *et, Edge *ef) {
  std::vector<uint64_t> nm;
  std::vector<Side> sides{{c, et}, {X.lnot(c), ef}};
  for (int round = 0;; round++) {
    if (X.isc(sides[0].cond)) { takeSide(sides[X.kv(sides[0].cond) ? 0 : 1]); return; }
    if (spec) {
      int t = specFeasible(X.mk(E_AND, 1, specCond, sides[0].cond)), e = specFeasible(X.mk(E_AND, 1, specCond, sides[1].cond));
      if (t < 0 || e < 0 || (!t && !e)) bail("solver");
      if (!e) { takeSide(sides[0]); return; }
      if (!t) { takeSide(sides[1]); return; }
    } else {
      bool m = X.eval(sides[0].cond, SV.model) == 1;
      double t0 = now_s();
      int r = SV.feasible(sides[m ? 1 : 0].cond, nm);
      slowQuery(t0);
      if (r < 0) fatal("solver returned unknown");
      if (r == 0) { takeSide(sides[m ? 0 : 1]); return; }
    }
    if (round || chainMode || !orChain(in, c, et, ef, sides)) break;
  }
  if (tryMerge(in, sides)) return;
  bool m = X.eval(sides[0].cond, SV.model) == 1;
  if (forkSide()) { SV.model = nm; m = !m; SV.add(sides[m ? 0 : 1].cond); takeSide(sides[m ? 0 : 1]); return; }
  SV.add(sides[m ? 0 : 1].cond);
  takeSide(sides[m ? 0 : 1]);
  if (S->stop.load()) finish(2);
}

static bool sameEdge(Frame &f, Edge *a, Edge *b) {
  if (a->pc != b->pc) return false;
  for (size_t i = 0; i < a->copies.size(); i++) {
    if (a->copies[i].src == b->copies[i].src) continue;
    if (memcmp(V(f, a->copies[i].src), V(f, b->copies[i].src), a->copies[i].n * sizeof(Val))) return false;
  }
  return true;
}
static void run() {
  for (;;) {
    Frame *fp = &frames.back();
    if (spec) {
      if (frames.size() == stopDepth && (stopPc >= 0 ? (int32_t)fp->pc == stopPc : fp->c->code[fp->pc].op == O_RET)) return;
      if (specN-- == 0) bail("budget");
    }
    const Inst &in = fp->c->code[fp->pc++];
    Frame &f = *fp;
    Val *R = regs + f.base;
    if ((++instrs & 0xfffff) == 0) { if (S->stop.load()) finish(2); if (now_s() > deadline) { S->stop = 3; finish(2); } if (instrs > maxInstr) fatal("instruction limit on one path"); }
    switch (in.op) {
    case O_BIN: {
      Val *a = V(f, in.a), *b = V(f, in.b);
      if (in.w <= 64) { for (unsigned i = 0; i < in.lanes; i++) R[in.dst + i] = bin(in.sub, in.w, a[i], b[i]); }
      else for (unsigned i = 0; i < in.lanes; i++) {
        const Val *x = a + 2 * i, *y = b + 2 * i;
        if (!(x[0].e | x[1].e | y[0].e | y[1].e)) { u128 r = Exprs::apply(in.sub, in.w, in.w, in.w, join(x), join(y), 0, 0); R[in.dst + 2 * i] = {(uint64_t)r, 0}; R[in.dst + 2 * i + 1] = {(uint64_t)(r >> 64), 0}; }
        else { Ref r = X.mk(in.sub, in.w, joinE(x, in.w), joinE(y, in.w)); split(&R[in.dst + 2 * i], r, in.w); }
      }
      break; }
    case O_ICMP: {
      Val *a = V(f, in.a), *b = V(f, in.b);
      if (in.w <= 64) for (unsigned i = 0; i < in.lanes; i++) R[in.dst + i] = icmp(in.sub, in.w, a[i], b[i]);
      else for (unsigned i = 0; i < in.lanes; i++) R[in.dst + i] = ofE(icmpE(in.sub, joinE(a + 2 * i, in.w), joinE(b + 2 * i, in.w)));
      break; }
    case O_FBIN: {
      Val *a = V(f, in.a), *b = V(f, in.b);
      for (unsigned i = 0; i < in.lanes; i++) {
        if (!(a[i].e | b[i].e)) R[in.dst + i] = {(uint64_t)Exprs::apply(in.sub, in.w, in.w, in.w, a[i].v, b[i].v, 0, 0), 0};
        else R[in.dst + i] = ofE(X.mk(in.sub, in.w, toE(a[i], in.w), toE(b[i], in.w)));
      }
      break; }
    case O_FCMP: { Val *a = V(f, in.a), *b = V(f, in.b); for (unsigned i = 0; i < in.lanes; i++) R[in.dst + i] = fcmpFast(in.sub, in.w, a[i], b[i]); break; }
    case O_FNEG: { Val *a = V(f, in.a); for (unsigned i = 0; i < in.lanes; i++) R[in.dst + i] = bin(E_XOR, in.w, a[i], Val{1ull << (in.w - 1), 0}); break; }
    case O_CAST: {
      Val *a = V(f, in.a); uint32_t sn = in.w > 64 ? 2 : 1, dn = in.w2 > 64 ? 2 : 1;
      for (unsigned i = 0; i < in.lanes; i++) { Val t[2] = {a[i * sn], sn == 2 ? a[i * sn + 1] : Val{0, 0}}; castOp(in, &R[in.dst + i * dn], t); }
      break; }
    case O_LOAD: {
      Val p = *V(f, in.a);
      if (in.w) R[in.dst] = load(p, in.w);
      else { uint64_t a = conc(p); auto &ls = f.c->layouts[in.n]; for (size_t i = 0; i < ls.size(); i++) R[in.dst + i] = loadC(a + ls[i].off, ls[i].w); }
      break; }
    case O_STORE: {
      Val p = *V(f, in.b); Val *v = V(f, in.a);
      if (in.w) store(p, in.w, *v);
      else { uint64_t a = conc(p); auto &ls = f.c->layouts[in.n]; for (size_t i = 0; i < ls.size(); i++) storeC(a + ls[i].off, ls[i].w, v[i]); }
      break; }
    case O_GEP: {
      Val r = *V(f, in.a);
      if (in.imm) r = bin(E_ADD, 64, r, Val{in.imm, 0});
      if (in.n) for (auto &g : f.c->geps[in.n - 1]) {
        Val x = *V(f, g.r);
        if (g.w < 64) { if (!x.e) x.v = (uint64_t)(int64_t)sx(x.v, g.w); else x = ofE(X.mk(E_SEXT, 64, x.e)); }
        if (!x.e) x.v *= (uint64_t)g.scale; else x = ofE(X.mk(E_MUL, 64, x.e, X.cst((u128)(uint64_t)g.scale, 64)));
        r = bin(E_ADD, 64, r, x);
      }
      R[in.dst] = r; break; }
    case O_ALLOCA: {
      uint64_t n = conc(*V(f, in.a)) * in.imm; if (!n) n = 1;
      uint64_t al = in.n < 16 ? 16 : in.n;
      stackTop = (stackTop + al - 1) & ~(al - 1);
      R[in.dst] = {stackTop, 0}; stackTop += n;
      if (stackTop > BASE + SIZE - 4096) fatal("guest stack overflow");
      break; }
    case O_BR: takeEdge(f, (Edge *)in.imm); break;
    case O_CBR: {
      Val c = *V(f, in.a);
      Edge *et = (Edge *)in.imm, *ef = f.c->edges[in.n];
      if (!c.e) { takeEdge(f, c.v & 1 ? et : ef); break; }
      if (chainMode) { if (frames.size() != stopDepth) bail("deep"); f.pc--; return; }
      branch(in, c.e, et, ef);
      break; }
    case O_SWITCH: {
      Val c = *V(f, in.a); auto *si = f.c->switches[in.n];
      Edge *e = si->def;
      if (!c.e) { for (auto &k : si->cases) if (k.first == c.v) { e = k.second; break; } }
      else {
        if (chainMode) bail("switch");
        // group the cases by target
        std::vector<std::pair<Edge *, Ref>> groups;
        for (auto &k : si->cases) {
          Ref q = X.mk(E_EQ, 1, c.e, X.cst(k.first, in.w));
          if (X.isc(q) && !X.kv(q)) continue;
          bool merged = false;
          for (auto &g : groups) if (sameEdge(f, g.first, k.second)) { g.second = X.mk(E_OR, 1, g.second, q); merged = true; break; }
          if (!merged) groups.push_back({k.second, q});
        }
        // sides that can be taken
        std::vector<Side> sides; Ref rest = spec ? specCond : X.cst(1, 1), none = X.cst(1, 1);
        for (auto &g : groups) {
          int r = specFeasible(X.mk(E_AND, 1, rest, g.second));
          if (r < 0) fatal("solver returned unknown");
          if (r) sides.push_back({g.second, g.first});
          none = X.mk(E_AND, 1, none, X.lnot(g.second));
        }
        int r = specFeasible(X.mk(E_AND, 1, rest, none));
        if (r < 0) fatal("solver returned unknown");
        if (r) sides.push_back({none, si->def});
        if (sides.empty()) bail("dead side");
        if (sides.size() == 1) { e = sides[0].e; }
        else {
          if (tryMerge(in, sides)) break;
          size_t k = 0;
          for (; k + 1 < sides.size(); k++) if (decide(sides[k].cond)) break;
          e = sides[k].e;
        }
      }
      takeEdge(frames.back(), e); break; }
    case O_RET: {
      if (spec && frames.size() <= stopDepth) bail("return");
      Frame cur = f;
      Val *s = in.n ? V(f, in.a) : nullptr;
      stackTop = cur.sp;
      if (frames.size() == 1) finish(0);
      Frame &up = frames[frames.size() - 2];
      if (in.n && cur.retN) { Val *dd = regs + up.base + cur.retDst; for (uint32_t i = 0; i < in.n; i++) dd[i] = s[i]; }
      regTop = cur.base;
      frames.pop_back();
      if (cur.retEdge) takeEdge(frames.back(), cur.retEdge);
      break; }
    case O_COPY: { Val *s = V(f, in.a); if (in.n == 1) R[in.dst] = *s; else memmove(&R[in.dst], s, in.n * sizeof(Val)); break; }
    case O_SELECT: {
      Val *c = V(f, in.a), *a = V(f, in.b), *b = V(f, in.c);
      if (in.sub) { for (unsigned i = 0; i < in.lanes; i++) R[in.dst + i] = c[i].e ? ite(c[i].e, in.w, a[i], b[i]) : (c[i].v & 1 ? a[i] : b[i]); break; }
      if (!c->e) { Val *s = c->v & 1 ? a : b; memmove(&R[in.dst], s, in.n * sizeof(Val)); break; }
      if (in.w == 0) { bool t = decide(c->e); Val *s = t ? a : b; memmove(&R[in.dst], s, in.n * sizeof(Val)); break; }
      { Ref ce = c->e; std::vector<Val> out(in.n);
        for (uint32_t i = 0; i < in.n; i++) out[i] = ite(ce, in.w > 64 ? (i % 2 ? in.w - 64 : 64) : in.w, a[i], b[i]);
        for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = out[i]; }
      break; }
    case O_XELT: { uint64_t i = conc(*V(f, in.b)); Val *s = V(f, in.a) + i * in.n; for (uint32_t k = 0; k < in.n; k++) R[in.dst + k] = s[k]; break; }
    case O_IELT: {
      uint64_t i = conc(*V(f, in.c)); Val *s = V(f, in.a); uint32_t tot = in.lanes * in.n;
      Val x[2]; for (uint32_t k = 0; k < in.n; k++) x[k] = V(f, in.b)[k];
      memmove(&R[in.dst], s, tot * sizeof(Val));
      for (uint32_t k = 0; k < in.n; k++) R[in.dst + i * in.n + k] = x[k];
      break; }
    case O_SHUF: {
      auto &m = f.c->shuf[in.n]; Val *a = V(f, in.a), *b = V(f, in.b); int na = (int)in.imm;
      std::vector<Val> o(m.size());
      for (size_t i = 0; i < m.size(); i++) o[i] = m[i] < 0 ? Val{0, 0} : m[i] < na ? a[m[i]] : b[m[i] - na];
      for (size_t i = 0; i < m.size(); i++) R[in.dst + i] = o[i];
      break; }
    case O_BITCAST: {
      Val *s = V(f, in.a); // in.n lanes of in.w -> in.lanes lanes of in.w2
      std::vector<Val> bits; // collect as 64-bit-or-less chunks via a generic bit list
      struct Chunk { Val v; unsigned w; };
      std::vector<Chunk> ch;
      for (uint32_t i = 0; i < in.n; i++) { if (in.w <= 64) ch.push_back({s[i], in.w}); else { ch.push_back({s[2 * i], 64}); ch.push_back({s[2 * i + 1], (unsigned)in.w - 64}); } }
      size_t ci = 0; unsigned pos = 0;
      std::vector<Val> out;
      auto take = [&](unsigned want) {
        Ref acc = 0; unsigned have = 0; uint64_t cv = 0; bool sym = false;
        std::vector<std::pair<Ref, unsigned>> parts;
        while (have < want) {
          unsigned k = std::min(want - have, ch[ci].w - pos);
          if (ch[ci].v.e) { sym = true; parts.push_back({X.mk(E_EXTRACT, k, ch[ci].v.e, 0, 0, pos), k}); }
          else { uint64_t pv = (ch[ci].v.v >> pos) & msk(k); cv |= pv << have; parts.push_back({0, k}); if (sym || true) parts.back().first = 0; parts.back().second = k; 
                 if (true) parts.back().first = X.cst(pv, k); }
          have += k; pos += k; if (pos == ch[ci].w) { pos = 0; ci++; }
        }
        if (!sym) { out.push_back({cv, 0}); return; }
        unsigned aw = 0;
        for (auto &p : parts) { acc = acc ? X.mk(E_CONCAT, aw + p.second, p.first, acc) : p.first; aw += p.second; }
        out.push_back(ofE(acc));
      };
      for (unsigned i = 0; i < in.lanes; i++) { if (in.w2 <= 64) take(in.w2); else { take(64); take(in.w2 - 64); } }
      for (size_t i = 0; i < out.size(); i++) R[in.dst + i] = out[i];
      break; }
    case O_CMPXCHG: {
      uint64_t a = conc(*V(f, in.a)); Val old = loadC(a, in.w);
      Val eq = icmp(CmpInst::ICMP_EQ, in.w, old, *V(f, in.b));
      bool t = eq.e ? decide(eq.e) : eq.v;
      if (t) storeC(a, in.w, *V(f, in.c));
      R[in.dst] = old; R[in.dst + 1] = {t, 0}; break; }
    case O_RMW: {
      uint64_t a = conc(*V(f, in.a)); Val old = loadC(a, in.w), x = *V(f, in.b), nv;
      switch (in.sub) {
      case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Add: nv = bin(E_ADD, in.w, old, x); break; case AtomicRMWInst::Sub: nv = bin(E_SUB, in.w, old, x); break;
      case AtomicRMWInst::And: nv = bin(E_AND, in.w, old, x); break; case AtomicRMWInst::Or: nv = bin(E_OR, in.w, old, x); break; case AtomicRMWInst::Xor: nv = bin(E_XOR, in.w, old, x); break;
      case AtomicRMWInst::UMax: nv = ite(X.mk(E_ULT, 1, toE(old, in.w), toE(x, in.w)), in.w, x, old); break;
      default: fatal("atomicrmw");
      }
      storeC(a, in.w, nv); R[in.dst] = old; break; }
    case O_CALL: {
      CallInfo *ci = f.c->calls[in.n];
      Function *callee = ci->f; int bi = ci->builtin;
      if (!callee && bi == B_NONE) {
        uint64_t a = conc(*V(f, ci->callee));
        uint64_t ix = (a - FNB) / 16;
        if (a < FNB || ix == 0 || ix > fnByAddr.size()) fatal("call through a bad function pointer");
        callee = fnByAddr[ix - 1]; bi = builtinFor(callee);
        if (bi == B_INTRIN) fatal("indirect intrinsic");
      }
      auto A = [&](unsigned i) -> Val { return *V(f, ci->args[i].first); };
      Val *d = R + in.dst;
      if (bi == B_NONE) {
        static std::vector<Val> args; args.clear();
        for (auto &a : ci->args) { Val *s = V(f, a.first); for (uint32_t i = 0; i < a.second; i++) args.push_back(s[i]); }
        enter(callee, args, in.dst, ci->next, ci->rslots);
        break;
      }
      if (spec && bi != B_INTRIN && bi != B_MEMCPY && bi != B_MEMSET && bi != B_MEMCMP && bi != B_MEMCHR && bi != B_MEMRCHR) bail("builtin");
      switch (bi) {
      case B_INTRIN: intrinsic(f, in, ci); break;
      case B_SYM: {
        StringRef n = callee->getName();
        if (n == "symx_bool") { Val x = makeSym(1); d[0] = ci->rw == 1 ? x : ofE(X.mk(E_ZEXT, ci->rw, x.e)); break; }
        unsigned w = n == "symx_u8" ? 8 : n == "symx_u16" ? 16 : n == "symx_u32" ? 32 : 64;
        Val x = makeSym(w); d[0] = x; break; }
      case B_ASSUME: { Val c = A(0); if (!c.e) { if (!c.v) finish(1); } else { unsigned w = X.w(c.e); assume(w == 1 ? c.e : X.lnot(X.mk(E_EQ, 1, c.e, X.cst(0, w)))); } break; }
      case B_ASSERT: doAssert(A(0), conc(A(1))); break;
      case B_COVER: { uint64_t id = conc(A(0)); if (id < 512) S->cover[id]++; break; }
      case B_OBSERVE: { Val o = A(0); observed.push_back(o); break; }
      case B_CONCR: d[0] = {conc(A(0)), 0}; break;
      case B_PANIC: violation("panic", -1, SV.model); finish(2);
      case B_ABORT: violation("abort", -1, SV.model); finish(2);
      case B_MALLOC: d[0] = {gmalloc(conc(A(0)), 16), 0}; break;
      case B_CALLOC: { uint64_t n = conc(A(0)) * conc(A(1)); uint64_t p = gmalloc(n, 16); memsetG(p, Val{0, 0}, n); d[0] = {p, 0}; break; }
      case B_REALLOC: {
        uint64_t p = conc(A(0)), n = conc(A(1));
        uint64_t q = gmalloc(n, 16);
        if (p) { memmoveG(q, p, std::min(n, gsize(p))); gfree(p); }
        d[0] = {q, 0}; break; }
      case B_FREE: gfree(conc(A(0))); break;
      case B_MEMALIGN: d[0] = {gmalloc(conc(A(1)), conc(A(0))), 0}; break;
      case B_PMEMALIGN: { uint64_t p = gmalloc(conc(A(2)), conc(A(1))); storeC(conc(A(0)), 64, Val{p, 0}); d[0] = {0, 0}; break; }
      case B_MEMCPY: { uint64_t n = conc(A(2)), p = conc(A(0)); if (n) copyFrom(p, A(1), n); d[0] = {p, 0}; break; }
      case B_MEMSET: { uint64_t n = conc(A(2)), p = conc(A(0)); Val v = A(1); if (v.e) v = ofE(X.mk(E_EXTRACT, 8, v.e, 0, 0, 0)); else v.v &= 255; if (n) memsetG(p, v, n); d[0] = {p, 0}; break; }
      case B_MEMCMP: { uint64_t n = conc(A(2)); d[0] = memcmpG(n ? conc(A(0)) : 0, n ? conc(A(1)) : 0, n, callee->getName() == "bcmp"); break; }
      case B_STRLEN: { uint64_t p = conc(A(0)), n = 0; while (conc(loadC(p + n, 8))) n++; d[0] = {n, 0}; break; }
      case B_MEMCHR: case B_MEMRCHR: {
        uint64_t p = conc(A(0)), n = conc(A(2)); Val c = A(1); if (c.e) c = ofE(X.mk(E_EXTRACT, 8, c.e, 0, 0, 0)); else c.v &= 255;
        uint64_t r = 0;
        for (uint64_t k = 0; k < n; k++) { uint64_t q = bi == B_MEMCHR ? p + k : p + n - 1 - k; Val e = icmp(CmpInst::ICMP_EQ, 8, loadC(q, 8), c); if (e.e ? decide(e.e) : e.v) { r = q; break; } }
        d[0] = {r, 0}; break; }
      case B_ZERO: if (ci->rslots) for (uint32_t i = 0; i < ci->rslots; i++) d[i] = {0, 0}; break;
      case B_ONE: d[0] = {1, 0}; break;
      case B_FAIL: if (!errnoAddr) errnoAddr = gmalloc(16, 16); memset((void *)errnoAddr, 0, 16); storeC(errnoAddr, 32, Val{2, 0}); d[0] = {msk(ci->rw), 0}; break;
      case B_ASM:
        if (ci->iid == 3) fatal("unsupported inline assembly");
        for (uint32_t i = 0; i < ci->rslots; i++) d[i] = ci->iid == 2 ? V(f, ci->args[0].first)[i] : Val{0, 0};
        break;
      case B_WRITE: d[0] = A(2); break;
      case B_GETRANDOM: { uint64_t n = conc(A(1)); memsetG(conc(A(0)), Val{0, 0}, n); d[0] = {n, 0}; break; }
      case B_SYSCALL: { uint64_t nr = conc(A(0)); if (nr == 318) { uint64_t n = conc(A(2)); memsetG(conc(A(1)), Val{0, 0}, n); d[0] = {n, 0}; break; } fatal("syscall " + std::to_string(nr)); }
      case B_ERRNO: if (!errnoAddr) { errnoAddr = gmalloc(16, 16); memset((void *)errnoAddr, 0, 16); } d[0] = {errnoAddr, 0}; break;
      default: fatal("unsupported external function " + callee->getName().str());
      }
      if (ci->next) takeEdge(f, ci->next);
      break; }
    case O_UNREACH: fatal("unreachable executed");
    case O_NOP: break;
    default: {
      std::string s; raw_string_ostream os(s); if (in.I) in.I->print(os);
      fatal("unsupported instruction " + s); }
    }
  }
}

int main(int argc, char **argv) {
  std::string bc, entry, out = "/dev/stdout"; double timeout = 600; int jobs = 8; unsigned rl = 0; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--timeout") timeout = atof(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--sample") sampleMax = atoi(nx().c_str()); else if (a == "--max-violations") maxViol = atoi(nx().c_str()); else if (a == "--rlimit") rl = atoi(nx().c_str()); else if (a == "--list") list = true; else if (a == "--no-merge") mergeOn = false;
    else bc = a;
  }
  struct rlimit st; getrlimit(RLIMIT_STACK, &st);
  if (st.rlim_cur != RLIM_INFINITY && st.rlim_cur < (512u << 20) && !getenv("SYMX_STACK")) {
    st.rlim_cur = st.rlim_max == RLIM_INFINITY ? (1u << 30) : st.rlim_max; setrlimit(RLIMIT_STACK, &st); setenv("SYMX_STACK", "1", 1); execv("/proc/self/exe", argv);
  }
  outfd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
  S = (SharedState *)mmap(nullptr, sizeof(SharedState), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&S->tokens, 1, jobs - 1);
  S->live = 1;
  double t0 = now_s(); deadline = t0 + timeout;
  if (mmap((void *)BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void *)BASE) { perror("mmap"); return 3; }
  if (mmap((void *)SHB, SIZE * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != (void *)SHB) { perror("mmap"); return 3; }
  pageSym = (uint8_t *)mmap(nullptr, SIZE / 4096 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  regs = (Val *)mmap(nullptr, sizeof(Val) * (size_t)REGMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

  auto buf = MemoryBuffer::getFile(bc);
  if (!buf) { fprintf(stderr, "cannot read %s\n", bc.c_str()); return 3; }
  auto mod = getOwningLazyBitcodeModule(std::move(*buf), LC);
  if (!mod) { fprintf(stderr, "bad bitcode: %s\n", toString(mod.takeError()).c_str()); return 3; }
  M = std::move(*mod);
  if (auto e = M->materializeMetadata()) { fprintf(stderr, "metadata\n"); return 3; }
  DL = &M->getDataLayout();
  if (list) { for (auto &f : *M) if (f.getName().starts_with("vp_") && !f.isDeclaration()) printf("%s\n", f.getName().str().c_str()); return 0; }
  int k = 0; for (auto &f : *M) fnIndex[&f] = k++;
  for (auto &g : M->globals()) {
    if (g.hasExternalWeakLinkage()) { gaddr[&g] = 0; continue; } // optional libc symbols: absent
    uint64_t sz = DL->getTypeAllocSize(g.getValueType()); uint64_t al = g.getAlign() ? g.getAlign()->value() : 16; if (al < 16) al = 16;
    globTop = (globTop + al - 1) & ~(al - 1); gaddr[&g] = globTop; globTop += sz ? sz : 1;
  }
  heapTop = (globTop + 0xffff) & ~0xffffull; heapEnd = BASE + SIZE - (64 << 20); stackBase = stackTop = heapEnd + 4096;
  for (auto &g : M->globals()) if (g.hasInitializer()) initMem(g.getInitializer(), gaddr[&g]);
  Function *F = M->getFunction(entry);
  if (!F || (F->isDeclaration() && !F->isMaterializable())) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  SV.rlimit = rl; SV.init();
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  pid_t p = fork();
  if (p == 0) { enter(F, {}, 0, nullptr, 0); run(); }
  for (int st;;) { pid_t q = waitpid(-1, &st, 0); if (q < 0) { if (errno == EINTR) continue; break; } checkStatus(st); }
  std::string js = "{\"kind\":\"summary\"";
  auto add = [&](const char *n, uint64_t v) { js += std::string(",\"") + n + "\":" + std::to_string(v); };
  add("paths", S->paths); add("pruned", S->pruned); add("violations", S->violations); add("errors", S->errors); add("stop", S->stop); add("z3_queries", S->z3q); add("z3_sat", S->z3sat); add("z3_unsat", S->z3unsat); add("z3_unknown", S->z3unk);
  add("domain_decisions", S->domq); add("asserts_reached", S->asserts); add("assert_queries", S->assertQ); add("instructions", S->instrs); add("forks", S->forks); add("merges", S->merges); add("max_live", S->maxlive); add("solver_ms", S->z3us / 1000);
  char b[64]; snprintf(b, 64, ",\"wall_s\":%.2f", now_s() - t0); js += b;
  js += ",\"covers\":{"; bool first = true; for (int i = 0; i < 512; i++) if (S->cover[i]) { js += (first ? "\"" : ",\"") + std::to_string(i) + "\":" + std::to_string(S->cover[i]); first = false; } js += "}";
  js += ",\"assert_hits\":{"; first = true; for (int i = 0; i < 512; i++) if (S->assertHit[i]) { js += (first ? "\"" : ",\"") + std::to_string(i) + "\":" + std::to_string(S->assertHit[i]); first = false; } js += "}";
  js += ",\"functions\":["; first = true;
  std::set<std::string> names;
  for (auto &f : *M) if (S->fn[fnIndex[&f] & ((1 << 17) - 1)]) {
    names.insert(demangle(f.getName().str()));
    if (f.isMaterializable()) { if (auto e = f.materialize()) consumeError(std::move(e)); }
    for (auto &bb : f) for (auto &I : bb) for (const DILocation *d = I.getDebugLoc().get(); d; d = d->getInlinedAt()) if (auto *sp = d->getScope()->getSubprogram()) if (!sp->getLinkageName().empty() && sp->getFilename().contains("src/")) names.insert(demangle(sp->getLinkageName().str()));
  }
  for (auto &n : names) if (n.find("hun_law") != std::string::npos) { js += (first ? "\"" : ",\"") + jesc(n) + "\""; first = false; }
  js += "]}";
  emit(js);
  return 0;
}
