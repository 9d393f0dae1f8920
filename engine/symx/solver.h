// Path condition, byte domains and Z3 back end.
#pragma once
#include "expr.h"
#include <z3.h>
#include <bitset>
#include <unistd.h>
#include <chrono>
#include <map>
#include <set>

struct Shared; // statistics in shared memory

static inline double now_s() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Solver {
  Exprs &X;
  Z3_context ctx = nullptr;
  Z3_solver sol = nullptr, simple = nullptr, blast = nullptr; // general; pure bit-vectors with arithmetic
  std::vector<Z3_ast> bv, bl; // translation caches: bit-vector view, boolean view (width 1)
  std::vector<Z3_ast> zvars;

  // path state
  std::vector<uint64_t> model;               // satisfies the path condition
  std::vector<std::bitset<256>> dom;         // exact projection of the single-variable constraints (vars of <= 8 bits)
  std::vector<uint8_t> multi;                // variable occurs in a constraint over several variables / wide variable
  struct Con { Ref e; };
  std::vector<Ref> cons;                     // all constraints, in order
  std::vector<std::vector<uint32_t>> consOf; // var -> indices into cons
  std::unordered_map<uint64_t, int> cache;   // only unsat results

  // stats (process local, flushed by the interpreter)
  uint64_t z3q = 0, z3sat = 0, z3unsat = 0, z3unk = 0, domq = 0, modelhits = 0;
  double z3time = 0;
  unsigned rlimit = 0;
  uint64_t tabMax = 4096;

  Solver(Exprs &x) : X(x) {}

  void init() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); // terms live as long as the context
    Z3_del_config(cfg);
    simple = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, simple);
    Z3_tactic t = nullptr;
    for (const char *n : {"sat", "bit-blast", "simplify", "solve-eqs", "propagate-values", "simplify"}) {
      Z3_tactic u = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, u);
      t = t ? Z3_tactic_and_then(ctx, u, t) : u; Z3_tactic_inc_ref(ctx, t);
    }
    blast = Z3_mk_solver_from_tactic(ctx, t);
    Z3_solver_inc_ref(ctx, blast);
    sol = simple;
    if (rlimit) {
      Z3_params p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
      Z3_solver_set_params(ctx, sol, p);
      Z3_params_dec_ref(ctx, p);
    }
  }

  Ref newVar(unsigned w) {
    Ref r = X.var(w);
    model.push_back(0);
    dom.emplace_back();
    if (w <= 8) for (unsigned i = 0; i < (1u << w); i++) dom.back().set(i);
    multi.push_back(w > 8);
    consOf.emplace_back();
    return r;
  }

  Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
  Z3_ast keep(Z3_ast a) { return a; }
  Z3_ast numeral(u128 k, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)k, bvs(w));
    return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)(k >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(ctx, (uint64_t)k, bvs(64)));
  }
  Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
  Z3_ast toF(Ref r) { return Z3_mk_fpa_to_fp_bv(ctx, toBV(r), fps(X.w(r))); }
  Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }

  void grow(Ref r) { if (bv.size() <= r) { size_t s = X.n.size() + X.n.size() / 2 + 16; bv.resize(s, nullptr); bl.resize(s, nullptr); } }

  Z3_ast toBV(Ref r) {
    grow(r);
    if (bv[r]) return bv[r];
    const Expr e = X.n[r];
    Z3_ast z = nullptr;
    if (e.w == 1 && e.op != E_CONST && e.op != E_VAR && e.op != E_EXTRACT) {
      z = Z3_mk_ite(ctx, toBool(r), numeral(1, 1), numeral(0, 1));
    } else switch (e.op) {
    case E_CONST: z = numeral(e.k, e.w); break;
    case E_VAR: {
      char buf[32]; snprintf(buf, sizeof buf, "v%u", (unsigned)e.k);
      z = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, buf), bvs(e.w));
      break; }
    case E_ADD: z = Z3_mk_bvadd(ctx, toBV(e.a), toBV(e.b)); break;
    case E_SUB: z = Z3_mk_bvsub(ctx, toBV(e.a), toBV(e.b)); break;
    case E_MUL: z = Z3_mk_bvmul(ctx, toBV(e.a), toBV(e.b)); break;
    case E_UDIV: z = Z3_mk_bvudiv(ctx, toBV(e.a), toBV(e.b)); break;
    case E_SDIV: z = Z3_mk_bvsdiv(ctx, toBV(e.a), toBV(e.b)); break;
    case E_UREM: z = Z3_mk_bvurem(ctx, toBV(e.a), toBV(e.b)); break;
    case E_SREM: z = Z3_mk_bvsrem(ctx, toBV(e.a), toBV(e.b)); break;
    case E_AND: z = Z3_mk_bvand(ctx, toBV(e.a), toBV(e.b)); break;
    case E_OR: z = Z3_mk_bvor(ctx, toBV(e.a), toBV(e.b)); break;
    case E_XOR: z = Z3_mk_bvxor(ctx, toBV(e.a), toBV(e.b)); break;
    case E_SHL: z = Z3_mk_bvshl(ctx, toBV(e.a), toBV(e.b)); break;
    case E_LSHR: z = Z3_mk_bvlshr(ctx, toBV(e.a), toBV(e.b)); break;
    case E_ASHR: z = Z3_mk_bvashr(ctx, toBV(e.a), toBV(e.b)); break;
    case E_ITE: z = Z3_mk_ite(ctx, toBool(e.a), toBV(e.b), toBV(e.c)); break;
    case E_CONCAT: z = Z3_mk_concat(ctx, toBV(e.a), toBV(e.b)); break;
    case E_EXTRACT: z = Z3_mk_extract(ctx, (unsigned)e.k + e.w - 1, (unsigned)e.k, toBV(e.a)); break;
    case E_ZEXT: z = Z3_mk_zero_ext(ctx, e.w - X.w(e.a), toBV(e.a)); break;
    case E_SEXT: z = Z3_mk_sign_ext(ctx, e.w - X.w(e.a), toBV(e.a)); break;
    case E_TABLE: {
      const Table &t = X.tables[(size_t)e.k];
      z = numeral(t.vals.back(), e.w);
      for (size_t i = t.keys.size() - 1; i-- > 0;) z = Z3_mk_ite(ctx, toBool(X.mk(E_EQ, 1, e.a, X.cst(t.keys[i], X.w(e.a)))), numeral(t.vals[i], e.w), z);
      break; }
    case E_FADD: z = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), toF(e.a), toF(e.b))); break;
    case E_FSUB: z = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), toF(e.a), toF(e.b))); break;
    case E_FMUL: z = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), toF(e.a), toF(e.b))); break;
    case E_FDIV: z = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), toF(e.a), toF(e.b))); break;
    case E_FEXT: case E_FTRUNC: z = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), toF(e.a), fps(e.w))); break;
    case E_SITOFP: z = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), toBV(e.a), fps(e.w))); break;
    case E_UITOFP: z = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), toBV(e.a), fps(e.w))); break;
    case E_FPTOSI: z = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), toF(e.a), e.w); break;
    case E_FPTOUI: z = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), toF(e.a), e.w); break;
    case E_FRND: {
      Z3_ast rm = e.k == 0 ? Z3_mk_fpa_rtn(ctx) : e.k == 1 ? Z3_mk_fpa_rtp(ctx) : e.k == 2 ? Z3_mk_fpa_rtz(ctx) : e.k == 3 ? Z3_mk_fpa_rna(ctx) : rne();
      z = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, rm, toF(e.a)));
      break; }
    default: fprintf(stderr, "toBV op %d\n", e.op); abort();
    }
    keep(z); grow(r);
    return bv[r] = z;
  }
  Z3_ast toBool(Ref r) {
    grow(r);
    if (bl[r]) return bl[r];
    const Expr e = X.n[r];
    Z3_ast z = nullptr;
    Z3_ast xs[2];
    switch (e.op) {
    case E_CONST: z = e.k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case E_EQ: z = X.w(e.a) == 1 ? Z3_mk_iff(ctx, toBool(e.a), toBool(e.b)) : Z3_mk_eq(ctx, toBV(e.a), toBV(e.b)); break;
    case E_ULT: z = Z3_mk_bvult(ctx, toBV(e.a), toBV(e.b)); break;
    case E_ULE: z = Z3_mk_bvule(ctx, toBV(e.a), toBV(e.b)); break;
    case E_SLT: z = Z3_mk_bvslt(ctx, toBV(e.a), toBV(e.b)); break;
    case E_SLE: z = Z3_mk_bvsle(ctx, toBV(e.a), toBV(e.b)); break;
    case E_AND: xs[0] = toBool(e.a); xs[1] = toBool(e.b); z = Z3_mk_and(ctx, 2, xs); break;
    case E_OR: xs[0] = toBool(e.a); xs[1] = toBool(e.b); z = Z3_mk_or(ctx, 2, xs); break;
    case E_XOR: z = X.isc(e.b) ? Z3_mk_not(ctx, toBool(e.a)) : Z3_mk_xor(ctx, toBool(e.a), toBool(e.b)); break;
    case E_ITE: z = Z3_mk_ite(ctx, toBool(e.a), toBool(e.b), toBool(e.c)); break;
    case E_UMULO: z = Z3_mk_not(ctx, Z3_mk_bvmul_no_overflow(ctx, toBV(e.a), toBV(e.b), false)); break;
    case E_SMULO: xs[0] = Z3_mk_not(ctx, Z3_mk_bvmul_no_overflow(ctx, toBV(e.a), toBV(e.b), true));
      xs[1] = Z3_mk_not(ctx, Z3_mk_bvmul_no_underflow(ctx, toBV(e.a), toBV(e.b))); z = Z3_mk_or(ctx, 2, xs); break;
    case E_FOEQ: z = Z3_mk_fpa_eq(ctx, toF(e.a), toF(e.b)); break;
    case E_FOLT: z = Z3_mk_fpa_lt(ctx, toF(e.a), toF(e.b)); break;
    case E_FOLE: z = Z3_mk_fpa_leq(ctx, toF(e.a), toF(e.b)); break;
    case E_FUNO: xs[0] = Z3_mk_fpa_is_nan(ctx, toF(e.a)); xs[1] = Z3_mk_fpa_is_nan(ctx, toF(e.b)); z = Z3_mk_or(ctx, 2, xs); break;
    case E_ADD: case E_SUB: z = Z3_mk_xor(ctx, toBool(e.a), toBool(e.b)); break;
    case E_MUL: xs[0] = toBool(e.a); xs[1] = toBool(e.b); z = Z3_mk_and(ctx, 2, xs); break;
    case E_VAR: case E_EXTRACT: z = Z3_mk_eq(ctx, toBV(r), numeral(1, 1)); break;
    default: fprintf(stderr, "toBool op %d w %d\n", e.op, e.w); abort();
    }
    keep(z); grow(r);
    return bl[r] = z;
  }

  // Constraints that share variables (transitively) with cond, and those variables.
  void slice(Ref cond, std::vector<uint32_t> &vars, std::vector<uint32_t> &cs) {
    std::vector<uint32_t> work = X.support(cond);
    std::vector<uint8_t> seenV(X.vars.size(), 0), seenC(cons.size(), 0);
    for (auto v : work) seenV[v] = 1;
    while (!work.empty()) {
      uint32_t v = work.back(); work.pop_back(); vars.push_back(v);
      for (auto ci : consOf[v]) if (!seenC[ci]) {
        seenC[ci] = 1; cs.push_back(ci);
        for (auto u : X.support(cons[ci])) if (!seenV[u]) { seenV[u] = 1; work.push_back(u); }
      }
    }
    std::sort(cs.begin(), cs.end());
  }

  // Exact decision by tabulating all assignments of the sliced variables, when there are few.
  // Used for branch feasibility only; assertions always go to Z3.  2 = too many
  template <class F> int enumerate(Ref root, F f) {
    std::vector<uint32_t> vars, cs;
    slice(root, vars, cs);
    uint64_t prod = 1;
    for (auto v : vars) { if (X.vars[v].w > 8) return 2; prod *= dom[v].count(); if (prod > tabMax) return 2; }
    std::vector<Ref> es;
    for (auto ci : cs) if (X.n[cons[ci]].sup == SUP_MULTI) es.push_back(cons[ci]);
    std::vector<std::vector<uint8_t>> vals(vars.size());
    for (size_t i = 0; i < vars.size(); i++) for (unsigned x = 0; x < 256; x++) if (dom[vars[i]][x]) vals[i].push_back(x);
    std::vector<size_t> ix(vars.size(), 0);
    std::vector<uint64_t> m = model;
    for (size_t i = 0; i < vars.size(); i++) { if (vals[i].empty()) return 0; m[vars[i]] = vals[i][0]; }
    for (;;) {
      X.newStamp();
      if (f(m, es)) return 1;
      size_t i = 0;
      for (; i < vars.size(); i++) {
        if (++ix[i] < vals[i].size()) { m[vars[i]] = vals[i][ix[i]]; break; }
        ix[i] = 0; m[vars[i]] = vals[i][0];
      }
      if (i == vars.size()) return 0;
    }
  }
  int tabulate(Ref cond, std::vector<uint64_t> &newModel) {
    return enumerate(cond, [&](const std::vector<uint64_t> &m, const std::vector<Ref> &es) {
      if (X.evalRec(cond, m) != 1) return false;
      for (Ref e : es) if (X.evalRec(e, m) != 1) return false;
      newModel = m;
      return true;
    });
  }
  // all values e takes under the path condition, when its sliced variables have few assignments
  bool values(Ref e, std::set<uint64_t> &out, size_t limit) {
    bool over = false;
    int r = enumerate(e, [&](const std::vector<uint64_t> &m, const std::vector<Ref> &es) {
      uint64_t v = (uint64_t)X.evalRec(e, m);
      if (out.count(v)) return false;
      for (Ref c : es) if (X.evalRec(c, m) != 1) return false;
      out.insert(v);
      over = out.size() > limit;
      return over;
    });
    return r != 2 && !over;
  }

  // Is (path condition and cond) satisfiable?  On success newModel satisfies it.
  // 1 sat, 0 unsat, -1 unknown
  int z3check(Ref cond, std::vector<uint64_t> &newModel) {
    std::vector<uint32_t> vars, cs;
    slice(cond, vars, cs);
    double t0 = now_s();
    z3q++;
    uint8_t kind = X.kind(cond);
    for (auto ci : cs) kind |= X.kind(cons[ci]);
    sol = kind == 1 ? blast : simple;
    Z3_solver_push(ctx, sol);
    for (auto ci : cs) Z3_solver_assert(ctx, sol, toBool(cons[ci]));
    Z3_solver_assert(ctx, sol, toBool(cond));
    Z3_lbool r = Z3_solver_check(ctx, sol);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {
      newModel = model;
      Z3_model m = Z3_solver_get_model(ctx, sol);
      Z3_model_inc_ref(ctx, m);
      for (auto v : vars) {
        Ref vr = X.raw(E_VAR, X.vars[v].w, 0, 0, 0, v);
        Z3_ast out;
        if (Z3_model_eval(ctx, m, toBV(vr), true, &out)) {
          uint64_t val = 0;

          if (!Z3_get_numeral_uint64(ctx, out, &val)) { fprintf(stderr, "symx: no numeral\n"); abort(); }

          newModel[v] = val;
        }
      }
      Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_pop(ctx, sol, 1);
    if (getenv("SYMX_DUMP") && now_s() - t0 > 0.05) {
      static int k = 0; char nm[200]; snprintf(nm, 200, "%s/q%d_%d_%d.smt2", getenv("SYMX_DUMP"), (int)getpid(), k++, res);
      Z3_solver_push(ctx, sol);
      for (auto ci : cs) Z3_solver_assert(ctx, sol, toBool(cons[ci]));
      Z3_solver_assert(ctx, sol, toBool(cond));
      FILE *f = fopen(nm, "w"); fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(ctx, sol)); fclose(f);
      Z3_solver_pop(ctx, sol, 1);
    }
    z3time += now_s() - t0;
    if (res == 1) z3sat++; else if (res == 0) z3unsat++; else z3unk++;
    if (res == 1) { // the model must satisfy what was asked: guards the translation to Z3
      X.newStamp();
      bool ok = X.evalRec(cond, newModel) == 1;
      for (auto ci : cs) ok = ok && X.evalRec(cons[ci], newModel) == 1;
      if (!ok) { fprintf(stderr, "symx: solver model does not satisfy the constraints (encoding error)\n"); return -1; }
    }
    return res;
  }

  // Over-approximation: cond is unsatisfiable if it is false for all values of a few small inner terms
  // (bytes, table reads, remainders) taken as independent of everything else.
  bool cuts(Ref r, std::vector<Ref> &out, std::set<Ref> &seen, int &budget) {
    if (X.n[r].sup == SUP_NONE || !seen.insert(r).second) return true;
    if (--budget < 0) return false;
    const Expr e = X.n[r];
    bool cut = e.op == E_TABLE || ((e.op == E_UREM || e.op == E_UDIV) && X.hi(r) <= 255);
    if (e.op == E_VAR) { if (e.w > 8) return false; cut = true; }
    if (cut) { out.push_back(r); return out.size() <= 3; }
    for (Ref x : {e.a, e.b, e.c}) if (x && !cuts(x, out, seen, budget)) return false;
    return true;
  }
  bool cutUnsat(Ref cond) {
    std::vector<Ref> cs; std::set<Ref> seen; int budget = 400;
    if (!cuts(cond, cs, seen, budget)) return false;
    std::vector<std::vector<uint64_t>> vals;
    uint64_t prod = 1;
    for (Ref c : cs) {
      const Expr e = X.n[c];
      std::set<uint64_t> vs;
      if (e.op == E_VAR) { for (unsigned x = 0; x < 256; x++) if (dom[(size_t)e.k][x]) vs.insert(x); }
      else if (e.op == E_TABLE) vs.insert(X.tables[(size_t)e.k].vals.begin(), X.tables[(size_t)e.k].vals.end());
      else for (uint64_t x = 0; x <= (uint64_t)X.hi(c); x++) vs.insert(x);
      vals.emplace_back(vs.begin(), vs.end());
      prod *= vs.size();
      if (!prod || prod > tabMax) return false;
    }
    std::vector<size_t> ix(cs.size(), 0);
    for (;;) {
      X.newStamp();
      for (size_t i = 0; i < cs.size(); i++) { X.evs[cs[i]] = X.stamp; X.ev[cs[i]] = vals[i][ix[i]]; }
      std::vector<uint64_t> &m = cutModel; m = model;
      for (size_t i = 0; i < cs.size(); i++) if (X.n[cs[i]].op == E_VAR) m[(size_t)X.n[cs[i]].k] = vals[i][ix[i]];
      if (X.evalRec(cond, m) == 1) return false;
      size_t i = 0;
      for (; i < cs.size(); i++) { if (++ix[i] < vals[i].size()) break; ix[i] = 0; }
      if (i == cs.size()) return true;
    }
  }
  std::vector<uint64_t> cutModel;
  // A fixed share of the table verdicts is put to Z3 as well; a disagreement ends the run as an error.
  uint64_t audits = 0;
  int audited(Ref cond, int verdict) {
    if (!picked(cond)) return verdict;
    return audit(cond, verdict);
  }
  bool picked(Ref cond) {
    uint64_t h = (cond * 0x9E3779B97F4A7C15ull) ^ (cons.size() * 0xC2B2AE3D27D4EB4Full);
    return (h >> 40) % auditShare == 0;
  }
  int audit(Ref cond, int verdict) {
    std::vector<uint64_t> m;
    int r = z3check(cond, m);
    audits++;
    if (r >= 0 && r != verdict) { fprintf(stderr, "symx: table verdict %d, Z3 %d\n", verdict, r); abort(); }
    return verdict;
  }
  unsigned auditShare = 256;
  // with cheap: 2 when only Z3 could tell
  int feasible(Ref cond, std::vector<uint64_t> &newModel, bool cheap = false) {
    const Expr &e = X.n[cond];
    if (e.op == E_CONST) { newModel = model; return e.k ? 1 : 0; }
    if (e.sup != SUP_MULTI && X.vars[e.sup - 1].w <= 8) {
      uint32_t v = e.sup - 1;
      auto &d = dom[v];
      std::vector<uint64_t> m = model;
      bool any = false; uint64_t pick = 0;
      for (unsigned x = 0; x < 256; x++) if (d[x]) {
        m[v] = x;
        X.newStamp();
        if (X.evalRec(cond, m) == 1) { any = true; pick = x; break; }
      }
      if (!any) { domq++; return audited(cond, 0); }
      if (!multi[v]) { domq++; newModel = model; newModel[v] = pick; return audited(cond, 1); }
    }
    int t = tabulate(cond, newModel);
    if (t != 2) { domq++; return audited(cond, t); }
    if (cutUnsat(cond)) { domq++; return audited(cond, 0); }
    if (cheap) return 2;
    return z3check(cond, newModel);
  }

  void add(Ref cond) {
    const Expr &e = X.n[cond];
    if (e.op == E_CONST) return;
    uint32_t ci = cons.size();
    cons.push_back(cond);
    X.learn(cond);
    if (e.sup != SUP_MULTI) {
      uint32_t v = e.sup - 1;
      consOf[v].push_back(ci);
      if (X.vars[v].w <= 8) {
        auto &d = dom[v];
        std::vector<uint64_t> m = model;
        for (unsigned x = 0; x < 256; x++) if (d[x]) {
          m[v] = x; X.newStamp();
          if (X.evalRec(cond, m) != 1) d.reset(x);
        }
      }
    } else for (auto v : X.support(cond)) { consOf[v].push_back(ci); multi[v] = 1; }
  }
};
