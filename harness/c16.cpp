// C16: integer minimisation over every small constraint system.
#include "unit.h"
#include <cstring>
using poly::Vec;
using std::string;
using std::vector;
#include <gmp.h>
extern "C" {
#include "constraints.h"
#include "ddg.h"
#include "math_support.h"
#include "pluto.h"
#include "pluto/matrix.h"
#include "pluto/pluto.h"
#include "program.h"
int64_t *pluto_prog_constraints_lexmin_glpk(const PlutoConstraints *cst, PlutoMatrix *obj, double **val, int **index, int npar, int num_ccs) __attribute__((weak));
double *pluto_fcg_constraints_lexmin_glpk(const PlutoConstraints *cst, PlutoMatrix *obj) __attribute__((weak));
}
static int k_sys = mc::counter_decl("systems"), k_nodes = mc::counter_decl("search_nodes"), k_calls = mc::counter_decl("solutions_compared");
struct Row16 { Vec a; bool eq; }; // last entry: constant
typedef vector<Row16> Rows;
static string show(const Rows &r) {
  string s;
  for (auto &x : r) s += poly::show(x.a) + (x.eq ? "=0 " : ">=0 ");
  return s;
}
static bool sat(const Rows &rs, const Vec &x) {
  for (auto &r : rs) {
    long v = r.a.back();
    for (size_t i = 0; i < x.size(); i++) v += r.a[i] * x[i];
    if (r.eq ? v != 0 : v < 0) return false;
  }
  return true;
}
// Lexicographic minimum in the given order of variables within the box, by
// depth first enumeration; a subtree is left when some row cannot hold in it.
struct LexSearch {
  const Rows &rs;
  const vector<int> &order;
  long lo, hi;
  Vec x;
  Vec val;
  vector<Vec> mn, mx; // per depth, per row: extremes of what the remaining variables add
  uint64_t nodes = 0;
  LexSearch(const Rows &r, const vector<int> &o, long lo, long hi) : rs(r), order(o), lo(lo), hi(hi), x(o.size(), 0), val(r.size()) {
    for (size_t i = 0; i < rs.size(); i++) val[i] = rs[i].a.back();
    mn.assign(o.size() + 1, Vec(rs.size(), 0));
    mx = mn;
    for (int d = (int)o.size() - 1; d >= 0; d--)
      for (size_t i = 0; i < rs.size(); i++) {
        long c = rs[i].a[o[d]];
        mn[d][i] = mn[d + 1][i] + std::min(c * lo, c * hi);
        mx[d][i] = mx[d + 1][i] + std::max(c * lo, c * hi);
      }
  }
  bool go(size_t d) {
    nodes++;
    for (size_t i = 0; i < rs.size(); i++) {
      if (val[i] + mx[d][i] < 0) return false;
      if (rs[i].eq && val[i] + mn[d][i] > 0) return false;
    }
    if (d == order.size()) return true;
    int v = order[d];
    for (long k = lo; k <= hi; k++) {
      for (size_t i = 0; i < rs.size(); i++) val[i] += rs[i].a[v] * k;
      x[v] = k;
      if (go(d + 1)) return true;
      for (size_t i = 0; i < rs.size(); i++) val[i] -= rs[i].a[v] * k;
    }
    x[v] = 0;
    return false;
  }
};
static bool lexmin(const Rows &rs, const vector<int> &order, long lo, long hi, Vec &out, int nv = 0) {
  LexSearch s(rs, order, lo, hi);
  if (nv) s.x.assign(nv, 0);
  bool r = s.go(0);
  mc::count(k_nodes, s.nodes);
  out = s.x;
  return r;
}
static PlutoConstraints *mk(const Rows &rs, int nv, PlutoContext *pc) {
  PlutoConstraints *c = pluto_constraints_alloc(rs.size() + 1, nv + 1, pc);
  c->nrows = rs.size();
  c->ncols = nv + 1;
  for (size_t i = 0; i < rs.size(); i++) {
    c->is_eq[i] = rs[i].eq;
    for (int j = 0; j <= nv; j++) c->val[i][j] = rs[i].a[j];
  }
  return c;
}
static bool unchanged(const PlutoConstraints *c, const Rows &rs, int nv) {
  if (c->nrows != rs.size() || (int)c->ncols != nv + 1) return false;
  for (size_t i = 0; i < rs.size(); i++) {
    if ((bool)c->is_eq[i] != rs[i].eq) return false;
    for (int j = 0; j <= nv; j++) if (c->val[i][j] != rs[i].a[j]) return false;
  }
  return true;
}
static PlutoContext *ctx() {
  static PlutoContext *pc = nullptr;
  if (!pc) { pc = pluto_context_alloc(); pc->options->silent = 1; pc->options->islsolve = 1; }
  return pc;
}
static vector<int> iota(int n) { vector<int> o; for (int i = 0; i < n; i++) o.push_back(i); return o; }
static bool judge(const string &who, const Rows &rs, const vector<int> &order, long lo, long hi, bool nonneg, int64_t *sol) {
  Vec want;
  bool has = lexmin(rs, order, lo, hi, want);
  mc::count(k_calls);
  if (!sol) {
    if (has) { mc::fail("infeasible", who + " reports no solution, but " + poly::show(want) + " is one: " + show(rs)); return false; }
    return true;
  }
  Vec got(sol, sol + order.size());
  bool inside = true;
  for (long v : got) inside &= v >= lo && v <= hi;
  if (!sat(rs, got)) { mc::fail("notasolution", who + " returns " + poly::show(got) + ", which violates " + show(rs)); return false; }
  for (long v : got) if (nonneg && v < 0) { mc::fail("negative", who + " returns " + poly::show(got) + " for non-negative variables: " + show(rs)); return false; }
  if (has) {
    if (got != want) { mc::fail("notminimal", who + " returns " + poly::show(got) + " instead of " + poly::show(want) + ": " + show(rs)); return false; }
  } else if (inside) { mc::fail("oracle", "the search missed " + poly::show(got) + ": " + show(rs)); return false; }
  return true;
}
// All systems of nr rows over nv variables: rows start at the given first row (by index), so that groups split the space.
static vector<Row16> all_rows(int nv, const Vec &co, const Vec &cc) {
  vector<Row16> v;
  product(co, nv, [&](const Vec &a) {
    bool zero = true;
    for (long x : a) zero &= x == 0;
    for (long c : cc) for (int e = 0; e < 2; e++) {
      if (zero && c != 1 && c != -1) continue;
      Row16 r{a, (bool)e};
      r.a.push_back(c);
      v.push_back(r);
    }
    return true;
  });
  return v;
}
static void plain(int nv, int nr, const Vec &co, const Vec &cc, int part, int parts, long hi, bool neg) {
  auto R = all_rows(nv, co, cc);
  vector<size_t> ix(nr, 0);
  vector<int> order = iota(nv);
  std::function<bool(int)> rec = [&](int k) {
    if (k == nr) {
      Rows rs;
      for (size_t i : ix) rs.push_back(R[i]);
      if (neg)
        for (int v = 0; v < nv; v++)
          for (long s : {1L, -1L}) { Row16 r{Vec(nv + 1, 0), false}; r.a[v] = s; r.a[nv] = 3; rs.push_back(r); }
      PlutoConstraints *c = mk(rs, nv, ctx());
      mc::count(k_sys);
      int64_t *s = pluto_constraints_lexmin_isl(c, neg ? ALLOW_NEGATIVE_COEFF : DO_NOT_ALLOW_NEGATIVE_COEFF);
      bool ok = judge("lexmin", rs, order, neg ? -3 : 0, neg ? 3 : hi, !neg, s);
      free(s);
      if (ok && !unchanged(c, rs, nv)) { mc::fail("modified", "lexmin changes its argument: " + show(rs)); ok = false; }
      s = pluto_constraints_lexmin(c, neg ? ALLOW_NEGATIVE_COEFF : DO_NOT_ALLOW_NEGATIVE_COEFF);
      if (ok) ok = judge("lexmin", rs, order, neg ? -3 : 0, neg ? 3 : hi, !neg, s);
      free(s);
      pluto_constraints_free(c);
      return ok;
    }
    for (size_t i = k ? ix[k - 1] : 0; i < R.size(); i++) {
      if (k == 0 && (int)(i % parts) != part) continue;
      ix[k] = i;
      if (!rec(k + 1)) return false;
    }
    return true;
  };
  rec(0);
}
// Large values: the solution has to come back unharmed.
static void large() {
  Vec big = {1, 7, 1000, (1L << 31) - 1, 1L << 31, (1L << 31) + 5, 1L << 33, (1L << 40) + 3};
  for (long b : big)
    for (long m : {1L, 2L, 3L})
      for (int neg = 0; neg < 2; neg++)
        for (int e = 0; e < 2; e++) {
          // m x (>)= m b + (e ? 0 : -1), y >= b - x
          Rows rs;
          rs.push_back({{m, 0, -m * b + (e ? 0 : m - 1)}, e == 1});
          rs.push_back({{1, 1, -b - 9}, false});
          if (neg) { rs.push_back({{0, 1, b + 20}, false}); rs.push_back({{-1, 0, 4 * b}, false}); }
          PlutoConstraints *c = mk(rs, 2, ctx());
          mc::count(k_sys);
          int64_t *s = pluto_constraints_lexmin_isl(c, neg);
          mc::count(k_calls);
          // smallest x with m x >= m b - m + 1 is b; then y is the least with x + y >= b + 9
          if (!s || s[0] != b || s[1] != 9) mc::fail("large", "lexmin of " + show(rs) + " is " + (s ? std::to_string(s[0]) + "," + std::to_string(s[1]) : string("missing")));
          free(s);
          if (neg) {
            rs = {{{1, 0, b}, false}, {{-m, 0, -m * b + (e ? 0 : m - 1)}, false}, {{0, 1, b}, e == 1}};
            PlutoConstraints *d = mk(rs, 2, ctx());
            s = pluto_constraints_lexmin_isl(d, 1);
            bool feas = e || true;
            if (feas && (!s || s[0] != -b || s[1] != -b)) mc::fail("large", "lexmin of " + show(rs) + " is " + (s ? std::to_string(s[0]) + "," + std::to_string(s[1]) : string("missing")));
            free(s);
            pluto_constraints_free(d);
          }
          pluto_constraints_free(c);
          if (mc::failed()) return;
        }
}
// GLPK minimises a weighted sum with positive weights.
static void glpk(int nv, int nr, const Vec &co, const Vec &cc, int part, int parts, long hi) {
  if (!pluto_prog_constraints_lexmin_glpk) return;
  auto R = all_rows(nv, co, cc);
  vector<size_t> ix(nr, 0);
  PlutoContext *pc = ctx();
  const Vec ws[] = {{1, 1, 1}, {5, 2, 1}, {1, 3, 7}};
  std::function<bool(int)> rec = [&](int k) {
    if (k < nr) {
      for (size_t i = k ? ix[k - 1] : 0; i < R.size(); i++) {
        if (k == 0 && (int)(i % parts) != part) continue;
        ix[k] = i;
        if (!rec(k + 1)) return false;
      }
      return true;
    }
    Rows rs;
    for (size_t i : ix) rs.push_back(R[i]);
    // branch and bound needs bounds to terminate on systems without integer solutions
    for (int v = 0; v < nv; v++) { Row16 u{Vec(nv + 1, 0), false}; u.a[v] = -1; u.a[nv] = hi; rs.push_back(u); }
    mc::count(k_sys);
    for (auto &w : ws) {
      PlutoConstraints *c = mk(rs, nv, pc);
      PlutoMatrix *obj = pluto_matrix_alloc(1, nv, pc);
      for (int j = 0; j < nv; j++) obj->val[0][j] = w[j];
      long best = -1;
      product([&] { Vec v; for (long x = 0; x <= hi; x++) v.push_back(x); return v; }(), nv, [&](const Vec &x) {
        if (sat(rs, x)) { long o = 0; for (int j = 0; j < nv; j++) o += w[j] * x[j]; if (best < 0 || o < best) best = o; }
        return true;
      });
      for (int which = 0; which < 2; which++) {
        Vec got;
        bool has = false;
        if (which == 0) {
          int64_t *s = pluto_prog_constraints_lexmin_glpk(c, obj, NULL, NULL, 0, 0);
          if (s) { has = true; got.assign(s, s + nv); }
          free(s);
        } else if (pluto_fcg_constraints_lexmin_glpk) {
          pc->options->ilp = 1;
          double *s = pluto_fcg_constraints_lexmin_glpk(c, obj);
          pc->options->ilp = 0;
          if (s) { has = true; for (int j = 0; j < nv; j++) got.push_back((long)(s[j] + (s[j] < 0 ? -0.5 : 0.5))); }
          free(s);
        } else continue;
        mc::count(k_calls);
        if (!has) {
          if (best >= 0) { mc::fail("glpk-infeasible", "glpk finds nothing, there is a solution of cost " + std::to_string(best) + ": " + show(rs)); }
        } else {
          long o = 0;
          bool neg = false;
          for (int j = 0; j < nv; j++) { o += w[j] * got[j]; neg |= got[j] < 0; }
          if (neg || !sat(rs, got)) mc::fail("glpk-notasolution", "glpk returns " + poly::show(got) + ": " + show(rs));
          else if (best >= 0 && o != best) mc::fail("glpk-notminimal", "glpk returns " + poly::show(got) + " of cost " + std::to_string(o) + ", optimal is " + std::to_string(best) + ": " + show(rs));
          else if (best < 0) { bool in = true; for (long v : got) in &= v <= hi; if (in) mc::fail("oracle", "missed " + poly::show(got) + show(rs)); }
        }
      }
      pluto_matrix_free(obj);
      pluto_constraints_free(c);
      if (mc::failed()) return false;
    }
    return true;
  };
  rec(0);
}
// The program level entry: some variables do not exist, and each statement's
// coefficients are minimised from the innermost iterator outwards.
struct PWorld {
  PlutoContext *pc;
  PlutoProg *prog;
  vector<int> dims;
  int nvar, npar, percc;
  PWorld(vector<int> d, int nvar, int npar, int solver, int percc) : dims(d), nvar(nvar), npar(npar), percc(percc) {
    pc = pluto_context_alloc();
    pc->options->silent = 1;
    pc->options->islsolve = solver == 0;
    pc->options->glpk = solver == 1;
    pc->options->per_cc_obj = percc > 0;
    prog = pluto_prog_alloc(pc);
    int n = dims.size();
    prog->stmts = (Stmt **)malloc(n * sizeof(Stmt *));
    for (int i = 0; i < n; i++) {
      PlutoMatrix *t = pluto_matrix_alloc(0, nvar + npar + 1, pc);
      PlutoConstraints *dom = pluto_constraints_alloc(1, nvar + npar + 1, pc);
      dom->nrows = 0;
      Stmt *s = pluto_stmt_alloc(nvar, dom, t);
      s->id = i;
      s->dim_orig = dims[i];
      for (int k = 0; k < nvar; k++) { s->is_orig_loop[k] = k < dims[i]; s->iterators[k] = strdup("i"); }
      s->dim = dims[i];
      prog->stmts[i] = s;
    }
    prog->nstmts = n;
    prog->nvar = nvar;
    prog->npar = npar;
    prog->ddg = graph_alloc(n, pc);
    prog->ddg->num_ccs = percc ? percc : 1;
  }
  int nv() const { return npar + 1 + percc * (npar + 1) + dims.size() * (nvar + 1); }
  // the order in which the variables are minimised; variables that do not exist are left out
  vector<int> order() const {
    vector<int> o;
    int off = npar + 1 + percc * (npar + 1);
    for (int i = 0; i < off; i++) o.push_back(i);
    for (size_t s = 0; s < dims.size(); s++) {
      int b = off + s * (nvar + 1);
      for (int k = dims[s] - 1; k >= 0; k--) o.push_back(b + k);
      o.push_back(b + nvar);
    }
    return o;
  }
};
static void progs(vector<int> dims, int nvar, int npar, int percc, int solver, int part, int parts, const Vec &co) {
  PWorld w(dims, nvar, npar, solver, percc);
  int nv = w.nv();
  auto order = w.order();
  vector<bool> exists(nv, false);
  for (int v : order) exists[v] = true;
  int off = npar + 1 + percc * (npar + 1);
  // second rows: what the scheduler adds to avoid trivial solutions, and ties between statements
  vector<Row16> second;
  auto z = [&] { return Row16{Vec(nv + 1, 0), false}; };
  for (size_t s = 0; s < dims.size(); s++) {
    Row16 r = z();
    for (int k = 0; k < dims[s]; k++) r.a[off + s * (nvar + 1) + k] = 1;
    r.a[nv] = -1;
    second.push_back(r);
    if (dims[s] == 2) { r.a[off + s * (nvar + 1)] = 2; r.a[off + s * (nvar + 1) + 1] = -1; r.eq = true; r.a[nv] = 0; second.push_back(r); }
  }
  { Row16 r = z(); r.a[off] = 1; r.a[off + (dims.size() - 1) * (nvar + 1)] -= 1; r.a[0] = 1; r.a[nv] = -1; second.push_back(r); }
  { Row16 r = z(); for (int v : order) r.a[v] = 1; r.a[nv] = -3; r.eq = true; second.push_back(r); }
  // first rows: every combination over the variables
  uint64_t n = 0;
  Vec idx = order.size() > 7 ? Vec(order.begin(), order.end()) : Vec(order.begin(), order.end());
  product(co, idx.size(), [&](const Vec &a) {
    if ((int)(n++ % parts) != part) return true;
    for (long c : {-2L, -1L, 1L}) for (int e = 0; e < 2; e++) {
      Row16 r = z();
      for (size_t i = 0; i < idx.size(); i++) r.a[idx[i]] = a[i];
      r.a[nv] = c;
      r.eq = e;
      for (auto &s : second) {
        Rows rs = {r, s};
        // branch and bound needs bounds to terminate on systems without integer solutions
        if (solver) for (int v : order) { Row16 u = z(); u.a[v] = -1; u.a[nv] = 6; rs.push_back(u); }
        mc::count(k_sys);
        PlutoConstraints *cst = mk(rs, nv, w.pc);
        int64_t *sol = pluto_prog_constraints_lexmin(cst, w.prog);
        pluto_constraints_free(cst);
        bool ok = true;
        if (sol) for (int v = 0; v < nv; v++) if (!exists[v] && sol[v] != 0) { mc::fail("absent", "a coefficient of an iterator that does not exist gets " + std::to_string(sol[v]) + ": " + show(rs)); ok = false; }
        if (ok && solver == 0) {
          Vec want;
          bool has = lexmin(rs, order, 0, 6, want, nv);
          ok = false;
          Vec full(nv, 0);
          mc::count(k_calls);
          if (has) for (int v : order) full[v] = want[v];
          if (!sol) { ok = !has; if (has) mc::fail("infeasible", "no solution reported, but " + poly::show(full) + " is one: " + show(rs)); }
          else {
            Vec got(sol, sol + nv);
            if (!sat(rs, got)) mc::fail("notasolution", "returns " + poly::show(got) + ": " + show(rs));
            else if (has && got != full) mc::fail("notminimal", "returns " + poly::show(got) + " instead of " + poly::show(full) + ": " + show(rs));
            else { ok = true; for (long v : got) if (v < 0) { ok = false; mc::fail("negative", "returns " + poly::show(got) + ": " + show(rs)); } }
          }
        } else if (ok) {
          Vec want;
          bool has = lexmin(rs, order, 0, 6, want, nv);
          mc::count(k_calls);
          if (!sol && has) { ok = false; mc::fail("infeasible", "no solution reported, but there is one: " + show(rs)); }
          if (sol) {
            Vec got(sol, sol + nv);
            bool neg = false;
            for (long v : got) neg |= v < 0;
            if (neg || !sat(rs, got)) { ok = false; mc::fail("notasolution", "returns " + poly::show(got) + ": " + show(rs)); }
          }
        }
        free(sol);
        if (!ok) return false;
      }
    }
    return true;
  });
}
mc::Check make_c16(const string &tier) {
  bool deep = tier != "quick";
  auto g = std::make_shared<Groups>();
  auto S = [](int k) { return std::to_string(k); };
  Vec c2 = {-2, -1, 0, 1, 2}, k3 = {-3, -2, -1, 0, 1, 2, 3}, c1 = {-1, 0, 1}, k2 = {-2, -1, 0, 1, 2}, k1 = {-1, 0, 1};
  g->add("lexmin:large", [] { large(); });
  int P = 16;
  for (int p = 0; p < P; p++) {
    g->add("lexmin:1x1:" + S(p), [=] { plain(1, 1, {-3, -2, -1, 0, 1, 2, 3}, {-7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5}, p, P, 40, false); plain(1, 2, k3, {-5, -3, -1, 0, 2, 5}, p, P, 40, false); });
    g->add("lexmin:2x2:" + S(p), [=] { plain(2, 2, c2, deep ? k3 : Vec{-3, -1, 0, 2}, p, P, 70, false); });
    g->add("lexmin:2x2neg:" + S(p), [=] { plain(2, 2, c2, deep ? k2 : Vec{-2, 0, 1}, p, P, 70, true); });
    g->add("lexmin:2x3:" + S(p), [=] { plain(2, 3, c1, deep ? k2 : Vec{-2, 1}, p, P, 40, false); });
    g->add("lexmin:3x2:" + S(p), [=] { plain(3, 2, c1, deep ? k2 : Vec{-1, 1}, p, P, 24, false); });
    g->add("glpk:2x2:" + S(p), [=] { glpk(2, 2, deep ? c2 : Vec{-2, -1, 0, 1}, deep ? k2 : Vec{-2, 0, 1}, p, P, 16); });
    g->add("glpk:3x1:" + S(p), [=] { glpk(3, 1, {-3, -2, -1, 0, 1, 2}, {-4, -1, 0, 2}, p, P, 6); });
    for (int s = 0; s < 2; s++) {
      g->add("prog:21:" + S(s) + ":" + S(p), [=] { progs({2, 1}, 2, 1, 0, s, p, P, s ? (deep ? c1 : Vec{-1, 1}) : c1); });
      g->add("prog:2:" + S(s) + ":" + S(p), [=] { progs({2}, 2, 1, 0, s, p, P, deep ? c2 : Vec{-2, -1, 0, 1}); });
      g->add("prog:3:" + S(s) + ":" + S(p), [=] { progs({3}, 3, 0, 0, s, p, P, c2); });
      g->add("prog:132:" + S(s) + ":" + S(p), [=] { progs({1, 3, 2}, 3, 0, 0, s, p, P, deep ? c1 : Vec{-1, 1}); });
      if (s == 0) g->add("prog:21cc:" + S(s) + ":" + S(p), [=] { progs({2, 1}, 2, 0, 2, s, p, P, deep ? c1 : Vec{-1, 1}); });
    }
  }
  return make_groups(g, "every system of up to 2 constraints (equalities and inequalities) on 2 and 3 variables and up to 3 constraints on 2, coefficients within [-2,2] or [-1,1]; program level systems with all sign patterns over the existing variables");
}
