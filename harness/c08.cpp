// C08: operations on constraint sets against their meaning on integer points.
// A set is a list of systems of rows; a row is sum a_j x_j + c (==|>=) 0. The
// rows are read back from the library's objects, their meaning is evaluated
// here, point by point.
#include "unit.h"
#include <algorithm>
#include <cstring>
#include <cmath>
using poly::Vec;
using std::string;
using std::to_string;
using std::vector;
#include <gmp.h>
extern "C" {
#include "constraints.h"
#include "math_support.h"
#include "pluto.h"
#include "pluto/matrix.h"
#include "pluto/pluto.h"
#include "program.h"
void fourier_motzkin_eliminate(PlutoConstraints *, unsigned) __attribute__((weak));
void fourier_motzkin_eliminate_smart(PlutoConstraints *, unsigned) __attribute__((weak));
void pluto_constraints_gaussian_eliminate(PlutoConstraints *, int) __attribute__((weak));
PlutoConstraints *pluto_constraints_intersection_isl(const PlutoConstraints *, const PlutoConstraints *) __attribute__((weak));
PlutoConstraints *pluto_constraints_intersection(const PlutoConstraints *, const PlutoConstraints *) __attribute__((weak));
PlutoConstraints *pluto_constraints_difference(const PlutoConstraints *, const PlutoConstraints *) __attribute__((weak));
int pluto_constraints_are_equal(const PlutoConstraints *, const PlutoConstraints *) __attribute__((weak));
int pluto_constraints_get_num_non_zero_coeffs(const PlutoConstraints *) __attribute__((weak));
PlutoMatrix *pluto_constraints_extract_equalities(const PlutoConstraints *) __attribute__((weak));
}
static int k_sets = mc::counter_decl("sets"), k_ops = mc::counter_decl("operations"), k_pts = mc::counter_decl("points_compared"),
           k_seq = mc::counter_decl("operation_sequences");
static PlutoContext *ctx() {
  static PlutoContext *c = nullptr;
  if (!c) { c = pluto_context_alloc(); c->options->silent = 1; c->options->islsolve = 1; }
  return c;
}
typedef __int128 I;
struct Row { Vec a; bool eq; };
typedef vector<Row> Rows;
typedef vector<Rows> List;
static string show(const Rows &r) {
  string s = "{";
  for (auto &x : r) s += poly::show(x.a) + (x.eq ? "=0 " : ">=0 ");
  return s + "}";
}
static string show(const List &l) {
  string s;
  for (auto &r : l) s += (s.empty() ? "" : " u ") + show(r);
  return s;
}
static bool sat(const Rows &rs, const Vec &x) {
  for (auto &r : rs) {
    I v = r.a.back();
    for (size_t i = 0; i < x.size(); i++) v += (I)r.a[i] * x[i];
    if (r.eq ? v != 0 : v < 0) return false;
  }
  return true;
}
static bool sat(const List &l, const Vec &x) {
  for (auto &r : l) if (sat(r, x)) return true;
  return false;
}
static PlutoConstraints *mk1(const Rows &rs, int nv, int spare = 0) {
  PlutoConstraints *c = pluto_constraints_alloc((int)rs.size() + spare ? rs.size() + spare : 1, nv + 1, ctx());
  c->nrows = rs.size();
  c->ncols = nv + 1;
  for (size_t i = 0; i < rs.size(); i++) {
    c->is_eq[i] = rs[i].eq;
    for (int j = 0; j <= nv; j++) c->val[i][j] = rs[i].a[j];
  }
  return c;
}
static PlutoConstraints *mk(const List &l, int nv, int spare = 0) {
  PlutoConstraints *h = nullptr, **t = &h;
  for (auto &r : l) { *t = mk1(r, nv, spare); t = &(*t)->next; }
  return h;
}
static List get(const PlutoConstraints *c) {
  List l;
  for (; c; c = c->next) {
    Rows rs;
    for (unsigned i = 0; i < c->nrows; i++) {
      Row r;
      r.eq = c->is_eq[i];
      for (unsigned j = 0; j < c->ncols; j++) r.a.push_back(c->val[i][j]);
      rs.push_back(r);
    }
    l.push_back(rs);
  }
  return l;
}
// The rows have the expected number of columns everywhere.
static bool shaped(const PlutoConstraints *c, int nv, const string &what) {
  for (; c; c = c->next)
    if ((int)c->ncols != nv + 1) { mc::fail("shape", what + ": " + to_string((int)c->ncols - 1) + " variables instead of " + to_string(nv)); return false; }
  return true;
}
static bool box(int nv, long lo, long hi, const std::function<bool(const Vec &)> &cb) {
  Vec vals;
  for (long v = lo; v <= hi; v++) vals.push_back(v);
  return product(vals, nv, cb);
}
static int Bx(int nv) { return nv <= 2 ? 4 : nv == 3 ? 3 : 2; }
// post contains exactly the points of the box that the predicate holds at.
static bool same(const PlutoConstraints *post, int nv, const std::function<bool(const Vec &)> &want, const string &what) {
  mc::count(k_ops);
  if (!post) { mc::fail("value", what + ": no result"); return false; }
  if (!shaped(post, nv, what)) return false;
  List l = get(post);
  return box(nv, -Bx(nv), Bx(nv), [&](const Vec &x) {
    mc::count(k_pts);
    bool g = sat(l, x), w = want(x);
    if (g != w) mc::fail("value", what + " = " + show(l) + (g ? " contains " : " misses ") + poly::show(x));
    return g == w;
  });
}
// Is some value of variable v (inserted at pos) in the system at x? Exactly,
// from the bounds the rows put on it; over the integers or the rationals.
static bool fibre(const Rows &rs, const Vec &x, int pos, bool rational) {
  // lo/hi as fractions n/d, d > 0
  bool hl = false, hh = false;
  I ln = 0, ld = 1, hn = 0, hd = 1;
  vector<std::pair<I, I>> eqs; // a, c: a v + c == 0
  for (auto &r : rs) {
    I c = r.a.back(), a = r.a[pos];
    size_t k = 0;
    for (size_t i = 0; i + 1 < r.a.size(); i++) if ((int)i != pos) c += (I)r.a[i] * x[k++];
    if (a == 0) { if (r.eq ? c != 0 : c < 0) return false; continue; }
    auto lower = [&](I n, I d) { if (d < 0) { n = -n; d = -d; } if (!hl || n * ld > ln * d) { ln = n; ld = d; } hl = true; };
    auto upper = [&](I n, I d) { if (d < 0) { n = -n; d = -d; } if (!hh || n * hd < hn * d) { hn = n; hd = d; } hh = true; };
    if (r.eq) { lower(-c, a); upper(-c, a); }
    else if (a > 0) lower(-c, a);
    else upper(-c, a);
  }
  if (!hl || !hh) return true;
  if (rational) return ln * hd <= hn * ld;
  auto fl = [](I n, I d) { I q = n / d; return (n % d != 0 && n < 0) ? q - 1 : q; };
  return -fl(-ln, ld) <= fl(hn, hd);
}
// post lies between the integer and the rational shadow of pre along pos.
static bool shadow(const List &pre, int nv, int pos, const PlutoConstraints *post, bool exact_rational, const string &what) {
  mc::count(k_ops);
  if (!post) { mc::fail("shadow", what + ": no result"); return false; }
  if (!shaped(post, nv - 1, what)) return false;
  List l = get(post);
  if (l.size() != pre.size()) { mc::fail("shadow", what + ": " + to_string(l.size()) + " pieces from " + to_string(pre.size())); return false; }
  return box(nv - 1, -Bx(nv - 1), Bx(nv - 1), [&](const Vec &x) {
    mc::count(k_pts);
    for (size_t e = 0; e < pre.size(); e++) {
      bool g = sat(l[e], x), in = fibre(pre[e], x, pos, false), ra = fibre(pre[e], x, pos, true);
      if (g && !ra) { mc::fail("shadow", what + " = " + show(l[e]) + " contains " + poly::show(x) + ", which has no preimage"); return false; }
      if (!g && in) { mc::fail("shadow", what + " = " + show(l[e]) + " misses " + poly::show(x)); return false; }
      if (exact_rational && !g && ra) { mc::fail("shadow", what + " = " + show(l[e]) + " misses " + poly::show(x) + " of the rational shadow"); return false; }
    }
    return true;
  });
}
static bool unchanged(const PlutoConstraints *c, const List &want, const string &what) {
  List l = get(c);
  bool ok = l.size() == want.size();
  for (size_t e = 0; ok && e < l.size(); e++) {
    ok = l[e].size() == want[e].size();
    for (size_t i = 0; ok && i < l[e].size(); i++) ok = l[e][i].a == want[e][i].a && l[e][i].eq == want[e][i].eq;
  }
  if (!ok) mc::fail("argument", what + " changes its argument");
  return ok;
}
// Integer emptiness within a box that is large for the coefficients used.
static bool empty_ref(const List &l, int nv) {
  long b = nv <= 1 ? 30 : nv == 2 ? 14 : 7;
  return box(nv, -b, b, [&](const Vec &x) { return !sat(l, x); });
}
struct Free {
  PlutoConstraints *c;
  ~Free() { pluto_constraints_free(c); }
};
static long ceil_div(long n, long d) { long q = n / d; return (n % d != 0 && ((n < 0) == (d < 0))) ? q + 1 : q; }

// Every unary operation on one set.
static bool unary(const List &s, int nv, bool polylib) {
  mc::count(k_sets);
  string n = show(s);
  auto in = [&](const Vec &x) { return sat(s, x); };
  for (int spare = 0; spare < 2; spare++) {
    auto fresh = [&]() { return mk(s, nv, spare); };
    { Free a{fresh()};
      PlutoConstraints *d = pluto_constraints_dup(a.c);
      Free f{d};
      if (!same(d, nv, in, "copy of " + n) || !unchanged(a.c, s, "copying")) return false;
      if (pluto_constraints_num_in_list(a.c) != (int)s.size()) { mc::fail("value", "number of pieces of " + n); return false; } }
    { Free a{fresh()}; pluto_constraints_simplify(a.c); if (!same(a.c, nv, in, "simplification of " + n)) return false; }
    for (int v = 0; v < nv; v++) {
      string w = " of variable " + to_string(v) + " of " + n;
      for (long k = -2; k <= 2; k++) {
        { Free a{fresh()}; pluto_constraints_add_lb(a.c, v, k); if (!same(a.c, nv, [&](const Vec &x) { return sat(s, x) && x[v] >= k; }, "lower bound " + to_string(k) + w)) return false; }
        { Free a{fresh()}; pluto_constraints_add_ub(a.c, v, k); if (!same(a.c, nv, [&](const Vec &x) { return sat(s, x) && x[v] <= k; }, "upper bound " + to_string(k) + w)) return false; }
        { Free a{fresh()}; pluto_constraints_set_var(a.c, v, k); if (!same(a.c, nv, [&](const Vec &x) { return sat(s, x) && x[v] == k; }, "fixing to " + to_string(k) + w)) return false; }
      }
      { Free a{fresh()}; fourier_motzkin_eliminate(a.c, v); if (!shadow(s, nv, v, a.c, false, "elimination" + w)) return false; }
      if (s.size() == 1) {
        Free a{fresh()}; fourier_motzkin_eliminate_smart(a.c, v); if (!shadow(s, nv, v, a.c, false, "smart elimination" + w)) return false; }
      bool has = true;
      for (auto &e : s) { bool h = false; for (auto &r : e) h |= r.eq && r.a[v]; has &= h; }
      if (has && pluto_constraints_gaussian_eliminate) {
        Free a{fresh()}; pluto_constraints_gaussian_eliminate(a.c, v); if (!shadow(s, nv, v, a.c, false, "gaussian elimination" + w)) return false; }
      { PlutoConstraints *a = mk1(s[0], nv, spare); pluto_constraints_project_out_isl_single(&a, v, 1); Free f{a};
        if (!shadow({s[0]}, nv, v, a, false, "isl projection" + w)) return false; }
      if (polylib) {
        Free a{fresh()}; pluto_constraints_project_out(a.c, v, 1); if (!shadow(s, nv, v, a.c, false, "projection" + w)) return false; }
      { Free a{fresh()}; pluto_constraints_remove_dim(a.c, v);
        if (!same(a.c, nv - 1, [&](const Vec &x) { Vec y = x; y.insert(y.begin() + v, 0); return sat(s, y); }, "removal" + w)) return false; }
      for (int v2 = 0; v2 < nv; v2++) {
        Free a{fresh()}; pluto_constraints_interchange_cols(a.c, v, v2);
        if (!same(a.c, nv, [&](const Vec &x) { Vec y = x; std::swap(y[v], y[v2]); return sat(s, y); }, "interchange" + w)) return false; }
    }
    for (int p = 0; p <= nv; p++) {
      Free a{fresh()}; pluto_constraints_add_dim(a.c, p, nullptr);
      if (!same(a.c, nv + 1, [&](const Vec &x) { Vec y = x; y.erase(y.begin() + p); return sat(s, y); }, "new dimension at " + to_string(p) + " in " + n)) return false;
    }
    { Free a{fresh()}; pluto_constraints_add_leading_dims(a.c, 1);
      if (!same(a.c, nv + 1, [&](const Vec &x) { return sat(s, Vec(x.begin() + 1, x.end())); }, "leading dimension in " + n)) return false; }
    // an inequality or equality without coefficients changes nothing
    { Free a{fresh()}; pluto_constraints_add_inequality(a.c); if (!same(a.c, nv, in, "zero inequality in " + n)) return false; }
    { Free a{fresh()}; pluto_constraints_add_equality(a.c); if (!same(a.c, nv, in, "zero equality in " + n)) return false; }
    { Free a{fresh()};
      bool e = pluto_constraints_is_empty(a.c);
      mc::count(k_ops);
      if (e != empty_ref(s, nv)) { mc::fail("value", "emptiness of " + n + " is reported as " + (e ? "true" : "false")); return false; }
      if (!unchanged(a.c, s, "testing emptiness")) return false; }
    if (s.size() == 1) {
      const Rows &r = s[0];
      { Free a{fresh()}; PlutoConstraints *q = pluto_constraints_to_pure_inequalities_single(a.c); Free f{q};
        if (!same(q, nv, in, "inequalities of " + n) || !unchanged(a.c, s, "conversion to inequalities")) return false;
        for (unsigned i = 0; i < q->nrows; i++) if (q->is_eq[i]) { mc::fail("value", "an equality is left among the inequalities of " + n); return false; } }
      for (size_t i = 0; i < r.size(); i++) {
        Rows rest = r;
        rest.erase(rest.begin() + i);
        { Free a{fresh()}; pluto_constraints_remove_row(a.c, i); if (!same(a.c, nv, [&](const Vec &x) { return sat(rest, x); }, "row " + to_string(i) + " removed from " + n)) return false; }
        { Free a{fresh()}; pluto_constraints_zero_row(a.c, i); if (!same(a.c, nv, [&](const Vec &x) { return sat(rest, x); }, "row " + to_string(i) + " zeroed in " + n)) return false; }
        { Free a{fresh()}; PlutoConstraints *q = pluto_constraints_select_row(a.c, i); Free f{q};
          if (!same(q, nv, [&](const Vec &x) { return sat(Rows{r[i]}, x); }, "row " + to_string(i) + " of " + n)) return false; }
        { Free a{fresh()}; pluto_constraints_normalize_row(a.c, i); if (!same(a.c, nv, in, "normalised " + n)) return false; }
        Rows neg = r;
        for (auto &k : neg[i].a) k = -k;
        { Free a{fresh()}; pluto_constraints_negate_row(a.c, i); if (!same(a.c, nv, [&](const Vec &x) { return sat(neg, x); }, "row " + to_string(i) + " negated in " + n)) return false; }
        if (!r[i].eq) {
          Free a{fresh()}; pluto_constraints_negate_constraint(a.c, i);
          if (!same(a.c, nv, [&](const Vec &x) { return sat(rest, x) && !sat(Rows{r[i]}, x); }, "constraint " + to_string(i) + " negated in " + n)) return false; }
        else if (r.size() == 1) {
          Free a{fresh()};
          PlutoConstraints *p = pluto_hyperplane_get_non_negative_half_space(a.c), *q = pluto_hyperplane_get_negative_half_space(a.c);
          Free f{p}, g{q};
          Row up = r[i];
          up.eq = false;
          if (!same(p, nv, [&](const Vec &x) { return sat(Rows{up}, x); }, "non-negative half space of " + n)) return false;
          if (!same(q, nv, [&](const Vec &x) { return !sat(Rows{up}, x); }, "negative half space of " + n)) return false;
          if (!unchanged(a.c, s, "taking a half space")) return false; }
      }
      { Free a{fresh()};
        PlutoMatrix *m = pluto_constraints_to_matrix(a.c);
        PlutoConstraints *q = pluto_constraints_from_matrix(m);
        Free f{q};
        pluto_matrix_free(m);
        if (!same(q, nv, in, "matrix round trip of " + n)) return false; }
      { Free a{fresh()};
        PlutoMatrix *m = pluto_constraints_extract_equalities(a.c);
        PlutoConstraints *q = pluto_constraints_from_equalities(m);
        Free f{q};
        pluto_matrix_free(m);
        Rows eqs;
        for (auto &x : r) if (x.eq) eqs.push_back(x);
        if (!same(q, nv, [&](const Vec &x) { return sat(eqs, x); }, "equalities of " + n)) return false; }
      { PlutoMatrix *m = pluto_matrix_alloc(r.size(), nv + 1, ctx());
        vector<int> is_eq(r.size() + 1);
        Rows ges = r;
        for (size_t i = 0; i < r.size(); i++) { is_eq[i] = r[i].eq; ges[i].eq = false; for (int j = 0; j <= nv; j++) m->val[i][j] = r[i].a[j]; }
        PlutoConstraints *q = pluto_constraints_from_mixed_matrix(m, is_eq.data()), *p = pluto_constraints_from_inequalities(m);
        Free f{q}, g{p};
        pluto_matrix_free(m);
        if (!same(q, nv, in, "set from matrix " + n)) return false;
        if (!same(p, nv, [&](const Vec &x) { return sat(ges, x); }, "inequalities from matrix " + n)) return false; }
      { Free a{fresh()};
        int nz = 0;
        for (auto &x : r) for (int j = 0; j < nv; j++) nz += x.a[j] != 0;
        if (pluto_constraints_get_num_non_zero_coeffs(a.c) != nz) { mc::fail("value", "number of coefficients of " + n); return false; }
        for (int k = 1; k <= nv; k++) {
          int b = pluto_constraints_best_elim_candidate(a.c, k);
          if (b > nv - 1 || b < nv - k) { mc::fail("value", "elimination candidate " + to_string(b) + " outside the last " + to_string(k) + " of " + n); return false; }
        } }
    }
    if (polylib && !empty_ref(s, nv)) {
      bool each = true; // rational emptiness of a piece makes its bounds meaningless
      for (auto &e : s) each &= !empty_ref({e}, nv);
      for (int v = 0; each && v < nv; v++) {
        Free a{fresh()};
        int64_t lb = 0, ub = 0;
        int hl = pluto_constraints_get_const_lb(a.c, v, &lb), hu = pluto_constraints_get_const_ub(a.c, v, &ub);
        mc::count(k_ops, 2);
        if (!unchanged(a.c, s, "asking for bounds")) return false;
        bool ok = box(nv, -14, 14, [&](const Vec &x) { return !sat(s, x) || ((!hl || x[v] >= lb) && (!hu || x[v] <= ub)); });
        string got = (hl ? "[" + to_string(lb) : string("(-inf")) + "," + (hu ? to_string(ub) + "]" : string("inf)"));
        if (!ok) { mc::fail("bounds", "constant bounds " + got + " of variable " + to_string(v) + " leave out points of " + n); return false; }
        // attained, unless only by a rational point
        if (s.size() == 1) {
          bool al = false, au = false, anyl = false, anyu = false;
          box(nv, -14, 14, [&](const Vec &x) {
            if (sat(s, x)) { al |= hl && x[v] == lb; au |= hu && x[v] == ub; anyl |= x[v] < -10; anyu |= x[v] > 10; }
            return true;
          });
          // every row has coefficients of at most one on the variables: the vertices of two-row cones are integral or half-integral
          bool unit = true;
          for (auto &r : s[0]) { int c = 0; for (int j = 0; j < nv; j++) c += r.a[j] != 0, unit &= std::labs(r.a[j]) <= 1; unit &= c <= 1; }
          if (unit && ((hl && !al) || (hu && !au) || (!hl && !anyl) || (!hu && !anyu))) { mc::fail("bounds", "constant bounds " + got + " of variable " + to_string(v) + " are not those of " + n); return false; }
        }
      }
    }
  }
  return true;
}
static bool binary(const List &s, const List &t, int nv, bool polylib) {
  mc::count(k_sets);
  string n = show(s) + " and " + show(t);
  auto both = [&](const Vec &x) { return sat(s, x) && sat(t, x); };
  auto either = [&](const Vec &x) { return sat(s, x) || sat(t, x); };
  auto minus = [&](const Vec &x) { return sat(s, x) && !sat(t, x); };
  typedef PlutoConstraints *(*Fn)(PlutoConstraints *, const PlutoConstraints *);
  auto inplace = [&](Fn f, const std::function<bool(const Vec &)> &w, const string &what) {
    for (int spare = 0; spare < 2; spare++) {
      Free a{mk(s, nv, spare)}, b{mk(t, nv)};
      PlutoConstraints *r = f(a.c, b.c);
      if (r != a.c) { mc::fail("value", what + " returns something else"); return false; }
      if (!same(a.c, nv, w, what + " of " + n) || !unchanged(b.c, t, what)) return false;
    }
    return true;
  };
  typedef PlutoConstraints *(*Fn2)(const PlutoConstraints *, const PlutoConstraints *);
  auto fresh = [&](Fn2 f, const std::function<bool(const Vec &)> &w, const string &what) {
    Free a{mk(s, nv)}, b{mk(t, nv)};
    Free r{f(a.c, b.c)};
    return same(r.c, nv, w, what + " of " + n) && unchanged(a.c, s, what) && unchanged(b.c, t, what);
  };
  if (s.size() == 1 && t.size() == 1 && !inplace(pluto_constraints_add, both, "conjunction")) return false;
  if (t.size() == 1 && !inplace(pluto_constraints_add_to_each, both, "addition")) return false;
  if (!inplace(pluto_constraints_unionize_simple, either, "simple union")) return false;
  if (!inplace(pluto_constraints_intersect_isl, both, "isl intersection")) return false;
  if (!fresh(pluto_constraints_union_isl, either, "isl union") || !inplace(pluto_constraints_unionize_isl, either, "in-place isl union")) return false;
  if (!fresh(pluto_constraints_intersection_isl, both, "isl intersection")) return false;
  { Free a{mk(s, nv)}, b{mk(t, nv)};
    pluto_constraints_copy(a.c, b.c);
    if (!same(a.c, nv, [&](const Vec &x) { return sat(t, x); }, "copy over the first of " + n)) return false; }
  if (polylib) {
    if (!fresh(pluto_constraints_union, either, "union") || !inplace(pluto_constraints_unionize, either, "in-place union")) return false;
    if (!fresh(pluto_constraints_intersection, both, "intersection") || !inplace(pluto_constraints_intersect, both, "in-place intersection")) return false;
    if (!fresh(pluto_constraints_difference, minus, "difference") || !inplace(pluto_constraints_subtract, minus, "in-place difference")) return false;
    Free a{mk(s, nv)}, b{mk(t, nv)};
    bool eq = pluto_constraints_are_equal(a.c, b.c);
    bool ref = box(nv, -10, 10, [&](const Vec &x) { return sat(s, x) == sat(t, x); });
    mc::count(k_ops);
    if (eq != ref) { mc::fail("value", "equality of " + n + " is reported as " + (eq ? "true" : "false")); return false; }
  }
  return true;
}
// Images under affine functions of bounded sets.
static bool images(const Rows &base, int nv) {
  Rows s = base;
  for (int v = 0; v < nv; v++) {
    Row lo{Vec(nv + 1, 0), false}, hi = lo;
    lo.a[v] = 1; lo.a[nv] = 2; hi.a[v] = -1; hi.a[nv] = 2;
    s.push_back(lo); s.push_back(hi);
  }
  mc::count(k_sets);
  vector<Vec> pts;
  box(nv, -2, 2, [&](const Vec &x) { if (sat(s, x)) pts.push_back(x); return true; });
  for (int rows = 1; rows <= nv; rows++)
    if (!product({-1, 0, 1, 2}, rows * nv, [&](const Vec &f) {
          for (auto x : f) if (rows == nv && x == 2) return true;
          PlutoMatrix *m = pluto_matrix_alloc(rows + 1, nv + 1, ctx());
          pluto_matrix_set(m, 0);
          Vec add(rows);
          for (int i = 0; i < rows; i++) { for (int j = 0; j < nv; j++) m->val[i][j] = f[i * nv + j]; m->val[i][nv] = add[i] = i + 1; }
          m->val[rows][nv] = 1;
          Free a{mk1(s, nv)};
          Free r{pluto_constraints_image(a.c, m)};
          pluto_matrix_free(m);
          mc::count(k_ops);
          string what = "image of " + show(s) + " under " + poly::show(f);
          if (!shaped(r.c, rows, what)) return false;
          List l = get(r.c);
          std::vector<Vec> im;
          for (auto &x : pts) {
            Vec y = add;
            for (int i = 0; i < rows; i++) for (int j = 0; j < nv; j++) y[i] += f[i * nv + j] * x[j];
            mc::count(k_pts);
            if (!sat(l, y)) { mc::fail("image", what + " = " + show(l) + " misses " + poly::show(y)); return false; }
            im.push_back(y);
          }
          // for an invertible function nothing else: det = +-1 in two dimensions
          if (rows == nv && nv == 2 && std::labs(f[0] * f[3] - f[1] * f[2]) == 1)
            return box(2, -4, 7, [&](const Vec &y) {
              bool g = sat(l, y), w = std::find(im.begin(), im.end(), y) != im.end();
              if (g != w) mc::fail("image", what + " = " + show(l) + " contains " + poly::show(y));
              return g == w;
            });
          return true;
        })) return false;
  return true;
}
static bool multi_projection(const Rows &base, int nv) {
  Rows s = base;
  for (int v = 0; v < nv; v++) {
    Row lo{Vec(nv + 1, 0), false}, hi = lo;
    lo.a[v] = 1; lo.a[nv] = 2; hi.a[v] = -1; hi.a[nv] = 2;
    s.push_back(lo); s.push_back(hi);
  }
  mc::count(k_sets);
  for (int st = 0; st < nv; st++)
    for (int num = 1; st + num <= nv; num++) {
      if (num == nv) continue;
      std::vector<Vec> im;
      box(nv, -2, 2, [&](const Vec &x) {
        if (!sat(s, x)) return true;
        Vec y = x;
        y.erase(y.begin() + st, y.begin() + st + num);
        im.push_back(y);
        return true;
      });
      for (int how = 0; how < 3; how++) {
        PlutoConstraints *a = mk1(s, nv);
        if (how == 0) pluto_constraints_project_out(a, st, num);
        else if (how == 1) pluto_constraints_project_out_isl_single(&a, st, num);
        else for (int k = 0; k < num; k++) fourier_motzkin_eliminate_smart(a, st);
        Free r{a};
        string what = "projection (" + to_string(how) + ") of " + show(s) + " along " + to_string(st) + "+" + to_string(num);
        mc::count(k_ops);
        if (!shaped(a, nv - num, what)) return false;
        List l = get(a);
        if (!box(nv - num, -4, 4, [&](const Vec &y) {
              mc::count(k_pts);
              bool w = std::find(im.begin(), im.end(), y) != im.end(), g = sat(l, y);
              if (w && !g) { mc::fail("shadow", what + " = " + show(l) + " misses " + poly::show(y)); return false; }
              bool unit = true; // totally unimodular: integer and rational shadow agree
              for (auto &q : base) { int c = 0; for (int j = 0; j < nv; j++) c += q.a[j] != 0; unit &= c <= 1; }
              if (unit && g && !w) { mc::fail("shadow", what + " = " + show(l) + " contains " + poly::show(y)); return false; }
              for (long q : y) if (g && std::labs(q) > 2) { mc::fail("shadow", what + " = " + show(l) + " contains " + poly::show(y)); return false; }
              return true;
            })) return false;
      }
    }
  return true;
}
// All sequences of in-place operations up to a depth, each step judged against
// the rows before it: what an object carries besides its rows (capacity, stale
// entries, row order) must never show.
struct Step {
  string name;
  std::function<bool(const List &, int nv)> ok;
  std::function<bool(PlutoConstraints *&, const List &, int &nv, const string &)> go; // applies and judges
};
static vector<Step> steps() {
  vector<Step> v;
  auto S = [&](const string &n, std::function<bool(const List &, int)> ok, std::function<bool(PlutoConstraints *&, const List &, int &, const string &)> go) { v.push_back({n, ok, go}); };
  auto any = [](const List &, int) { return true; };
  auto sized = [](int lo, int hi) { return [lo, hi](const List &, int nv) { return nv >= lo && nv <= hi; }; };
  S("simplify", any, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    pluto_constraints_simplify(c);
    return same(c, nv, [&](const Vec &x) { return sat(p, x); }, w); });
  S("lb", any, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    pluto_constraints_add_lb(c, nv - 1, -1);
    return same(c, nv, [&](const Vec &x) { return sat(p, x) && x[nv - 1] >= -1; }, w); });
  S("ub", any, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    pluto_constraints_add_ub(c, 0, 1);
    return same(c, nv, [&](const Vec &x) { return sat(p, x) && x[0] <= 1; }, w); });
  S("set", any, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    pluto_constraints_set_var(c, 0, 1);
    return same(c, nv, [&](const Vec &x) { return sat(p, x) && x[0] == 1; }, w); });
  for (int pos = 0; pos < 2; pos++)
    S("dim" + to_string(pos), sized(1, 2), [pos](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
      int at = pos ? nv : 0;
      pluto_constraints_add_dim(c, at, nullptr);
      nv++;
      return same(c, nv, [&](const Vec &x) { Vec y = x; y.erase(y.begin() + at); return sat(p, y); }, w); });
  S("drop", sized(2, 3), [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    pluto_constraints_remove_dim(c, 0);
    nv--;
    return same(c, nv, [&](const Vec &x) { Vec y = x; y.insert(y.begin(), 0); return sat(p, y); }, w); });
  S("fm", sized(2, 3), [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    fourier_motzkin_eliminate(c, nv - 1);
    nv--;
    return shadow(p, nv + 1, nv, c, false, w); });
  S("fms", [](const List &l, int nv) { return l.size() == 1 && nv >= 2; }, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    fourier_motzkin_eliminate_smart(c, 0);
    nv--;
    return shadow(p, nv + 1, 0, c, false, w); });
  S("swap", sized(2, 3), [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    pluto_constraints_interchange_cols(c, 0, 1);
    return same(c, nv, [&](const Vec &x) { Vec y = x; std::swap(y[0], y[1]); return sat(p, y); }, w); });
  S("row", [](const List &l, int) { return l.size() == 1 && !l[0].empty(); }, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    pluto_constraints_remove_row(c, 0);
    return same(c, nv, [&](const Vec &x) { return sat(Rows(p[0].begin() + 1, p[0].end()), x); }, w); });
  S("each", any, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    Rows r{{Vec(nv + 1, 1), false}, {Vec(nv + 1, -1), true}};
    r[1].a[nv] = 0;
    Free o{mk1(r, nv)};
    pluto_constraints_add_to_each(c, o.c);
    return same(c, nv, [&](const Vec &x) { return sat(p, x) && sat(r, x); }, w); });
  S("or", [](const List &l, int) { return l.size() <= 2; }, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    Rows r{{Vec(nv + 1, 0), true}};
    r[0].a[0] = 1;
    Free o{mk1(r, nv)};
    pluto_constraints_unionize_simple(c, o.c);
    return same(c, nv, [&](const Vec &x) { return sat(p, x) || sat(r, x); }, w); });
  S("copy", any, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    // onto an object that held something else
    Rows r{{Vec(5, 1), true}, {Vec(5, 2), true}};
    PlutoConstraints *o = mk({r, r}, 4, 3);
    pluto_constraints_copy(o, c);
    pluto_constraints_free(c);
    c = o;
    return same(c, nv, [&](const Vec &x) { return sat(p, x); }, w); });
  S("grow", any, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    unsigned m = 0;
    for (auto &l : p) m = std::max<unsigned>(m, l.size());
    pluto_constraints_resize(c, m + 1, nv + 1);
    return same(c, nv, [&](const Vec &x) { return sat(p, x); }, w); });
  S("negate", [](const List &l, int) { return l.size() == 1 && !l[0].empty() && !l[0].back().eq; }, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    pluto_constraints_negate_constraint(c, p[0].size() - 1);
    Rows rest(p[0].begin(), p[0].end() - 1);
    return same(c, nv, [&](const Vec &x) { return sat(rest, x) && !sat(Rows{p[0].back()}, x); }, w); });
  S("isl", [](const List &l, int) { return l.size() <= 2; }, [](PlutoConstraints *&c, const List &p, int &nv, const string &w) {
    Rows r{{Vec(nv + 1, 0), false}};
    r[0].a[0] = -1;
    r[0].a[nv] = 1;
    Free o{mk1(r, nv)};
    pluto_constraints_intersect_isl(c, o.c);
    return same(c, nv, [&](const Vec &x) { return sat(p, x) && sat(r, x); }, w); });
  return v;
}
static bool replay(const vector<Step> &ops, const List &start, int nv0, int spare, const vector<int> &seq) {
  PlutoConstraints *c = mk(start, nv0, spare);
  int nv = nv0;
  string path = "from " + show(start) + ":";
  bool ok = true;
  for (size_t i = 0; ok && i < seq.size(); i++) {
    List pre = get(c);
    path += " " + ops[seq[i]].name;
    ok = ops[seq[i]].go(c, pre, nv, path);
  }
  pluto_constraints_free(c);
  return ok;
}
static bool sequences(const List &start, int nv, int depth, int first) {
  static vector<Step> ops = steps();
  for (int spare = 0; spare < 3; spare += 2) {
    // depth-first over the operations applicable in turn; the last operation
    // of every sequence is the one judged anew, so every prefix is covered
    std::function<bool(vector<int> &, const List &, int)> rec = [&](vector<int> &seq, const List &cur, int cnv) -> bool {
      if ((int)seq.size() == depth) return true;
      for (size_t o = 0; o < ops.size(); o++) {
        if (seq.empty() && (int)o != first) continue;
        if (!ops[o].ok(cur, cnv)) continue;
        seq.push_back(o);
        mc::count(k_seq);
        // run the whole sequence on a fresh object and read back the end
        PlutoConstraints *c = mk(start, nv, spare);
        int v = nv;
        string path = "from " + show(start) + " (" + to_string(spare) + " spare rows):";
        bool ok = true;
        for (size_t i = 0; ok && i < seq.size(); i++) {
          path += " " + ops[seq[i]].name;
          List pre = get(c);
          ok = ops[seq[i]].go(c, pre, v, path);
        }
        List end = get(c);
        pluto_constraints_free(c);
        // sets that have grown beyond the useful are not continued
        size_t rows = 0;
        for (auto &e : end) rows += e.size();
        if (ok && rows <= 24) ok = rec(seq, end, v);
        seq.pop_back();
        if (!ok) return false;
      }
      return true;
    };
    vector<int> seq;
    if (!rec(seq, start, nv)) return false;
  }
  return true;
}
static vector<Row> rowset(int nv, const Vec &co, const Vec &k, bool eqs) {
  vector<Row> r;
  product(co, nv, [&](const Vec &a) {
    for (long c : k) {
      Row x{a, false};
      x.a.push_back(c);
      r.push_back(x);
      if (eqs) { x.eq = true; r.push_back(x); }
    }
    return true;
  });
  return r;
}
mc::Check make_c08(const string &tier) {
  bool T = tier == "thorough";
  auto g = std::make_shared<Groups>();
  const bool polylib = true;
  // single systems: one row with wide coefficients, two and three rows with small ones
  {
    auto r = rowset(2, {-3, -2, -1, 0, 1, 2, 3}, {-3, -2, -1, 0, 1, 2, 3}, true);
    for (size_t part = 0; part < 8; part++)
      g->add("one:" + to_string(part), [r, part] { for (size_t i = part; i < r.size(); i += 8) if (!unary({{r[i]}}, 2, polylib)) return; });
  }
  {
    auto r = rowset(2, T ? Vec{-2, -1, 0, 1, 2} : Vec{-1, 0, 1, 2}, T ? Vec{-2, -1, 0, 1, 2} : Vec{-1, 0, 2}, true);
    for (size_t i = 0; i < r.size(); i++)
      g->add("two:" + to_string(i), [r, i] { for (size_t j = i; j < r.size(); j++) if (!unary({{r[i], r[j]}}, 2, polylib)) return; });
  }
  {
    auto r = rowset(2, T ? Vec{-1, 0, 1, 2} : Vec{-2, 0, 1}, T ? Vec{-1, 0, 1} : Vec{-1, 1}, true);
    for (size_t i = 0; i < r.size(); i++)
      g->add("three:" + to_string(i), [r, i] { for (size_t j = i; j < r.size(); j++) for (size_t k = j; k < r.size(); k++) if (!unary({{r[i], r[j], r[k]}}, 2, polylib)) return; });
  }
  // unions of two systems
  {
    auto r = rowset(2, {-1, 0, 2}, T ? Vec{-1, 0, 1} : Vec{-1, 1}, true);
    for (size_t i = 0; i < r.size(); i++)
      g->add("union:" + to_string(i), [r, i] {
        for (size_t j = 0; j < r.size(); j++) {
          if (!unary({{r[i]}, {r[j]}}, 2, polylib)) return;
          if (!unary({{r[i]}, {r[j], r[i], r[(i * 7 + j) % r.size()]}}, 2, polylib)) return;
        } });
  }
  // three variables
  {
    auto r = rowset(3, {-1, 0, 1}, T ? Vec{-1, 0, 1} : Vec{-1, 1}, true);
    for (size_t i = 0; i < r.size(); i += T ? 1 : 3)
      g->add("space:" + to_string(i), [r, i] { for (size_t j = i; j < r.size(); j += 4) if (!unary({{r[i], r[j]}}, 3, polylib)) return; });
    for (size_t i = 0; i < r.size(); i++)
      g->add("project:" + to_string(i), [r, i] { for (size_t j = i; j < r.size(); j++) if (!multi_projection({r[i], r[j]}, 3)) return; });
  }
  // coefficients that are not coprime; rows far larger than others; four variables
  {
    auto r = rowset(2, {-6, -4, 0, 3}, {-5, 1}, true);
    for (size_t i = 0; i < r.size(); i++)
      g->add("wide:" + to_string(i), [r, i] { for (size_t j = i; j < r.size(); j++) if (!unary({{r[i], r[j]}}, 2, polylib)) return; });
    auto q = rowset(2, {-1, 0, 1}, {-1, 0, 2}, true);
    for (size_t i = 0; i < q.size(); i++)
      g->add("scaled:" + to_string(i), [q, i] {
        for (size_t j = 0; j < q.size(); j++)
          for (long f : {1L << 31, 3L << 30, -(1L << 31)})
            for (int k = 1; k < 4; k++) {
              if (f < 0 && (!q[i].eq || !q[j].eq)) continue;
              if (k != 3 && q[i].eq && q[j].eq) continue; // products beyond 64 bits
              Row a = q[i], b = q[j];
              for (auto &x : a.a) if (k & 1) x *= f;
              for (auto &x : b.a) if (k & 2) x *= f;
              if (!unary({{a, b}}, 2, polylib)) return;
            } });
    auto v = rowset(4, {-1, 0, 1}, {1}, true);
    for (size_t i = 0; i < v.size(); i += T ? 1 : 2)
      g->add("four:" + to_string(i), [v, i] { for (size_t j = i % 7; j < v.size(); j += 7) if (!unary({{v[i], v[j]}}, 4, polylib)) return; });
    g->add("far", [] {
      const Vec far = {-(5L << 40), -(1L << 32) - 1, -(1L << 31) - 1, -1, 0, 1L << 31, (1L << 32) + 3, 5L << 40};
      for (int nv = 1; nv <= 3; nv++) // bounds only without a projection, which is polylib.s
        for (int v = 0; v < nv; v++)
          for (long lo : far)
            for (long hi : far) {
              PlutoConstraints *c = mk({{}}, nv), *e = mk({{}}, nv);
              pluto_constraints_add_lb(c, v, lo);
              pluto_constraints_add_ub(c, v, hi);
              pluto_constraints_set_var(e, v, lo);
              pluto_constraints_add_ub(e, v, hi);
              Vec a(nv + 1, 0), b(nv + 1, 0);
              a[v] = 1, a[nv] = -lo, b[v] = -1, b[nv] = hi;
              mc::count(k_ops, 8);
              string n = "[" + to_string(lo) + "," + to_string(hi) + "] of variable " + to_string(v);
              if (show(get(c)) != show(List{{{a, false}, {b, false}}}) || show(get(e)) != show(List{{{a, true}, {b, false}}})) { mc::fail("value", "adding the bounds " + n); return; }
              if ((pluto_constraints_is_empty(c) != 0) != (lo > hi) || (pluto_constraints_is_empty(e) != 0) != (lo > hi)) { mc::fail("empty", "emptiness of " + n); return; }
              int64_t l = 0, u = 0, el = 0, eu = 0;
              if (nv == 1 && lo <= hi && (!pluto_constraints_get_const_lb(c, v, &l) || !pluto_constraints_get_const_ub(c, v, &u) || l != lo || u != hi)) { mc::fail("bounds", "constant bounds [" + to_string(l) + "," + to_string(u) + "] for " + n); return; }
              if (nv == 1 && lo <= hi && (!pluto_constraints_get_const_lb(e, v, &el) || !pluto_constraints_get_const_ub(e, v, &eu) || el != lo || eu != lo)) { mc::fail("bounds", "constant bounds [" + to_string(el) + "," + to_string(eu) + "] with the lower bound made equal, for " + n); return; }
              pluto_constraints_free(c);
              pluto_constraints_free(e);
            }
    });
  }
  // images
  {
    auto r = rowset(2, {-1, 0, 1}, {0, 1}, true);
    for (size_t i = 0; i < r.size(); i++)
      g->add("image:" + to_string(i), [r, i, T] { for (size_t j = i; j < r.size(); j += T ? 1 : 5) if (!images({r[i], r[j]}, 2)) return; });
  }
  // pairs of sets
  {
    auto r = rowset(2, {-1, 0, 1, 2}, {-1, 1}, true);
    auto u = std::make_shared<vector<List>>();
    for (auto &x : r) u->push_back({{x}});
    for (size_t i = 0; i < r.size(); i += 1) u->push_back({{r[i], r[(i * 5 + 3) % r.size()]}});
    for (size_t i = 0; i < r.size(); i += 2) u->push_back({{r[i], r[(i * 3 + 1) % r.size()], r[(i * 11 + 7) % r.size()]}});
    for (size_t i = 0; i < r.size(); i += 2) u->push_back({{r[i], r[(i * 3 + 1) % r.size()]}, {r[(i * 11 + 7) % r.size()]}});
    u->push_back({{}});
    u->push_back({{{{0, 0, -1}, false}}});
    for (size_t i = 0; i < u->size(); i++)
      g->add("pair:" + to_string(i), [u, i, T] { for (size_t j = 0; j < u->size(); j += T ? 1 : 2) if (!binary((*u)[i], (*u)[(j + i) % u->size()], 2, polylib)) return; });
  }
  // sequences of operations
  {
    auto st = std::make_shared<vector<List>>();
    st->push_back({{}});
    st->push_back({{{{1, 0, 0}, false}}});
    st->push_back({{{{1, -1, 0}, true}, {{0, 1, 1}, false}}});
    st->push_back({{{{2, 1, -1}, false}, {{-1, -1, 2}, false}, {{0, -1, 1}, true}}});
    st->push_back({{{{1, 0, 1}, false}}, {{{0, 1, 0}, true}, {{-1, 1, 1}, false}, {{-1, -2, 2}, false}}});
    int nops = steps().size();
    for (size_t s = 0; s < st->size(); s++)
      for (int o = 0; o < nops; o++)
        g->add("history:" + to_string(s) + ":" + to_string(o), [st, s, o, T] { sequences((*st)[s], 2, T ? 5 : 4, o); });
  }
  return make_groups(g, string("all sets of up to three rows over two variables with coefficients and constants in the listed small ranges (one row: up to 3 in absolute value), ") +
                     "pairs of rows over three variables, unions of two; every operation on every such set at every variable position and with and without spare capacity, judged at all points of [-4,4]^2 or [-3,3]^3; pairs of " +
                     "sets for the binary operations; all sequences of in-place operations up to length " + (T ? "5" : "4") + " from five starting sets");
}
