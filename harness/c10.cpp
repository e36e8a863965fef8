// C10: exact integer linear algebra.
#include "unit.h"
#include <algorithm>
#include <cstring>
using poly::Vec;
using std::string;
using std::vector;
#include <gmp.h>
extern "C" {
#include "constraints.h"
#include "math_support.h"
#include "pluto.h"
#include "pluto/matrix.h"
#include "pluto/pluto.h"
#include "program.h"
// Not in a header.
PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *) __attribute__((weak));
}
static int k_mats = mc::counter_decl("matrices"), k_ops = mc::counter_decl("operations"), k_runs = mc::counter_decl("library_calls_compared");
static PlutoContext *ctx() {
  static PlutoContext *c = nullptr;
  if (!c) { c = pluto_context_alloc(); c->options->silent = 1; }
  return c;
}
static PlutoMatrix *mk(const Mat &m, int nc) {
  PlutoMatrix *p = pluto_matrix_alloc(m.size(), nc, ctx());
  for (size_t i = 0; i < m.size(); i++) for (int j = 0; j < nc; j++) p->val[i][j] = m[i][j];
  return p;
}
static Mat get(const PlutoMatrix *p) {
  Mat m(p->nrows, Vec(p->ncols));
  for (unsigned i = 0; i < p->nrows; i++) for (unsigned j = 0; j < p->ncols; j++) m[i][j] = p->val[i][j];
  return m;
}
static bool expect(const PlutoMatrix *p, const Mat &want, int nc, const string &what) {
  mc::count(k_runs);
  if ((int)p->ncols != nc || p->nrows != want.size()) { mc::fail("shape", what + ": wrong shape"); return false; }
  if (get(p) != want) { mc::fail("value", what + ": got " + show(get(p)) + " instead of " + show(want)); return false; }
  return true;
}
static Mat shape(const Vec &v, int r, int c) {
  Mat m(r, Vec(c));
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = v[i * c + j];
  return m;
}
static bool rank_one(const Mat &m, int c) {
  mc::count(k_mats);
  PlutoMatrix *p = mk(m, c);
  int want = true_rank(m);
  mc::count(k_runs);
  int got = pluto_matrix_get_rank(p);
  bool ok = true;
  if (got != want) { mc::fail("rank", "rank of " + show(m) + " reported as " + std::to_string(got) + ", is " + std::to_string(want)); ok = false; }
  if (ok && get(p) != m) { mc::fail("rank", "computing the rank changes the matrix"); ok = false; }
  if (ok && pluto_matrix_to_row_echelon) {
    mc::count(k_runs);
    PlutoMatrix *e = pluto_matrix_to_row_echelon(p);
    Mat em = get(e), both = m;
    both.insert(both.end(), em.begin(), em.end());
    int lead = -1;
    bool form = e->nrows == m.size() && (int)e->ncols == c;
    for (auto &row : em) {
      int l = 0;
      while (l < c && row[l] == 0) l++;
      if (l <= lead && lead < c) form = false;
      if (lead == c && l != c) form = false;
      lead = l;
    }
    if (!form || true_rank(both) != want || true_rank(em) != want) { mc::fail("echelon", "echelon form of " + show(m) + " is " + show(em)); ok = false; }
    p = e;
  }
  pluto_matrix_free(p);
  return ok;
}
static void ranks(std::shared_ptr<Groups> g, int r, int c, long lim, int fixed) {
  Vec vals;
  for (long v = -lim; v <= lim; v++) vals.push_back(v);
  product(vals, fixed, [&](const Vec &pre) {
    string id = "rank:" + std::to_string(r) + "x" + std::to_string(c) + ":" + std::to_string(lim);
    for (long v : pre) id += ":" + std::to_string(v);
    g->add(id, [=]() {
      product(vals, r * c - fixed, [&](const Vec &v) {
        Vec w = pre;
        w.insert(w.end(), v.begin(), v.end());
        return rank_one(shape(w, r, c), c);
      });
    });
    return true;
  });
}
// Structural operations on matrices with distinct (also large) entries, at every position and allocation slack.
static void structural(int r, int c, int slack, long base) {
  Mat m(r, Vec(c));
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = base * (i * c + j + 1) * ((i + j) % 2 ? -1 : 1) + j;
  auto fresh = [&]() {
    PlutoMatrix *p = pluto_matrix_alloc(r + slack, c + slack, ctx());
    for (unsigned i = 0; i < p->nrows; i++) for (unsigned j = 0; j < p->ncols; j++) p->val[i][j] = 77;
    p->nrows = r;
    p->ncols = c;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) p->val[i][j] = m[i][j];
    mc::count(k_ops);
    return p;
  };
  auto at = [&](const char *op, int a, int b = -1) { return string(op) + "(" + std::to_string(a) + (b >= 0 ? "," + std::to_string(b) : "") + ") on " + show(m); };
  for (int pos = 0; pos <= r; pos++) {
    PlutoMatrix *p = fresh();
    pluto_matrix_add_row(p, pos);
    Mat w = m;
    w.insert(w.begin() + pos, Vec(c, 0));
    if (!expect(p, w, c, at("add_row", pos))) return;
    pluto_matrix_remove_row(p, pos);
    if (!expect(p, m, c, at("remove added row", pos))) return;
    pluto_matrix_free(p);
  }
  for (int pos = 0; pos <= c; pos++) {
    PlutoMatrix *p = fresh();
    pluto_matrix_add_col(p, pos);
    Mat w = m;
    for (auto &row : w) row.insert(row.begin() + pos, 0);
    if (!expect(p, w, c + 1, at("add_col", pos))) return;
    pluto_matrix_remove_col(p, pos);
    if (!expect(p, m, c, at("remove added column", pos))) return;
    pluto_matrix_free(p);
  }
  for (int pos = 0; pos < r; pos++) {
    PlutoMatrix *p = fresh();
    pluto_matrix_remove_row(p, pos);
    Mat w = m;
    w.erase(w.begin() + pos);
    if (!expect(p, w, c, at("remove_row", pos))) return;
    pluto_matrix_free(p);
    p = fresh();
    pluto_matrix_negate_row(p, pos);
    w = m;
    for (long &v : w[pos]) v = -v;
    if (!expect(p, w, c, at("negate_row", pos))) return;
    pluto_matrix_zero_row(p, pos);
    w[pos] = Vec(c, 0);
    if (!expect(p, w, c, at("zero_row", pos))) return;
    pluto_matrix_free(p);
    for (int q = 0; q < r; q++) {
      p = fresh();
      pluto_matrix_interchange_rows(p, pos, q);
      w = m;
      std::swap(w[pos], w[q]);
      if (!expect(p, w, c, at("interchange_rows", pos, q))) return;
      pluto_matrix_free(p);
    }
  }
  for (int pos = 0; pos < c; pos++) {
    PlutoMatrix *p = fresh();
    pluto_matrix_remove_col(p, pos);
    Mat w = m;
    for (auto &row : w) row.erase(row.begin() + pos);
    if (!expect(p, w, c - 1, at("remove_col", pos))) return;
    pluto_matrix_free(p);
    p = fresh();
    pluto_matrix_zero_col(p, pos);
    w = m;
    for (auto &row : w) row[pos] = 0;
    if (!expect(p, w, c, at("zero_col", pos))) return;
    pluto_matrix_free(p);
    for (int q = 0; q < c; q++) {
      p = fresh();
      pluto_matrix_interchange_cols(p, pos, q);
      w = m;
      for (auto &row : w) std::swap(row[pos], row[q]);
      if (!expect(p, w, c, at("interchange_cols", pos, q))) return;
      pluto_matrix_free(p);
      p = fresh();
      pluto_matrix_move_col(p, pos, q);
      w = m;
      for (auto &row : w) { long v = row[pos]; row.erase(row.begin() + pos); row.insert(row.begin() + q, v); }
      if (!expect(p, w, c, at("move_col", pos, q))) return;
      pluto_matrix_free(p);
    }
  }
  PlutoMatrix *p = fresh(), *d = pluto_matrix_dup(p);
  if (!expect(d, m, c, at("dup", 0))) return;
  if (!are_pluto_matrices_equal(p, d)) { mc::fail("value", "a duplicate is not equal"); return; }
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) {
      d->val[i][j] += 1L << 32;
      if (are_pluto_matrices_equal(p, d)) { mc::fail("value", "different matrices are reported equal"); return; }
      d->val[i][j] -= 1L << 32;
    }
  for (int k = 0; k < 4; k++) { // another shape, the common part the same
    if ((k == 1 && r < 2) || (k == 3 && c < 2)) continue;
    PlutoMatrix *e = pluto_matrix_dup(p);
    if (k == 0) pluto_matrix_add_row(e, r);
    if (k == 1) pluto_matrix_remove_row(e, r - 1);
    if (k == 2) pluto_matrix_add_col(e, c);
    if (k == 3) pluto_matrix_remove_col(e, c - 1);
    if (are_pluto_matrices_equal(p, e) || are_pluto_matrices_equal(e, p)) { mc::fail("value", "matrices of different shapes are reported equal"); return; }
    pluto_matrix_free(e);
  }
  pluto_matrix_negate(d);
  Mat w = m;
  for (auto &row : w) for (long &v : row) v = -v;
  if (!expect(d, w, c, at("negate", 0))) return;
  pluto_matrix_reverse_rows(d);
  std::reverse(w.begin(), w.end());
  if (!expect(d, w, c, at("reverse_rows", 0))) return;
  Mat sum = m;
  sum.insert(sum.end(), w.begin(), w.end());
  pluto_matrix_add(p, d);
  if (!expect(p, sum, c, at("add", 0))) return;
  pluto_matrix_set(p, 5);
  if (!expect(p, Mat(sum.size(), Vec(c, 5)), c, at("set", 5))) return;
  pluto_matrix_free(p);
  pluto_matrix_free(d);
}
static void products(int a, int b, int c, const Vec &vals) {
  product(vals, a * b + b * c, [&](const Vec &v) {
    Mat x = shape(Vec(v.begin(), v.begin() + a * b), a, b), y = shape(Vec(v.begin() + a * b, v.end()), b, c), w(a, Vec(c, 0));
    for (int i = 0; i < a; i++) for (int j = 0; j < c; j++) for (int k = 0; k < b; k++) w[i][j] += x[i][k] * y[k][j];
    mc::count(k_mats);
    PlutoMatrix *p = mk(x, b), *q = mk(y, c), *z = pluto_matrix_product(p, q);
    bool ok = expect(z, w, c, "product of " + show(x) + " and " + show(y));
    pluto_matrix_free(p);
    pluto_matrix_free(q);
    pluto_matrix_free(z);
    return ok;
  });
}
static void eliminate(int r, int c, const Vec &vals) {
  product(vals, r * c, [&](const Vec &v) {
    Mat m = shape(v, r, c);
    mc::count(k_mats);
    for (int s = 0; s < c; s++)
      for (int n = 0; s + n <= c && n < c; n++) {
        PlutoMatrix *p = mk(m, c);
        mc::count(k_runs);
        gaussian_eliminate(p, s, n);
        Mat e = get(p);
        for (auto &row : e) row.insert(row.begin() + s, n, 0);
        Mat sub, both = m;
        for (auto &row : m) sub.push_back(Vec(row.begin() + s, row.begin() + s + n));
        both.insert(both.end(), e.begin(), e.end());
        bool ok = (int)p->ncols == c - n && true_rank(both) == true_rank(m) && true_rank(e) == true_rank(m) - (n ? true_rank(sub) : 0);
        if (!ok) mc::fail("eliminate", "eliminating " + std::to_string(n) + " columns from " + std::to_string(s) + " of " + show(m) + " gives " + show(get(p)));
        pluto_matrix_free(p);
        if (!ok) return false;
      }
    return true;
  });
}
static void vectors(int n, const Vec &vals) {
  product(vals, 2 * n, [&](const Vec &v) {
    Mat a = {Vec(v.begin(), v.begin() + n)}, b = {Vec(v.begin() + n, v.end())};
    PlutoMatrix *p = mk(a, n), *q = mk(b, n);
    mc::count(k_mats);
    mc::count(k_runs, 2);
    __int128 dot = 0;
    for (int j = 0; j < n; j++) dot += (__int128)a[0][j] * b[0][j];
    bool za = true, zb = true;
    for (int j = 0; j < n; j++) { za &= a[0][j] == 0; zb &= b[0][j] == 0; }
    bool par = za == zb && (za || true_rank({a[0], b[0]}) == 1);
    bool ok = true;
    if ((pluto_vector_is_normal(p, 0, q, 0) != 0) != (dot == 0)) { mc::fail("normal", "is_normal wrong for " + show(a) + " and " + show(b)); ok = false; }
    if ((pluto_vector_is_parallel(p, 0, q, 0) != 0) != par) { mc::fail("parallel", "is_parallel wrong for " + show(a) + " and " + show(b)); ok = false; }
    pluto_matrix_free(p);
    pluto_matrix_free(q);
    return ok;
  });
}
static void numbers() {
  auto one = [](long a, long b) {
    long x = std::labs(a), y = std::labs(b);
    while (y) { long t = x % y; x = y; y = t; }
    mc::count(k_runs, 2);
    if (gcd(a, b) != x) { mc::fail("gcd", "gcd(" + std::to_string(a) + "," + std::to_string(b) + ") is " + std::to_string(gcd(a, b))); return false; }
    if (a && b && std::labs(lcm(a, b)) != std::labs(a) / x * std::labs(b)) { mc::fail("lcm", "lcm(" + std::to_string(a) + "," + std::to_string(b) + ") is " + std::to_string(lcm(a, b))); return false; }
    return true;
  };
  for (long a = -60; a <= 60; a++) for (long b = -60; b <= 60; b++) if (!one(a, b)) return;
  for (long a : {1L << 20, 3L << 29, (1L << 31) + 2, -(1L << 30)}) for (long b = -40; b <= 40; b++) if (!one(a, b) || !one(b, a)) return;
  for (long a : {1L << 31, 1L << 32, 3L << 31, 1L << 33, 1L << 40, (1L << 32) + 1, 5L << 34}) for (long b : {1L << 31, 1L << 32, 3L << 32, 1L << 36, -(1L << 32), (1L << 40), 1L << 62}) {
    long x = std::labs(a), y = std::labs(b);
    while (y) { long t = x % y; x = y; y = t; }
    mc::count(k_runs);
    if (gcd(a, b) != x) { mc::fail("gcd", "gcd(" + std::to_string(a) + "," + std::to_string(b) + ") is " + std::to_string(gcd(a, b))); return; }
    if ((__int128)std::labs(a) / x * std::labs(b) < (1L << 62) && std::labs(lcm(a, b)) != std::labs(a) / x * std::labs(b)) { mc::fail("lcm", "lcm(" + std::to_string(a) + "," + std::to_string(b) + ") is " + std::to_string(lcm(a, b))); return; }
  }
  Vec vals = {-1, 0, 1L << 33, -(1L << 33)};
  product(vals, 6, [&](const Vec &v) {
    int64_t a[3], b[3];
    for (int j = 0; j < 3; j++) { a[j] = v[j]; b[j] = v[3 + j]; }
    int64_t *r = min_lexical(a, b, 3);
    mc::count(k_runs);
    Vec x(a, a + 3), y(b, b + 3), z(r, r + 3);
    if (z != std::min(x, y)) { mc::fail("minlex", "smaller of " + poly::show(x) + " and " + poly::show(y) + " given as " + poly::show(z)); return false; }
    return true;
  });
}
// Statement with the given transformation rows over d iterators, one parameter and a constant.
static Stmt *stmt_of(const Mat &rows, int d) {
  PlutoMatrix *t = mk(rows, d + 2);
  PlutoConstraints *dom = pluto_constraints_alloc(1, d + 2, ctx());
  dom->nrows = 0;
  dom->ncols = d + 2;
  Stmt *s = pluto_stmt_alloc(d, dom, t);
  for (int i = 0; i < d; i++) { s->is_orig_loop[i] = true; s->iterators[i] = strdup("i"); }
  s->intra_stmt_dep_cst = NULL;
  pluto_matrix_free(t);
  pluto_constraints_free(dom);
  return s;
}
static void remaps(int r, int d, const Vec &vals) {
  product(vals, r * (d + 1), [&](const Vec &v) {
    Mat rows(r, Vec(d + 2, 0)), lin(r, Vec(d));
    for (int i = 0; i < r; i++) {
      for (int j = 0; j < d; j++) rows[i][j] = lin[i][j] = v[i * (d + 1) + j];
      rows[i][d] = (i * 7 + 3) % 5 - 2; // a parameter shift
      rows[i][d + 1] = v[i * (d + 1) + d];
    }
    mc::count(k_mats);
    Stmt *s = stmt_of(rows, d);
    int rk = true_rank(lin);
    mc::count(k_runs);
    bool ok = true;
    if ((int)pluto_stmt_get_num_ind_hyps(s) != rk) { mc::fail("independent", "number of independent hyperplanes of " + show(lin) + " reported as " + std::to_string(pluto_stmt_get_num_ind_hyps(s))); ok = false; }
    if (ok && rk == d) {
      int *div = nullptr;
      PlutoMatrix *m = pluto_stmt_get_remapping(s, &div);
      mc::count(k_runs);
      ok = (int)m->nrows == d + 2 && (int)m->ncols == r + 2;
      // remap * trans must be diag(div) on the iterators, with all else zero
      for (int i = 0; i < d + 2 && ok; i++)
        for (int j = 0; j < d + 2 && ok; j++) {
          long q = 0;
          for (int k = 0; k < r; k++) q += m->val[i][k] * rows[k][j];
          if (j >= d) q += m->val[i][r + j - d];
          ok = div[i] > 0 && q == (i == j ? div[i] : 0);
        }
      if (!ok) mc::fail("inverse", "inverse of " + show(rows) + " is " + show(get(m)));
      pluto_matrix_free(m);
      free(div);
    }
    pluto_stmt_free(s);
    return ok;
  });
}
// Independence constraints: what they admit is independent of the rows found so far, and with a one-dimensional
// complement they are satisfiable whenever a non-negative bounded independent row exists.
static void lin_ind(int d, int r, const Vec &vals, bool flic) {
  PlutoContext *pc = ctx();
  pc->options->flic = flic;
  product(vals, r * d, [&](const Vec &v) {
    Mat lin = shape(v, r, d), rows = lin;
    for (auto &row : rows) { row.push_back(0); row.push_back(0); }
    Mat loops;
    mc::count(k_mats);
    PlutoProg *prog = pluto_prog_alloc(pc);
    Stmt *s = stmt_of(rows, d);
    s->id = 0;
    prog->stmts = (Stmt **)malloc(sizeof(Stmt *));
    prog->stmts[0] = s;
    prog->nstmts = 1;
    prog->nvar = d;
    prog->npar = 1;
    prog->params = (char **)malloc(sizeof(char *));
    prog->params[0] = strdup("N");
    prog->num_hyperplanes = r;
    prog->hProps = (HyperplaneProperties *)malloc((r + 1) * sizeof(HyperplaneProperties));
    for (int i = 0; i < r; i++) {
      bool z = true;
      for (int j = 0; j < d; j++) z &= lin[i][j] == 0;
      prog->hProps[i].type = z ? H_SCALAR : H_LOOP;
      s->hyp_types[i] = prog->hProps[i].type;
    }
    int w = 1 + 1 + (d + 1) + 1;
    PlutoConstraints *cur = pluto_constraints_alloc(2 * d, w, pc);
    cur->nrows = 0;
    cur->ncols = w;
    for (int j = 0; j < d; j++) { pluto_constraints_add_lb(cur, 2 + j, 0); pluto_constraints_add_ub(cur, 2 + j, 3); }
    int n = -1;
    mc::count(k_runs);
    PlutoConstraints **o = get_stmt_lin_ind_constraints(s, prog, cur, &n);
    int rk = true_rank(lin);
    bool ok = true, some = false, possible = false;
    string why;
    if (rk == d) {
      if (n != 0) { ok = false; why = "constraints for a full-rank transformation"; }
    } else if (n <= 0) { ok = false; why = "no constraints"; }
    else {
      Vec box = {-1, 0, 1, 2, 3};
      product(box, d, [&](const Vec &h) {
        Mat ext = lin;
        ext.push_back(h);
        bool ind = true_rank(ext) > rk, nonneg = true;
        for (long x : h) nonneg &= x >= 0;
        if (!nonneg) return true;
        possible |= ind;
        bool sat = true;
        for (int k = 0; k < n; k++)
          for (unsigned q = 0; q < o[k]->nrows; q++) {
            long x = o[k]->val[q][w - 1];
            for (int j = 0; j < d; j++) x += o[k]->val[q][2 + j] * h[j];
            sat &= o[k]->is_eq[q] ? x == 0 : x >= 0;
          }
        some |= sat;
        mc::count(k_ops);
        if (sat && !ind) { ok = false; why = poly::show(h) + " is admitted but not independent"; return false; }
        return true;
      });
      if (ok && !flic && d - rk == 1 && possible && !some) { ok = false; why = "no independent row is admitted though one exists"; }
    }
    if (!ok) mc::fail("linind", "independence constraints for " + show(lin) + ": " + why);
    for (int k = 0; k < n; k++) pluto_constraints_free(o[k]);
    free(o);
    pluto_constraints_free(cur);
    pluto_prog_free(prog);
    return ok;
  });
  pc->options->flic = 0;
}
// Every history of structural edits of one matrix, with a plain matrix edited along.
static const char *HOPS[] = {"add_row first", "add_row last", "add_col first", "add_col last", "remove_row first", "remove_row last", "remove_col first", "remove_col last",
                             "move_col first to last", "move_col last to first", "interchange_rows", "add itself", "dup", "negate last row", "reverse_rows"};
static const int NHOPS = sizeof(HOPS) / sizeof(*HOPS);
static bool hist_apply(int op, PlutoMatrix *&p, Mat &m, int &nc) {
  int r = m.size();
  switch (op) {
  case 0: case 1: { int q = op ? r : 0; pluto_matrix_add_row(p, q); m.insert(m.begin() + q, Vec(nc, 0)); return true; }
  case 2: case 3: { int q = op == 3 ? nc : 0; pluto_matrix_add_col(p, q); for (auto &x : m) x.insert(x.begin() + q, 0); nc++; return true; }
  case 4: case 5: { if (r < 1 || (op == 5 && r < 2)) return false; int q = op == 5 ? r - 1 : 0; pluto_matrix_remove_row(p, q); m.erase(m.begin() + q); return true; }
  case 6: case 7: { if (nc < 2) return false; int q = op == 7 ? nc - 1 : 0; pluto_matrix_remove_col(p, q); for (auto &x : m) x.erase(x.begin() + q); nc--; return true; }
  case 8: if (nc < 2 || !r) return false; pluto_matrix_move_col(p, 0, nc - 1); for (auto &x : m) std::rotate(x.begin(), x.begin() + 1, x.end()); return true;
  case 9: if (nc < 2 || !r) return false; pluto_matrix_move_col(p, nc - 1, 0); for (auto &x : m) std::rotate(x.begin(), x.end() - 1, x.end()); return true;
  case 10: if (r < 2) return false; pluto_matrix_interchange_rows(p, 0, r - 1); std::swap(m[0], m[r - 1]); return true;
  case 11: { if (!r || r > 3) return false; PlutoMatrix *q = pluto_matrix_dup(p); pluto_matrix_add(p, q); pluto_matrix_free(q); Mat c = m; m.insert(m.end(), c.begin(), c.end()); return true; }
  case 12: { PlutoMatrix *q = pluto_matrix_dup(p); pluto_matrix_free(p); p = q; return true; }
  case 13: if (!r) return false; pluto_matrix_negate_row(p, r - 1); for (auto &x : m[r - 1]) x = -x; return true;
  default: if (r < 2) return false; pluto_matrix_reverse_rows(p); std::reverse(m.begin(), m.end()); return true;
  }
}
static void histories(int r, int c, int first, int depth) {
  std::function<bool(vector<int> &)> rec = [&](vector<int> &h) {
    long v = 1;
    Mat m(r, Vec(c));
    for (auto &x : m) for (auto &e : x) e = v++ * 7;
    PlutoMatrix *p = mk(m, c);
    int nc = c;
    bool can = true, ok = true;
    for (int op : h) {
      if (!hist_apply(op, p, m, nc)) { can = false; break; }
      // Fill what was added, so that every cell is distinguishable and written.
      for (unsigned i = 0; i < m.size(); i++) for (int j = 0; j < nc; j++) if (m[i][j] == 0) { if (p->val[i][j] != 0) ok = false; p->val[i][j] = m[i][j] = v++ * 11; }
    }
    if (can) {
      string what = "history";
      for (int op : h) what += string(", ") + HOPS[op];
      what += " from " + std::to_string(r) + "x" + std::to_string(c);
      mc::count(k_ops);
      if (!ok) mc::fail("value", what + ": an added cell is not zero");
      else ok = expect(p, m, nc, what);
    }
    pluto_matrix_free(p);
    if (!ok) return false;
    if (!can || (int)h.size() == depth) return true;
    for (int op = 0; op < NHOPS; op++) {
      h.push_back(op);
      if (!rec(h)) return false;
      h.pop_back();
    }
    return true;
  };
  vector<int> h = {first};
  rec(h);
}
mc::Check make_c10(const string &tier) {
  auto g = std::make_shared<Groups>();
  bool deep = tier == "thorough";
  for (int r = 1; r <= 2; r++) for (int c = 1; c <= 4; c++) if (r * c <= 8) ranks(g, r, c, r * c <= 4 ? 5 : 2, r * c > 4 ? 2 : 0);
  ranks(g, 3, 1, 4, 0);
  ranks(g, 4, 1, 4, 0);
  ranks(g, 3, 2, 2, 1);
  ranks(g, 4, 2, 2, 2);
  ranks(g, 3, 3, 2, 2);
  ranks(g, 3, 4, 1, 2);
  ranks(g, 4, 3, 1, 2);
  ranks(g, 2, 5, 1, 1);
  ranks(g, 5, 2, 1, 1);
  ranks(g, 1, 6, 1, 0);
  if (deep) { ranks(g, 4, 4, 1, 4); ranks(g, 3, 5, 1, 3); ranks(g, 5, 3, 1, 3); ranks(g, 2, 4, 4, 2); ranks(g, 3, 3, 3, 3); }
  g->add("rank:large", []() {
    for (long big : {1L << 31, 1L << 32, 3L << 31, -(1L << 33), (1L << 32) + 1})
      for (int s = 0; s < 2; s++)
        for (int pos = 0; pos < (s ? 6 : 4); pos++)
          if (!product({-1, 0, 1}, 6, [&](const Vec &v) {
                Vec w = v;
                w[pos] = big;
                return s ? rank_one(shape(w, 2, 3), 3) : rank_one(shape(Vec(w.begin(), w.begin() + 4), 2, 2), 2);
              }))
            return;
  });
  for (int r = 1; r <= 4; r++) for (int c = 1; c <= 4; c++)
    g->add("rows:" + std::to_string(r) + "x" + std::to_string(c), [=]() { for (int s = 0; s <= 2; s++) for (long b : {1L, 3L << 33}) if (!mc::failed()) structural(r, c, s, b); });
  Vec v5 = {-2, -1, 0, 1, 2}, v3 = {-1, 0, 1}, v2 = {0, 1};
  for (auto rc : vector<std::pair<int, int>>{{0, 2}, {1, 1}, {2, 3}, {3, 2}})
    for (int op = 0; op < NHOPS; op++)
      g->add("history:" + std::to_string(rc.first) + "x" + std::to_string(rc.second) + ":" + std::to_string(op), [=]() { histories(rc.first, rc.second, op, deep ? 6 : 4); });
  g->add("product:2x2x2", [=]() { products(2, 2, 2, v5); });
  g->add("product:2x3x1", [=]() { products(2, 3, 1, v3); });
  g->add("product:1x3x2", [=]() { products(1, 3, 2, v3); });
  g->add("product:3x1x3", [=]() { products(3, 1, 3, v3); });
  g->add("product:3x2x3", [=]() { products(3, 2, 3, v2); });
  g->add("product:1x1x1", [=]() { products(1, 1, 1, {-(3L << 30), 0, 1, 1L << 31, 5}); });
  for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) g->add("eliminate:" + std::to_string(r) + "x" + std::to_string(c), [=]() { eliminate(r, c, r * c > 6 ? v3 : v5); });
  g->add("eliminate:2x4", [=]() { eliminate(2, 4, v3); });
  g->add("eliminate:4x2", [=]() { eliminate(4, 2, v3); });
  g->add("eliminate:3x4", [=]() { eliminate(3, 4, v2); });
  g->add("eliminate:large", [=]() { eliminate(2, 2, {0, 1, -3, 3L << 29}); });
  for (int n = 1; n <= 3; n++) g->add("vectors:" + std::to_string(n), [=]() { vectors(n, v5); });
  g->add("vectors:large", [=]() { vectors(2, {0, 1, -1, 4, 1L << 30, -(1L << 30), 1L << 16}); });
  if (deep) g->add("vectors:4", [=]() { vectors(4, v3); });
  g->add("numbers", []() { numbers(); });
  for (int d = 1; d <= 3; d++) for (int r = d; r <= 3; r++) if (d < 3 || deep) g->add("inverse:" + std::to_string(r) + "x" + std::to_string(d), [=]() { remaps(r, d, r * (d + 1) > 6 ? v3 : v5); });
  g->add("inverse:3x3:01", [=]() { remaps(3, 3, v2); });
  for (int f = 0; f < 2; f++) {
    string n = f ? "flic:" : "linind:";
    for (int d = 1; d <= 3; d++) for (int r = 0; r <= 3; r++) if (r * d <= 6 || (deep && d == 3))
      g->add(n + std::to_string(d) + "x" + std::to_string(r), [=]() { lin_ind(d, r, r * d > 4 ? v3 : v5, f); });
  }
  return make_groups(g, "all matrices of shapes up to 3x3 over [-2,2], 2x4 and 4x2 over [-2,2], 3x4 and 4x3 over [-1,1]" + string(deep ? ", 4x4, 3x5 and 5x3 over [-1,1], 3x3 over [-3,3]" : "") +
                            "; row and column operations at every position of shapes up to 4x4; products, eliminations, vector pairs, inverses and independence constraints over small entries");
}
