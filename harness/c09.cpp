// C09, first part: the affine form of the Farkas lemma on enumerated domains.
#include "unit.h"
#include "rays.h"
#include <gmp.h>
extern "C" {
#include "constraints.h"
#include "pluto.h"
#include "math_support.h"
#include "pluto/matrix.h"
#include "pluto/pluto.h"
PlutoConstraints *farkas_lemma_affine(const PlutoConstraints *dom, const PlutoMatrix *phi);
}
using poly::Vec;
using std::string;
using std::vector;
static int k_dom = mc::counter_decl("domains"), k_vec = mc::counter_decl("coefficient_vectors"), k_adm = mc::counter_decl("admitted_vectors"),
           k_gen = mc::counter_decl("generators");
static PlutoContext *ctx() {
  static PlutoContext *c = nullptr;
  if (!c) { c = pluto_context_alloc(); c->options->silent = 1; }
  return c;
}
typedef vector<std::pair<Vec, bool>> Rows; // row, is equality
static string show(const Rows &r) {
  string s = "{";
  for (auto &x : r) s += poly::show(x.first) + (x.second ? "=0 " : ">=0 ");
  return s + "}";
}
// phi: one row per column of the domain; columns: variables, constant
static bool compare(int d, const Rows &rs, const Mat &phi, const Vec &vals, const string &pn) {
  int nv = phi[0].size() - 1;
  PlutoConstraints *dom = pluto_constraints_alloc(rs.size() + 1, d + 1, ctx());
  poly::Sys sys;
  sys.nv = d;
  for (auto &r : rs) {
    if (r.second) pluto_constraints_add_equality(dom); else pluto_constraints_add_inequality(dom);
    for (int j = 0; j <= d; j++) dom->val[dom->nrows - 1][j] = r.first[j];
    (r.second ? sys.eq : sys.ineq).push_back(r.first);
  }
  PlutoMatrix *m = pluto_matrix_alloc(d + 1, nv + 1, ctx());
  for (int i = 0; i <= d; i++) for (int j = 0; j <= nv; j++) m->val[i][j] = phi[i][j];
  PlutoConstraints *f = farkas_lemma_affine(dom, m);
  Gens g = generators(sys);
  mc::count(k_dom);
  mc::count(k_gen, g.rays.size() + g.lines.size());
  bool ok = (int)f->ncols == nv + 1;
  if (!ok) mc::fail("width", pn + " on " + show(rs) + ": the result has " + std::to_string(f->ncols) + " columns");
  for (int r = 0; ok && r < (int)dom->nrows; r++)
    for (int j = 0; j <= d; j++) if (dom->val[r][j] != rs[r].first[j]) { mc::fail("modified", "the domain " + show(rs) + " was modified"); ok = false; break; }
  if (ok) ok = product(vals, nv, [&](const Vec &c) {
    mc::count(k_vec);
    Vec form(d + 1);
    for (int i = 0; i <= d; i++) {
      form[i] = phi[i][nv];
      for (int j = 0; j < nv; j++) form[i] += phi[i][j] * c[j];
    }
    bool ref = nonneg(g, form), got = true;
    for (unsigned r = 0; r < f->nrows && got; r++) {
      __int128 v = f->val[r][nv];
      for (int j = 0; j < nv; j++) v += (__int128)f->val[r][j] * c[j];
      if (f->is_eq[r] ? v != 0 : v < 0) got = false;
    }
    if (got) mc::count(k_adm);
    if (got != ref) { mc::fail(got ? "unsound" : "incomplete", pn + " on " + show(rs) + ": coefficients " + poly::show(c) + " give the form " + poly::show(form) + ", which " + (ref ? "is non-negative but rejected" : "takes negative values but is admitted")); return false; }
    return true;
  });
  pluto_constraints_free(f);
  pluto_constraints_free(dom);
  pluto_matrix_free(m);
  return ok;
}
static Mat ident(int d) {
  Mat m(d + 1, Vec(d + 2, 0));
  for (int i = 0; i <= d; i++) m[i][i] = 1;
  return m;
}
// Enumerates all sets of at most `max` rows out of `menu` (with the fixed ones).
static bool sets(const Rows &menu, size_t max, const Rows &fixed, const std::function<bool(const Rows &)> &cb) {
  Rows cur = fixed;
  std::function<bool(size_t)> rec = [&](size_t from) {
    if (!cb(cur)) return false;
    if (cur.size() == max + fixed.size()) return true;
    for (size_t i = from; i < menu.size(); i++) {
      cur.push_back(menu[i]);
      if (!rec(i + 1)) return false;
      cur.pop_back();
    }
    return true;
  };
  return rec(0);
}
mc::Check make_c09(const string &tier) {
  bool th = tier == "thorough";
  auto g = std::make_shared<Groups>();
  { // one dimension
    Rows menu;
    for (long a = -2; a <= 2; a++) for (long c = -3; c <= 3; c++) if (a || c < 0) { menu.push_back({{a, c}, false}); if (a > 0) menu.push_back({{a, c}, true}); }
    Mat two = {{1, 2, 0}, {-1, 1, -1}};
    for (size_t f = 0; f < menu.size(); f++)
      g->add("d1:" + std::to_string(f), [=]() {
        Rows rest(menu.begin() + f, menu.end());
        sets(rest, th ? 3 : 2, {menu[f]}, [&](const Rows &r) { return compare(1, r, ident(1), {-3, -2, -1, 0, 1, 2, 3}, "a*i+b") && compare(1, r, two, {-2, -1, 0, 1, 2}, "(a+2b)*i-a+b-1"); });
      });
  }
  { // two dimensions
    Rows menu;
    for (long a = -1; a <= 1; a++) for (long b = -1; b <= 1; b++) for (long c : {-1L, 0L, 2L}) if (a || b) {
      menu.push_back({{a, b, c}, false});
      if (a > 0 || (a == 0 && b > 0)) menu.push_back({{a, b, c}, true});
    }
    menu.push_back({{2, -1, 0}, true});
    menu.push_back({{2, -1, 1}, false});
    menu.push_back({{-3, 2, 4}, false});
    Mat diff = {{-1, 0, 0}, {1, 0, 0}, {0, 1, -1}}; // a*(t-s)+w-1
    for (size_t f = 0; f < menu.size(); f++)
      g->add("d2:" + std::to_string(f), [=]() {
        Rows rest(menu.begin() + f + 1, menu.end());
        sets(rest, 3, {menu[f]}, [&](const Rows &r) {
          return compare(2, r, ident(2), {-2, -1, 0, 1, 2}, "a*i+b*j+c") && compare(2, r, diff, {-2, -1, 0, 1, 2, 3}, "a*(j-i)+w-1"); });
      });
  }
  { // dependence polyhedra: source, target, parameter
    vector<Rows> bases = {{{{1, 0, 0, 0}, false}, {{-1, 0, 1, -1}, false}, {{0, 1, 0, 0}, false}, {{0, -1, 1, -1}, false}},
                          {{{1, 0, 0, 0}, false}, {{-1, 1, 0, -1}, false}, {{0, -1, 1, -1}, false}},
                          {{{1, 0, 0, 0}, false}, {{0, -1, 2, 0}, false}},
                          {{{1, 0, 0, -1}, false}, {{-1, 0, 1, 0}, false}, {{0, 0, 1, -4}, false}}};
    Rows menu;
    for (long c : {-2L, -1L, 0L, 1L}) { menu.push_back({{-1, 1, 0, c}, true}); menu.push_back({{-1, 1, 0, c}, false}); menu.push_back({{-2, 1, 0, c}, true}); menu.push_back({{1, 1, -1, c}, true}); menu.push_back({{1, 1, -1, c}, false}); menu.push_back({{-1, 2, 0, c}, true}); menu.push_back({{0, 1, 0, c}, true}); menu.push_back({{0, 0, 1, c}, false}); }
    Mat leg = {{-1, 0, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 0, 0}, {0, -1, 0, 1, 0}}; // two statements
    Mat bnd = {{0, 0, 1, 0}, {0, 0, -1, 0}, {1, 0, 0, 0}, {0, 1, 0, 0}};             // u N + w - c (t - s)
    for (size_t b = 0; b < bases.size(); b++)
      for (size_t f = 0; f < menu.size(); f++)
        g->add("dep" + std::to_string(b) + ":" + std::to_string(f), [=]() {
          Rows rest(menu.begin() + f + 1, menu.end()), fx = bases[b];
          fx.push_back(menu[f]);
          sets(rest, 2, fx, [&](const Rows &r) { return compare(3, r, leg, {-1, 0, 1, 2}, "d*t+f-c*s-e") && compare(3, r, bnd, {-1, 0, 1, 2}, "u*N+w-c*(t-s)") && compare(3, r, ident(3), {-1, 0, 1}, "a*s+b*t+c*N+d"); });
        });
  }
  { // every small affine form: one variable with two coefficients, two with one, and forms with a constant part everywhere
    vector<Rows> D1 = {{{{1, 0}, false}, {{-1, 5}, false}}, {{{1, 2}, false}}, {{{-2, 3}, false}}, {{{1, -3}, true}}, {{{2, 3}, false}, {{-1, -1}, false}}, {}};
    for (size_t f = 0; f < D1.size(); f++)
      for (long first = -1; first <= 2; first++)
        g->add("phi1:" + std::to_string(f) + "." + std::to_string(first), [=]() {
          product({-1, 0, 1, 2}, 5, [&](const Vec &e) { return compare(1, D1[f], {{first, e[0], e[1]}, {e[2], e[3], e[4]}}, {-2, -1, 0, 1, 3}, "the form " + poly::show(e)); });
        });
    vector<Rows> D2 = {{{{1, 0, 0}, false}, {{-1, 1, 0}, false}, {{0, -1, 4}, false}}, {{{1, 0, 1}, false}, {{0, 1, -1}, false}}, {{{1, -1, 2}, true}, {{1, 0, 0}, false}}, {{{-1, 2, 0}, false}, {{1, 1, -3}, false}}};
    for (size_t f = 0; f < D2.size(); f++)
      for (long first = -1; first <= 1; first++)
        g->add("phi2:" + std::to_string(f) + "." + std::to_string(first), [=]() {
          product({-1, 0, 1}, th ? 8 : 5, [&](const Vec &e) {
            Mat m = th ? Mat{{first, e[0], e[1]}, {e[2], e[3], e[4]}, {e[5], e[6], e[7]}} : Mat{{first, e[0]}, {e[1], e[2]}, {e[3], e[4]}};
            return compare(2, D2[f], m, {-3, -2, -1, 0, 1, 2}, "the form " + poly::show(e)); });
          if (!th) for (long a : {-1L, 1L}) for (long b : {-2L, 1L}) for (long c : {-1L, 2L}) if (!compare(2, D2[f], {{1, 0, 0, a}, {0, 1, -1, b}, {0, first, 1, c}}, {-2, -1, 0, 1, 2}, "(a+p)i+(b-c+q)j+...")) return;
        });
  }
  return make_groups(g, "the Farkas lemma: all systems of up to 3 (thorough: 4) rows in one and 4 in two dimensions (coefficients -2..2 and -1..1), dependence polyhedra with source, target and parameter, and every affine form with entries within -1..2 on ten domains; "
                        "all coefficient vectors of the stated boxes");
}
