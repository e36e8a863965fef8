// C17: conversions between isl objects and the library's own representation.
#include "unit.h"
#include <algorithm>
#include <cstring>
using poly::Vec;
using std::string;
using std::to_string;
using std::vector;
#include <gmp.h>
#include <isl/mat.h>
#include <isl/val.h>
#include <isl/val_gmp.h>
extern "C" {
#include "constraints.h"
#include "isl_support.h"
#include "math_support.h"
#include "pluto.h"
#include "pluto/matrix.h"
#include "pluto/pluto.h"
#include "program.h"
}
static int k_obj = mc::counter_decl("objects_converted"), k_pts = mc::counter_decl("points_compared"), k_conv = mc::counter_decl("conversions_compared");
static PlutoContext *ctx() {
  static PlutoContext *c = nullptr;
  if (!c) { c = pluto_context_alloc(); c->options->silent = 1; }
  return c;
}
static isl_ctx *ictx() {
  static isl_ctx *c = nullptr;
  if (!c) { c = isl_ctx_alloc(); isl_options_set_on_error(c, ISL_ON_ERROR_CONTINUE); }
  return c;
}
typedef __int128 I;
struct Row17 { Vec a; bool eq; };
typedef vector<Row17> Rows;
typedef vector<Rows> List;
static string show(const Rows &r) {
  string s = "{";
  for (auto &x : r) s += poly::show(x.a) + (x.eq ? "=0 " : ">=0 ");
  return s + "}";
}
static string show(const List &l) { string s; for (auto &r : l) s += (s.empty() ? "" : " u ") + show(r); return s; }
static bool sat(const Rows &rs, const Vec &x) {
  for (auto &r : rs) {
    I v = r.a.back();
    for (size_t i = 0; i < x.size(); i++) v += (I)r.a[i] * x[i];
    if (r.eq ? v != 0 : v < 0) return false;
  }
  return true;
}
static bool sat(const List &l, const Vec &x) { for (auto &r : l) if (sat(r, x)) return true; return false; }
static PlutoConstraints *mk1(const Rows &rs, int nv) {
  PlutoConstraints *c = pluto_constraints_alloc(rs.empty() ? 1 : rs.size(), nv + 1, ctx());
  c->nrows = rs.size();
  for (size_t i = 0; i < rs.size(); i++) { c->is_eq[i] = rs[i].eq; for (int j = 0; j <= nv; j++) c->val[i][j] = rs[i].a[j]; }
  return c;
}
static PlutoConstraints *mk(const List &l, int nv) {
  PlutoConstraints *h = nullptr, **t = &h;
  for (auto &r : l) { *t = mk1(r, nv); t = &(*t)->next; }
  return h;
}
static List get(const PlutoConstraints *c) {
  List l;
  for (; c; c = c->next) {
    Rows rs;
    for (unsigned i = 0; i < c->nrows; i++) {
      Row17 r;
      r.eq = c->is_eq[i];
      for (unsigned j = 0; j < c->ncols; j++) r.a.push_back(c->val[i][j]);
      rs.push_back(r);
    }
    l.push_back(rs);
  }
  return l;
}
struct Free17 { PlutoConstraints *c; ~Free17() { pluto_constraints_free(c); } };
static bool box(int nv, long lo, long hi, const std::function<bool(const Vec &)> &cb) {
  Vec vals;
  for (long v = lo; v <= hi; v++) vals.push_back(v);
  return product(vals, nv, cb);
}
// Membership of a point in the constraints isl reports for one of its objects
// (columns: params, in, out, div); existentials are searched by enumeration.
static bool isin(const poly::Rel &r, const Vec &par, const Vec &in, const Vec &out) {
  for (auto &b : r.parts) {
    int n = b.npar + b.nin + b.nout + b.ndiv;
    std::vector<char> fixed(n, 0);
    Vec vals(n, 0);
    int k = 0;
    for (long v : par) { fixed[k] = 1; vals[k++] = v; }
    for (long v : in) { fixed[k] = 1; vals[k++] = v; }
    for (long v : out) { fixed[k] = 1; vals[k++] = v; }
    if (!poly::enumerate(b.sys, fixed, vals, [](const Vec &) { return false; })) return true;
  }
  return false;
}
static bool agree(const List &l, const std::function<bool(const Vec &)> &want, int nv, const string &what, long b = 3, bool superset = false) {
  mc::count(k_conv);
  for (auto &e : l) for (auto &r : e) if ((int)r.a.size() != nv + 1) { mc::fail("shape", what + ": " + to_string(r.a.size()) + " columns"); return false; }
  return box(nv, -b, b, [&](const Vec &x) {
    mc::count(k_pts);
    bool g = sat(l, x), w = want(x);
    bool bad = superset ? (w && !g) : w != g;
    if (bad) mc::fail("points", what + " = " + show(l) + (g ? " contains " : " misses ") + poly::show(x));
    return !bad;
  });
}
static bool one_set(const List &s, int nv) {
  mc::count(k_obj);
  string n = show(s);
  Free17 a{mk(s, nv)};
  auto in = [&](const Vec &x) { return sat(s, x); };
  { isl_set *set = isl_set_from_pluto_constraints(a.c, ictx());
    poly::Rel r = poly::rel_from_set(set);
    mc::count(k_conv);
    bool ok = box(nv, -3, 3, [&](const Vec &x) {
      mc::count(k_pts);
      bool g = isin(r, {}, {}, x);
      if (g != sat(s, x)) mc::fail("points", n + " becomes an isl set that " + (g ? "contains " : "misses ") + poly::show(x));
      return g == sat(s, x);
    });
    Free17 b{isl_set_to_pluto_constraints(set, ctx())};
    isl_set_free(set);
    if (!ok || !agree(get(b.c), in, nv, "round trip of " + n)) return false; }
  if (s.size() == 1) {
    isl_basic_set *bs = isl_basic_set_from_pluto_constraints(ictx(), a.c);
    Free17 b{isl_basic_set_to_pluto_constraints(bs, ctx())};
    isl_basic_set_free(bs);
    if (!agree(get(b.c), in, nv, "basic round trip of " + n)) return false;
  }
  // one input, the rest outputs; and the reverse; last variable as a parameter
  for (int npar = 0; npar < 2; npar++)
    for (int nin = 0; nin <= nv - npar; nin++) {
      int nout = nv - npar - nin;
      Free17 c{mk1(s[0], nv)};
      isl_basic_map *bm = isl_basic_map_from_pluto_constraints(ictx(), c.c, nin, nout, npar);
      isl_map *m = isl_map_from_basic_map(isl_basic_map_copy(bm));
      poly::Rel r = poly::rel_from_map(m);
      isl_map_free(m);
      // columns: outputs, inputs, parameters
      bool ok = box(nv, -2, 2, [&](const Vec &x) {
        mc::count(k_pts);
        Vec out(x.begin(), x.begin() + nout), inp(x.begin() + nout, x.begin() + nout + nin), par(x.begin() + nout + nin, x.end());
        bool g = isin(r, par, inp, out);
        if (g != sat(s[0], x)) mc::fail("points", show(s[0]) + " becomes a relation (" + to_string(nin) + " in, " + to_string(npar) + " parameters) that " + (g ? "contains " : "misses ") + poly::show(x));
        return g == sat(s[0], x);
      });
      mc::count(k_conv);
      if (!ok) { isl_basic_map_free(bm); return false; }
      // and back: inputs, outputs, parameters
      Free17 b{isl_basic_map_to_pluto_constraints(bm, ctx())};
      isl_basic_map_free(bm);
      if (!agree(get(b.c), [&](const Vec &x) {
            Vec y(x.begin() + nin, x.begin() + nin + nout);
            y.insert(y.end(), x.begin(), x.begin() + nin);
            y.insert(y.end(), x.begin() + nin + nout, x.end());
            return sat(s[0], y);
          }, nv, "relation from " + show(s[0]) + " (" + to_string(nin) + " in)", 2)) return false;
    }
  return true;
}
static string lin(const Vec &a, const vector<string> &nm) {
  string s;
  for (size_t i = 0; i < nm.size(); i++) if (a[i]) s += (s.empty() ? "" : " + ") + to_string(a[i]) + "*" + nm[i];
  if (s.empty() || a[nm.size()]) s += (s.empty() ? "" : " + ") + to_string(a[nm.size()]);
  return s;
}
// Sets with existentially quantified variables and modulo conditions.
static bool existential(const string &text, int nset, int npar, bool exact) {
  mc::count(k_obj);
  isl_set *set = isl_set_read_from_str(ictx(), text.c_str());
  poly::Rel r = poly::rel_from_set(set);
  Free17 c{isl_set_to_pluto_constraints(set, ctx())};
  isl_set_free(set);
  return agree(get(c.c), [&](const Vec &x) { return isin(r, Vec(x.begin() + nset, x.end()), {}, Vec(x.begin(), x.begin() + nset)); }, nset + npar, text, 4, !exact);
}
static const vector<string> &bigs() {
  static vector<string> v = {"1", "-1", "2", "-3", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "-4294967296",
                             "1099511627776", "-1099511627777", "4611686018427387904", "-4611686018427387905", "9223372036854775807", "-9223372036854775807", "-9223372036854775808"};
  return v;
}
static long L(const string &s) { return s == "-9223372036854775808" ? (long)(1ul << 63) : atol(s.c_str()); }
static void big() {
  struct S { string in; long long want; };
  vector<S> v;
  for (auto &s : bigs()) v.push_back({s, L(s)});
  v.push_back({"0", 0});
  for (string s : {"9223372036854775808", "9223372036854775809", "18446744073709551616", "1180591620717411303424"}) {
    v.push_back({s, 0x7fffffffffffffffLL});
    if (s != "9223372036854775808") v.push_back({"-" + s, (long long)(1ull << 63)});
  }
  for (auto &x : v) {
    mc::count(k_obj);
    isl_val *q = isl_val_read_from_str(ictx(), x.in.c_str());
    long long g = isl_val_get_num_ll(q);
    isl_val_free(q);
    mc::count(k_conv);
    if (g != x.want) { mc::fail("value", x.in + " becomes " + to_string(g)); return; }
  }
}
static void bigrows(size_t part) {
  auto &v = bigs();
  const string &sa = v[part];
  for (auto &sc : v) {
    // a x + y + c >= 0 and = 0, as a set and as a relation, both ways: nothing to normalise
    for (int eq = 0; eq < 2; eq++) {
      Vec row{L(sa), 1, L(sc)};
      string n = "constraint with " + sa + " and " + sc;
      mc::count(k_obj, 2);
      auto is = [&](const PlutoConstraints *c, const Vec &want, const string &how) {
        mc::count(k_conv);
        List l = get(c);
        Vec neg = want;
        bool canneg = eq;
        for (auto &q : neg) { if ((unsigned long)q == 1ul << 63) canneg = false; else q = -q; }
        bool ok = l.size() == 1 && l[0].size() == 1 && l[0][0].eq == (bool)eq && (l[0][0].a == want || (canneg && l[0][0].a == neg));
        // an equality may have been negated: then -2^63 is not representable and nothing can be said
        if (!ok && eq && !canneg) ok = true;
        if (!ok) mc::fail("value", n + " " + how + " becomes " + show(l));
        return ok;
      };
      Free17 a{mk1({{row, (bool)eq}}, 2)};
      { isl_basic_set *b = isl_basic_set_from_pluto_constraints(ictx(), a.c);
        Free17 r{isl_basic_set_to_pluto_constraints(b, ctx())};
        isl_basic_set_free(b);
        if (!is(r.c, row, "as a set and back")) return; }
      { isl_basic_map *b = isl_basic_map_from_pluto_constraints(ictx(), a.c, 1, 1, 0); // columns: out, in
        Free17 r{isl_basic_map_to_pluto_constraints(b, ctx())};                          // columns: in, out
        isl_basic_map_free(b);
        if (!is(r.c, {row[1], row[0], row[2]}, "as a relation and back")) return; }
      { string t = "{ [x,y] : " + sa + "*x + y + " + sc + (eq ? " = 0 }" : " >= 0 }");
        isl_basic_set *b = isl_basic_set_read_from_str(ictx(), t.c_str());
        Free17 r{isl_basic_set_to_pluto_constraints(b, ctx())};
        isl_basic_set_free(b);
        if (!is(r.c, row, "from isl")) return; }
    }
    // matrices and affine functions
    isl_mat *m = isl_mat_alloc(ictx(), 2, 2);
    const string *e[4] = {&sa, &sc, &v[(part + 3) % v.size()], &v[0]};
    for (int i = 0; i < 4; i++) m = isl_mat_set_element_val(m, i / 2, i % 2, isl_val_read_from_str(ictx(), e[i]->c_str()));
    PlutoMatrix *pm = pluto_matrix_from_isl_mat(m, ctx());
    isl_mat_free(m);
    mc::count(k_conv);
    bool ok = pm->nrows == 2 && pm->ncols == 2;
    for (int i = 0; ok && i < 4; i++) ok = pm->val[i / 2][i % 2] == L(*e[i]);
    pluto_matrix_free(pm);
    if (!ok) { mc::fail("value", "matrix with " + sa + ", " + sc); return; }
    string t = "[N] -> { S[i] -> [" + sa + "*i + " + sc + "*N + " + sa + ", " + sc + "] }";
    isl_map *f = isl_map_read_from_str(ictx(), t.c_str());
    PlutoMatrix *fm = isl_map_to_pluto_func(f, 1, 1, ctx());
    isl_map_free(f);
    mc::count(k_conv);
    Vec want{L(sa), L(sc), L(sa), 0, 0, L(sc)};
    ok = fm->nrows == 2 && fm->ncols == 3;
    for (int i = 0; ok && i < 6; i++) ok = fm->val[i / 3][i % 3] == want[i];
    pluto_matrix_free(fm);
    if (!ok) { mc::fail("value", "function " + t); return; }
  }
}
static vector<Row17> rowset(int nv, const Vec &co, const Vec &k) {
  vector<Row17> r;
  product(co, nv, [&](const Vec &a) {
    for (long c : k) for (int eq = 0; eq < 2; eq++) { Row17 x{a, (bool)eq}; x.a.push_back(c); r.push_back(x); }
    return true;
  });
  return r;
}
mc::Check make_c17(const string &tier) {
  bool T = tier == "thorough";
  auto g = std::make_shared<Groups>();
  {
    auto r = rowset(2, {-2, -1, 0, 1, 2}, {-2, -1, 0, 1});
    for (size_t i = 0; i < r.size(); i += 1)
      g->add("set:" + to_string(i), [r, i, T] {
        if (!one_set({{r[i]}}, 2)) return;
        for (size_t j = i + 1; j < r.size(); j += T ? 1 : 2) {
          if (!one_set({{r[i], r[j]}}, 2)) return;
          if (!one_set({{r[i]}, {r[j]}}, 2)) return;
        } });
  }
  {
    auto r = rowset(3, {-1, 0, 1}, {-1, 1});
    for (size_t i = 0; i < r.size(); i++)
      g->add("space:" + to_string(i), [r, i, T] {
        for (size_t j = i + 1; j < r.size(); j += T ? 1 : 3) {
          if (!one_set({{r[i], r[j]}}, 3)) return;
          if (!one_set({{r[i], r[j]}, {r[(i + j) % r.size()], r[(3 * i + j) % r.size()]}, {r[j]}}, 3)) return;
        } });
  }
  // parametric sets and functions written in isl's own notation
  {
    auto r = rowset(3, {-1, 0, 1, 2}, {-1, 0, 2});
    for (size_t part = 0; part < 8; part++)
      g->add("text:" + to_string(part), [r, part] {
        for (size_t i = part; i < r.size(); i += 8) {
          string c1 = lin(r[i].a, {"i", "j", "N"}) + (r[i].eq ? " = 0" : " >= 0");
          auto &q = r[(i * 7 + 3) % r.size()];
          string c2 = lin(q.a, {"i", "j", "N"}) + (q.eq ? " = 0" : " >= 0");
          if (!existential("[N] -> { [i,j] : " + c1 + " and " + c2 + " }", 2, 1, true)) return;
          if (!existential("[N] -> { [i,j] : " + c1 + " or " + c2 + " }", 2, 1, true)) return;
          if (!existential("[N] -> { [i,j] : not (" + c1 + ") }", 2, 1, true)) return;
          if (!existential("[N] -> { [i,j] : exists e : 2*e = " + lin(r[i].a, {"i", "j", "N"}) + " and " + c2 + " }", 2, 1, false)) return;
          if (!existential("[N] -> { [i,j] : exists e : e <= " + lin(r[i].a, {"i", "j", "N"}) + " <= e + 1 and 3 * e >= j }", 2, 1, false)) return;
          // functions
          mc::count(k_obj);
          string t = "[N] -> { S[i,j] -> [" + lin(r[i].a, {"i", "j", "N"}) + ", " + lin(q.a, {"i", "j", "N"}) + "] }";
          isl_map *f = isl_map_read_from_str(ictx(), t.c_str());
          PlutoMatrix *fm = isl_map_to_pluto_func(f, 2, 1, ctx());
          isl_map_free(f);
          mc::count(k_conv);
          bool ok = fm->nrows == 2 && fm->ncols == 4;
          for (int k = 0; ok && k < 4; k++) ok = fm->val[0][k] == r[i].a[k] && fm->val[1][k] == q.a[k];
          pluto_matrix_free(fm);
          if (!ok) { mc::fail("value", "function " + t); return; }
        } });
  }
  // every shape: number of dimensions, parameters, results and parts
  for (int nd = 0; nd <= 5; nd++)
    g->add("shape:" + to_string(nd), [nd] {
      for (int np = 0; np <= 5; np++) {
        string pn, it;
        vector<string> nm;
        for (int k = 0; k < nd; k++) { nm.push_back("i" + to_string(k)); it += (k ? "," : "") + nm.back(); }
        for (int k = 0; k < np; k++) { nm.push_back("P" + to_string(k)); pn += (k ? "," : "") + nm.back(); }
        for (int no = 1; no <= 5; no++) {
          string t = "[" + pn + "] -> { S[" + it + "] -> [";
          Mat want;
          for (int q = 0; q < no; q++) {
            Vec a;
            for (int k = 0; k <= nd + np; k++) a.push_back((k % 2 ? -1 : 1) * (q * 7 + k * 3 + 1) * ((q + k) % 4 != 3));
            want.push_back(a);
            t += (q ? ", " : "") + lin(a, nm);
          }
          t += "] }";
          mc::count(k_obj);
          isl_map *f = isl_map_read_from_str(ictx(), t.c_str());
          PlutoMatrix *fm = isl_map_to_pluto_func(f, nd, np, ctx());
          isl_map_free(f);
          mc::count(k_conv);
          bool ok = (int)fm->nrows == no && (int)fm->ncols == nd + np + 1;
          for (int q = 0; ok && q < no; q++) for (int k = 0; ok && k <= nd + np; k++) ok = fm->val[q][k] == want[q][k];
          pluto_matrix_free(fm);
          if (!ok) { mc::fail("value", "function " + t); return; }
        }
        // one constraint with distinct coefficients, from isl's notation
        for (int eq = 0; eq < 2 && nd; eq++) {
          Vec a;
          for (int k = 0; k <= nd + np; k++) a.push_back((k % 2 ? -1 : 1) * (k * 3 + 1));
          string t = "[" + pn + "] -> { [" + it + "] : " + lin(a, nm) + (eq ? " = 0 }" : " >= 0 }");
          mc::count(k_obj);
          isl_set *st = isl_set_read_from_str(ictx(), t.c_str());
          Free17 c{isl_set_to_pluto_constraints(st, ctx())};
          isl_set_free(st);
          mc::count(k_conv);
          List l = get(c.c);
          Vec neg = a;
          for (long &v : neg) v = -v;
          if (!(l.size() == 1 && l[0].size() == 1 && l[0][0].eq == (bool)eq && (l[0][0].a == a || (eq && l[0][0].a == neg)))) { mc::fail("value", t + " becomes " + show(l)); return; }
        }
      }
    });
  for (int n = 1; n <= 8; n++)
    g->add("parts:" + to_string(n), [n] {
      List l; // n separate points and an interval
      for (int k = 0; k < n; k++) l.push_back({{{1, 0, -(long)(k - 4)}, true}, {{0, 1, (long)(k % 3) - 1}, true}});
      l.push_back({{{1, 1, -6}, false}, {{-1, 0, 4}, false}, {{0, -1, 4}, false}});
      for (size_t r = 0; r < l.size(); r++) {
        if (!one_set(l, 2)) return;
        std::rotate(l.begin(), l.begin() + 1, l.end());
      }
      string t = "{ [i,j] : ";
      for (int k = 0; k < n; k++) t += string(k ? " or " : "") + "(i = " + to_string(k - 4) + " and j = " + to_string(k % 3 - 1) + ")";
      existential(t + " }", 2, 0, true);
    });
  g->add("numbers", big);
  for (size_t i = 0; i < bigs().size(); i++) g->add("large:" + to_string(i), [i] { bigrows(i); });
  return make_groups(g, "all sets of one or two rows over two variables (coefficients within 2) and two rows over three, unions of two and three, as sets and as relations with every split into inputs, outputs and a "
                        "parameter; parametric sets, negations, modulo conditions and affine functions in isl's notation; coefficients at and around the 32- and 64-bit limits");
}
