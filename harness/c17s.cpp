// C17 (program input): the domains and dependences that reach the scheduler
// are those the caller gave, in whatever form they were written.
#include "obs.h"
#include <algorithm>
#include <cstring>
#include <set>
using poly::Vec;
using std::string;
using std::to_string;
using std::vector;
#include <gmp.h>
extern "C" {
#include "constraints.h"
#include "pluto/matrix.h"
#include "pluto.h"
#include "pluto/pluto.h"
#include "program.h"
}
static int k_obj = mc::counter_decl("objects_converted"), k_pts = mc::counter_decl("points_compared"), k_runs = mc::counter_decl("runs"), k_conv = mc::counter_decl("conversions_compared");
namespace {
struct Form {
  string id, dom, dep;  // as given to the library
  string rdom, rdep;    // plain form, all parameters declared in the library's order
  bool exact = true;    // no existentials: nothing may be added
  vector<Vec> pars;
};
struct Seen {
  bool set = false;
  int npar = 0;
  vector<int> dim;
  vector<vector<poly::Sys>> dom; // per statement, pieces over (iterators, params)
  struct D { int src, dest; poly::Sys sys; };
  vector<D> deps;
};
} // namespace
static poly::Sys sys_of(const PlutoConstraints *c) {
  poly::Sys s;
  s.nv = c->ncols - 1;
  for (unsigned i = 0; i < c->nrows; i++) {
    Vec r(c->val[i], c->val[i] + c->ncols);
    (c->is_eq[i] ? s.eq : s.ineq).push_back(r);
  }
  return s;
}
static Seen look(PlutoProg *p) {
  Seen s;
  s.set = true;
  s.npar = p->npar;
  for (int i = 0; i < p->nstmts; i++) {
    s.dim.push_back(p->stmts[i]->dim);
    vector<poly::Sys> v;
    for (PlutoConstraints *c = p->stmts[i]->domain; c; c = c->next) v.push_back(sys_of(c));
    s.dom.push_back(v);
  }
  for (int i = 0; i < p->ndeps; i++) s.deps.push_back({p->deps[i]->src, p->deps[i]->dest, sys_of(p->deps[i]->dpolytope)});
  return s;
}
// Accesses as given: per statement and direction, the array and an affine function per subscript.
struct AForm {
  string id;
  int ns, dim, npar;
  struct A { int st; bool write; string array; vector<Vec> rows; };
  vector<A> acc;
};
static string aff_str(const Vec &r, int dim) {
  static const char *it[] = {"i", "j", "k"}, *pn[] = {"N", "M", "P"};
  string s;
  for (size_t q = 0; q + 1 < r.size(); q++) if (r[q]) s += (s.empty() ? "" : " + ") + string("(") + to_string(r[q]) + "*" + ((int)q < dim ? it[q] : pn[q - dim]) + ")";
  if (r.back() || s.empty()) s += (s.empty() ? "" : " + ") + string("(") + to_string(r.back()) + ")";
  return s;
}
static vector<AForm> aforms(bool th) {
  vector<AForm> v;
  for (int ns : {1, 2, 3, 11, 12, 21, 101})
    for (int dim = 1; dim <= 3; dim++)
      for (int np = 0; np <= 3; np++) {
        if (ns > 3 && (dim > 1 || np != 1) && (!th || ns > 30)) continue;
        int nc = dim + np + 1;
        // a pool of subscripts: each unit column with several factors, sums, constants
        vector<Vec> sub;
        for (int q = 0; q < nc; q++) for (long f : {1L, -1L, 2L}) { Vec r(nc, 0); r[q] = f; sub.push_back(r); }
        { Vec r(nc, 1); sub.push_back(r); r[0] = -3; r[nc - 1] = 70000; sub.push_back(r); sub.push_back(Vec(nc, 0)); }
        int variants = ns > 30 ? 1 : ns > 3 ? 3 : 12;
        for (int x = 0; x < variants; x++) {
          AForm f{to_string(ns) + "." + to_string(dim) + "." + to_string(np) + "." + to_string(x), ns, dim, np, {}};
          for (int s = 0; s < ns; s++) {
            int nr = (s + x) % 4, nw = (s + x / 4) % 3; // none up to three reads, none up to two writes
            for (int a = 0; a < nr + nw; a++) {
              int nd = (s + a + x) % 4; // subscripts
              AForm::A y{s, a >= nr, string(1, 'A' + (s + a) % 5), {}};
              for (int k = 0; k < nd; k++) y.rows.push_back(sub[(s * 5 + a * 7 + k * 3 + x) % sub.size()]);
              y.array += to_string(nd); // one dimensionality per array
              f.acc.push_back(y);
            }
          }
          v.push_back(f);
        }
      }
  return v;
}
static void run_aform(const AForm &f, isl_ctx *ctx) {
  static const char *it[] = {"i", "j", "k"}, *pn[] = {"N", "M", "P"};
  string par = "[", its = "[", box;
  for (int q = 0; q < f.npar; q++) par += string(q ? "," : "") + pn[q];
  for (int q = 0; q < f.dim; q++) { its += string(q ? "," : "") + it[q]; box += string(q ? " and " : "") + "0 <= " + it[q] + " <= " + (f.npar ? pn[q % f.npar] : "9"); }
  par += "] -> { ";
  its += "]";
  string dom = par, rd = par, wr = par;
  for (int s = 0; s < f.ns; s++) dom += string(s ? "; " : "") + "S_" + to_string(s) + its + " : " + box;
  bool fr = true, fw = true;
  for (auto &a : f.acc) {
    string t = "S_" + to_string(a.st) + its + " -> " + a.array + "[";
    for (size_t k = 0; k < a.rows.size(); k++) t += (k ? ", " : "") + aff_str(a.rows[k], f.dim);
    string &d = a.write ? wr : rd;
    bool &first = a.write ? fw : fr;
    d += (first ? "" : "; ") + t + "]";
    first = false;
  }
  PlutoContext *pc = pluto_context_alloc();
  pc->options->silent = 1;
  pc->options->tile = 0;
  pc->options->parallel = 0;
  pc->options->fuse = kNoFuse;
  bool seen = false;
  g_observe = [&](PlutoProg *p, const string &pt) {
    if (pt != "transformed" || seen) return;
    seen = true;
    if (p->nstmts != f.ns || p->npar != f.npar) { mc::fail("accesses", "the program has " + to_string(p->nstmts) + " statements and " + to_string(p->npar) + " parameters"); return; }
    typedef std::pair<string, Vec> Cell;
    for (int s = 0; s < f.ns; s++)
      for (int w = 0; w < 2; w++) {
        Stmt *st = p->stmts[s];
        // two points determine nothing, all of a small cube do
        Vec x(f.dim + f.npar, 0);
        std::function<bool(size_t)> all = [&](size_t q) -> bool {
          if (q < x.size()) { for (x[q] = 0; x[q] < 2; x[q]++) if (!all(q + 1)) return false; return true; }
          std::multiset<Cell> want, got;
          for (auto &a : f.acc) if (a.st == s && a.write == (w == 1)) {
            Cell c{a.array, {}};
            for (auto &r : a.rows) { long v = r.back(); for (size_t k = 0; k < x.size(); k++) v += r[k] * x[k]; c.second.push_back(v); }
            want.insert(c);
          }
          for (int k = 0, n = w ? st->nwrites : st->nreads; k < n; k++) {
            PlutoAccess *a = w ? st->writes[k] : st->reads[k];
            Cell c{a->name, {}};
            for (unsigned r = 0; r < a->mat->nrows; r++) {
              long v = a->mat->val[r][a->mat->ncols - 1];
              for (int d = 0; d < f.dim; d++) v += a->mat->val[r][d] * x[d];
              for (int q2 = 0; q2 < f.npar; q2++) v += a->mat->val[r][st->dim + q2] * x[f.dim + q2];
              c.second.push_back(v);
            }
            got.insert(c);
          }
          mc::count(k_pts);
          // (equal accesses of a statement are one relation)
          std::set<Cell> ws(want.begin(), want.end()), gs;
          for (auto &c : got) gs.insert(c.first.back() == '0' ? Cell{c.first, {}} : c);
          if (ws == gs) return true;
          string t = "S_" + to_string(s) + poly::show(x) + (w ? " writes" : " reads");
          for (auto &c : gs) t += " " + c.first + poly::show(c.second);
          t += ", given were";
          for (auto &c : ws) t += " " + c.first + poly::show(c.second);
          mc::fail("accesses", t);
          return false;
        };
        if (!all(0)) return;
      }
  };
  auto S = [&](const string &t) { isl_union_map *m = isl_union_map_read_from_str(ctx, t.c_str()); if (!m) abort(); return m; };
  isl_union_map *r = pluto_transform(isl_union_set_read_from_str(ctx, (dom + " }").c_str()), S(par + "}"), S(rd + " }"), S(wr + " }"), pc);
  g_observe = nullptr;
  pluto_context_free(pc);
  mc::count(k_runs);
  if (r) { // every statement under its name
    isl_union_set *have = isl_union_map_domain(isl_union_map_copy(r)), *want = isl_union_set_read_from_str(ctx, (dom + " }").c_str());
    bool same = true; // (the domain may be left out of the schedule's relation)
    isl_union_set *x = isl_union_set_intersect(have, isl_union_set_copy(want));
    same = isl_union_set_is_equal(x, want) == isl_bool_true;
    isl_union_set_free(x);
    isl_union_set_free(want);
    if (!same) mc::fail("names", "the schedule is not for the statements given: " + umap_to_str(r).substr(0, 500));
  }
  isl_union_map_free(r);
  if (seen) mc::count(k_obj);
}
// With bounds far outside everything enumerated, for interval reasoning.
static poly::Sys boxed(poly::Sys s, int from, int n) {
  for (int k = from; k < from + n; k++) {
    Vec lo(s.nv + 1, 0), hi = lo;
    lo[k] = 1; hi[k] = -1; lo[s.nv] = hi[s.nv] = 300;
    s.ineq.push_back(lo);
    s.ineq.push_back(hi);
  }
  return s;
}
static void box_parts(vector<poly::Rel> &v) {
  for (auto &r : v) for (auto &b : r.parts) b.sys = boxed(b.sys, b.npar, b.nin + b.nout);
}
static std::set<Vec> pts(const poly::Sys &s, int nv, const Vec &par) {
  std::vector<char> f(s.nv, 0);
  Vec v(s.nv, 0);
  std::set<Vec> out;
  for (size_t k = 0; k < par.size(); k++) { f[nv + k] = 1; v[nv + k] = par[k]; }
  poly::enumerate(boxed(s, 0, nv), f, v, [&](const Vec &x) { out.insert(Vec(x.begin(), x.begin() + nv)); return true; });
  return out;
}
static void judge(const Seen &s, const vector<poly::Rel> &rd, const vector<poly::Rel> &rr, const Vec &par, bool exact, const string &what) {
  if ((int)par.size() != s.npar) { mc::fail("parameters", what + ": " + to_string(s.npar) + " parameters"); return; }
  for (auto &r : rd) {
    int id = stmt_no(r.in.empty() ? r.out : r.in);
    if (id < 0 || id >= (int)s.dom.size() || s.dim[id] != r.nout) { mc::fail("domain", what + ": statement " + r.out + " is missing or has another dimension"); return; }
    std::set<Vec> want, got;
    for (auto &p : poly::points(r, par)) want.insert(p.second);
    for (auto &d : s.dom[id]) {
      if (d.nv != r.nout + s.npar) { mc::fail("domain", what + ": domain of " + r.out + " has " + to_string(d.nv) + " variables"); return; }
      auto g = pts(d, r.nout, par);
      got.insert(g.begin(), g.end());
    }
    mc::count(k_conv);
    mc::count(k_pts, want.size());
    for (auto &w : want) if (!got.count(w)) { mc::fail("domain", what + ": domain of " + r.out + " loses " + poly::show(w) + " at " + poly::show(par)); return; }
    if (exact) for (auto &g : got) if (!want.count(g)) { mc::fail("domain", what + ": domain of " + r.out + " gains " + poly::show(g) + " at " + poly::show(par)); return; }
  }
  std::map<std::pair<int, int>, std::set<Vec>> want, got;
  for (auto &r : rr)
    for (auto &p : poly::points(r, par)) {
      Vec v = p.first;
      v.insert(v.end(), p.second.begin(), p.second.end());
      want[{stmt_no(r.in), stmt_no(r.out)}].insert(v);
    }
  for (auto &d : s.deps) {
    if (d.src < 0 || d.src >= (int)s.dim.size() || d.dest < 0 || d.dest >= (int)s.dim.size()) { mc::fail("dependence", what + ": dependence between unknown statements"); return; }
    int n = s.dim[d.src] + s.dim[d.dest];
    if (d.sys.nv != n + s.npar) { mc::fail("dependence", what + ": dependence polyhedron has " + to_string(d.sys.nv) + " variables"); return; }
    auto g = pts(d.sys, n, par);
    got[{d.src, d.dest}].insert(g.begin(), g.end());
  }
  mc::count(k_conv);
  for (auto &w : want)
    for (auto &v : w.second) {
      mc::count(k_pts);
      if (!got[w.first].count(v)) { mc::fail("dependence", what + ": instance " + poly::show(v) + " of S_" + to_string(w.first.first) + " -> S_" + to_string(w.first.second) + " is lost at " + poly::show(par)); return; }
    }
  if (exact)
    for (auto &g : got)
      for (auto &v : g.second)
        if (!want[g.first].count(v)) { mc::fail("dependence", what + ": instance " + poly::show(v) + " of S_" + to_string(g.first.first) + " -> S_" + to_string(g.first.second) + " is invented at " + poly::show(par)); return; }
}
// The plain dependence texts (two statements, parameters N and M).
struct DepShape { string id, src, dst, cond; bool exact; };
static vector<DepShape> shapes() {
  vector<DepShape> v;
  v.push_back({"u1", "S_0[i]", "S_0[j]", "j = i + 1 and 0 <= i and j < N", true});
  v.push_back({"range", "S_0[i]", "S_1[j,k]", "0 <= i <= j < N and 0 <= k < M and k <= i", true});
  v.push_back({"rev", "S_1[j,k]", "S_0[i]", "i = N - 1 and j <= i and 0 <= j and 0 <= k < M", true});
  v.push_back({"swap", "S_1[j,k]", "S_1[a,b]", "a = k + 1 and b = j and 0 <= j < M and 0 <= k and a < N", true});
  v.push_back({"two", "S_0[i]", "S_0[j]", "0 <= i and i < j < N and (j = i + 1 or j >= i + 3)", true});
  v.push_back({"coef", "S_0[i]", "S_0[j]", "2*j >= 3*i + 1 and 0 <= i < j and j < N", true});
  v.push_back({"param", "S_0[i]", "S_0[j]", "j = i + M and 0 <= i and j < N and M >= 1", true});
  v.push_back({"const", "S_0[i]", "S_1[j,k]", "i = 2 and j = 1 and k = 0", true});
  v.push_back({"even", "S_0[i]", "S_0[j]", "j = i + 1 and i mod 2 = 0 and 0 <= i and j < N", false});
  v.push_back({"half", "S_0[i]", "S_0[j]", "j > i and 2*i <= j <= 2*i + 1 and 0 <= i and j < N", true});
  v.push_back({"quant", "S_0[i]", "S_0[j]", "(exists e : i = 3*e) and i < j < N and 0 <= i", false});
  return v;
}
static string rename(string t, const string &suffix) {
  size_t b = t.find('[');
  return t.substr(0, b) + suffix + t.substr(b);
}
static vector<Form> forms() {
  vector<Form> v;
  string d0 = "S_0[i] : 0 <= i < N", d1 = "S_1[i,j] : 0 <= i < N and 0 <= j < M";
  vector<Vec> pv{{4, 3}, {3, 4}, {5, 2}, {1, 1}};
  struct Dom { string id, d0, d1; };
  vector<Dom> doms{{"box", d0, d1},
                   {"split", "S_0[i] : 0 <= i < N and (i <= 1 or i >= 3)", d1},
                   {"order", d1, d0},
                   {"named", d0, "S_1[x,y] : 0 <= x < N and 0 <= y < M"}};
  auto S = shapes();
  for (auto &d : doms)
    for (size_t a = 0; a < S.size(); a++)
      for (size_t b = a; b < S.size(); b++) {
        auto txt = [&](int style, const string &par) {
          string t = par + " -> { ";
          for (size_t k : {a, b}) {
            if (k == b && k != a) t += "; ";
            else if (k == b && t.find(':') != string::npos) break;
            string src = S[k].src, dst = S[k].dst;
            if (style & 1) { src = rename(src, "_w0"); dst = rename(dst, k % 2 ? "_r1" : "_w0"); }
            if (style & 2) dst = "[" + dst + " -> A[o]]";
            t += src + " -> " + dst + " : " + S[k].cond + (style & 2 ? " and o = 2" : "");
          }
          return t + " }";
        };
        for (int style = 0; style < 4; style++)
          for (int order = 0; order < 2; order++) {
            if ((style || order) && b != a && b != a + 1) continue;
            Form f;
            f.id = d.id + ":" + S[a].id + (a == b ? "" : "+" + S[b].id) + ":" + to_string(style) + (order ? "r" : "");
            f.dom = f.rdom = "[N,M] -> { " + d.d0 + "; " + d.d1 + " }";
            f.dep = txt(style, order ? "[M,N]" : "[N,M]");
            f.rdep = txt(0, "[N,M]");
            f.exact = S[a].exact && S[b].exact;
            f.pars = pv;
            v.push_back(f);
          }
      }
  // parameters that only the dependences or only the domains have
  auto F = [&](const string &id, const string &dom, const string &dep, const string &rdom, const string &rdep, vector<Vec> p, bool exact = true) {
    Form f;
    f.id = id; f.dom = dom; f.dep = dep; f.rdom = rdom; f.rdep = rdep; f.pars = p; f.exact = exact;
    v.push_back(f);
  };
  F("depparam", "[N] -> { S_0[i] : 0 <= i < N }", "[M] -> { S_0[i] -> S_0[j] : j = i + 1 and 0 <= i < M and j < 4 }", "[N,M] -> { S_0[i] : 0 <= i < N }",
    "[N,M] -> { S_0[i] -> S_0[j] : j = i + 1 and 0 <= i < M and j < 4 }", {{4, 3}, {4, 2}, {5, 9}});
  F("domparam", "[N] -> { S_0[i] : 0 <= i < N }", "{ S_0[i] -> S_0[j] : j = i + 1 and 0 <= i < 3 }", "[N] -> { S_0[i] : 0 <= i < N }", "[N] -> { S_0[i] -> S_0[j] : j = i + 1 and 0 <= i < 3 }", {{4}, {7}});
  F("nopar", "{ S_0[i] : 0 <= i < 5 }", "{ S_0[i] -> S_0[i+1] : 0 <= i < 4 }", "{ S_0[i] : 0 <= i < 5 }", "{ S_0[i] -> S_0[i+1] : 0 <= i < 4 }", {{}});
  F("mixpar", "[N] -> { S_0[i] : 0 <= i < N; S_1[i] : 0 <= i < 3 }", "{ S_1[i] -> S_0[j] : i = j and 0 <= i < 3 }", "[N] -> { S_0[i] : 0 <= i < N; S_1[i] : 0 <= i < 3 }",
    "[N] -> { S_1[i] -> S_0[j] : i = j and 0 <= i < 3 }", {{4}, {7}});
  F("nodeps", "[N] -> { S_0[i] : 0 <= i < N; S_1[i,j] : 0 <= i,j < 3 }", "{ }", "[N] -> { S_0[i] : 0 <= i < N; S_1[i,j] : 0 <= i,j < 3 }", "[N] -> { }", {{4}});
  F("zerodim", "{ S_0[] ; S_1[i] : 0 <= i < 3 }", "{ S_0[] -> S_1[i] : 0 <= i < 3 }", "{ S_0[] ; S_1[i] : 0 <= i < 3 }", "{ S_0[] -> S_1[i] : 0 <= i < 3 }", {{}});
  F("emptydep", "{ S_0[i] : 0 <= i < 5 }", "{ S_0[i] -> S_0[i+1] : 0 <= i < 4; S_0[i] -> S_0[j] : i > j and i < j }", "{ S_0[i] : 0 <= i < 5 }", "{ S_0[i] -> S_0[i+1] : 0 <= i < 4 }", {{}});
  F("emptydom", "{ S_0[i] : 0 <= i < 5; S_1[i] : 0 <= i < 0 }", "{ S_0[i] -> S_0[i+1] : 0 <= i < 4 }", "{ S_0[i] : 0 <= i < 5 }", "{ S_0[i] -> S_0[i+1] : 0 <= i < 4 }", {{}});
  F("emptypar", "[N] -> { S_0[i] : 0 <= i < 5; S_1[i] : 0 <= i < N and N <= 0 }", "{ S_0[i] -> S_0[i+1] : 0 <= i < 4 }", "[N] -> { S_0[i] : 0 <= i < 5 }", "[N] -> { S_0[i] -> S_0[i+1] : 0 <= i < 4 }", {{3}});
  // wrapped ranges whose array index is not determined without division
  for (string c : {"2*o = j", "2*o = i and j = i + 1", "o = 2*i and o = 2*j - 2", "i <= 2*o <= j", "3*o >= i and 3*o <= j", "j <= 2*o and 2*o <= j + 1"}) {
    string b = "0 <= i < j and j < 6";
    F("wrap:" + c, "{ S_0[i] : 0 <= i < 6 }", "{ S_0[i] -> [S_0[j] -> A[o]] : " + b + " and " + c + " }", "{ S_0[i] : 0 <= i < 6 }", "{ S_0[i] -> S_0[j] : exists o : " + b + " and " + c + " }", {{}}, false);
  }
  // many statements: names with two digits
  string d, e;
  for (int i = 0; i < 12; i++) d += (i ? "; " : "") + string("S_") + to_string(i) + "[i] : 0 <= i < " + to_string(2 + i % 3);
  for (int i = 1; i < 12; i++) e += (i > 1 ? "; " : "") + string("S_") + to_string(i - 1) + "[i] -> S_" + to_string(i) + "[i] : 0 <= i < 2";
  F("many", "{ " + d + " }", "{ " + e + " }", "{ " + d + " }", "{ " + e + " }", {{}});
  return v;
}
mc::Check make_c17s(const string &tier) {
  auto fs = std::make_shared<vector<Form>>(forms());
  auto sp = std::make_shared<Space>();
  fam_uniform(sp->progs, 0);
  fam_nonuniform(sp->progs, 1);
  fam_multi(sp->progs, 0);
  fam_shapes(sp->progs, 1);
  if (tier == "thorough") { fam_triples(sp->progs, 1); fam_optimal(sp->progs, 1); }
  sp->confs = {Conf{"default", {}, "", "", ""}};
  sp->product(true);
  auto base = make_space_check(sp, [](Space &s, uint64_t i) {
    const Inputs &in = s.inputs(i);
    Seen got;
    g_observe = [&](PlutoProg *p, const string &pt) { if (pt == "transformed") got = look(p); };
    isl_union_map *r = run_transform(s.ctx, in, s.confs[0]);
    g_observe = nullptr;
    isl_union_map_free(r);
    mc::count(k_runs);
    if (!got.set) return;
    mc::count(k_obj);
    auto rd = poly::rels_from_uset(in.dom);
    auto rr = poly::rels_from_umap(in.dep);
    bool exact = true;
    for (auto &x : rd) for (auto &b : x.parts) exact &= b.ndiv == 0;
    for (auto &x : rr) for (auto &b : x.parts) exact &= b.ndiv == 0;
    for (auto &c : in.conc) judge(got, rd, rr, c.par, exact, "program");
  });
  uint64_t nb = base.ncases;
  mc::Check c = base;
  auto as = std::make_shared<vector<AForm>>(aforms(tier == "thorough"));
  uint64_t nf = nb + fs->size();
  c.ncases = nf + as->size();
  c.case_id = [base, fs, nb, nf, as](uint64_t i) { return i >= nf ? "access:" + (*as)[i - nf].id : i < nb ? base.case_id(i) : "form:" + (*fs)[i - nb].id; };
  c.describe = [base, fs, nb, nf, as](uint64_t i) { return i >= nf ? "accesses " + (*as)[i - nf].id : i < nb ? base.describe(i) : (*fs)[i - nb].dom + "\n" + (*fs)[i - nb].dep; };
  c.run = [base, fs, nb, sp, nf, as](uint64_t i) {
    if (i < nb) { base.run(i); return; }
    static isl_ctx *ctx = nullptr;
    if (!ctx) { ctx = isl_ctx_alloc(); isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE); }
    if (i >= nf) { run_aform((*as)[i - nf], ctx); return; }
    const Form &f = (*fs)[i - nb];
    isl_union_set *rd0 = isl_union_set_read_from_str(ctx, f.rdom.c_str());
    isl_union_map *rr0 = isl_union_map_read_from_str(ctx, f.rdep.c_str());
    // enumeration wants the parameters of both in one order
    rr0 = isl_union_map_align_params(rr0, isl_union_set_get_space(rd0));
    rd0 = isl_union_set_align_params(rd0, isl_union_map_get_space(rr0));
    auto rd = poly::rels_from_uset(rd0);
    auto rr = poly::rels_from_umap(rr0);
    isl_union_set_free(rd0);
    isl_union_map_free(rr0);
    box_parts(rd);
    box_parts(rr);
    Seen got;
    g_observe = [&](PlutoProg *p, const string &pt) { if (pt == "transformed") got = look(p); };
    PlutoContext *pc = pluto_context_alloc();
    pc->options->silent = 1;
    pc->options->tile = 0;
    pc->options->isldepaccesswise = 0;
    isl_union_map *r = pluto_transform(isl_union_set_read_from_str(ctx, f.dom.c_str()), isl_union_map_read_from_str(ctx, f.dep.c_str()), nullptr, nullptr, pc);
    pluto_context_free(pc);
    g_observe = nullptr;
    mc::count(k_runs);
    isl_union_map_free(r);
    if (!got.set) return;
    mc::count(k_obj);
    for (auto &p : f.pars) judge(got, rd, rr, p, f.exact, "form");
  };
  c.bounds = "the program families, and every dependence shape in every written form: with access suffixes, wrapped ranges, parameters in another order or only on one side, several pieces, existentials; accesses of up to 21 statements with up to three subscripts and parameters";
  return c;
}
