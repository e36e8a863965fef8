// C12: index-set splitting on enumerated programs. Statement domains and
// dependences are enumerated point by point before and after.
#include "unit.h"
#include <algorithm>
#include <cstring>
#include <set>
#include <gmp.h>
extern "C" {
#include "constraints.h"
#include "math_support.h"
#include "pluto.h"
#include "pluto/matrix.h"
#include "pluto/pluto.h"
#include "program.h"
}
using poly::Vec;
using std::set;
using std::string;
using std::vector;
static int k_prog = mc::counter_decl("programs"), k_split = mc::counter_decl("programs_split"), k_cuts = mc::counter_decl("statements_after"),
           k_inst = mc::counter_decl("instances"), k_pairs = mc::counter_decl("dependence_pairs"), k_mid = mc::counter_decl("midpoints_checked");
namespace {
typedef vector<std::pair<Vec, bool>> Rows; // row, is equality
struct DepSpec {
  int src, dest;
  Rows rows;
  PlutoDepType type;
};
struct StmtSpec {
  int dim;
  Rows dom;
  Mat trans;
};
struct World {
  int npar = 1;
  vector<StmtSpec> st;
  vector<DepSpec> deps;
  string name;
};
typedef set<std::pair<Vec, Vec>> Pairs;
Vec PARS = {-1, 0, 1, 2, 5};
vector<Vec> params(int npar) {
  vector<Vec> r;
  if (npar == 0) return {{}};
  if (npar == 1) { for (long v : PARS) r.push_back({v}); return r; }
  for (long a : {0L, 1L, 4L, 7L}) for (long b : {0L, 2L, 5L}) r.push_back({a, b});
  return r;
}
poly::Sys sys_of(const PlutoConstraints *c) {
  poly::Sys s;
  s.nv = c->ncols - 1;
  for (unsigned i = 0; i < c->nrows; i++) (c->is_eq[i] ? s.eq : s.ineq).push_back(Vec(c->val[i], c->val[i] + c->ncols));
  return s;
}
set<Vec> pts(const PlutoConstraints *c, int n, const Vec &par) {
  set<Vec> r;
  for (; c; c = c->next) {
    poly::Sys s = sys_of(c);
    vector<char> fx(s.nv, 0);
    Vec v(s.nv, 0);
    for (size_t i = 0; i < par.size(); i++) { fx[n + i] = 1; v[n + i] = par[i]; }
    poly::enumerate(s, fx, v, [&](const Vec &x) { r.insert(Vec(x.begin(), x.begin() + n)); return true; });
  }
  return r;
}
PlutoConstraints *mk(const Rows &rs, int ncols, PlutoContext *pc) {
  PlutoConstraints *c = pluto_constraints_alloc(rs.size() + 1, ncols, pc);
  for (auto &r : rs) {
    if (r.second) pluto_constraints_add_equality(c); else pluto_constraints_add_inequality(c);
    for (int j = 0; j < ncols; j++) c->val[c->nrows - 1][j] = r.first[j];
  }
  return c;
}
struct Facts { // what must be kept, per original statement and dependence kind
  int nst = 0;
  vector<vector<set<Vec>>> dom; // statement, parameter
  vector<string> look;          // text, dimension, accesses, position
  std::map<std::tuple<string, string, int>, vector<Pairs>> deps;
};
string text_of(const Stmt *s) { return s->text ? s->text : "?"; }
string mat(const PlutoMatrix *m) {
  string r;
  if (!m) return "none";
  for (unsigned i = 0; i < m->nrows; i++) r += poly::show(Vec(m->val[i], m->val[i] + m->ncols));
  return r;
}
string look(const Stmt *s) {
  string r = text_of(s) + " dim " + std::to_string(s->dim) + "/" + std::to_string(s->dim_orig) + " at " + mat(s->trans) + " type " + std::to_string(s->type);
  for (unsigned i = 0; i < s->dim; i++) r += string(" ") + (s->iterators[i] ? s->iterators[i] : "?") + (s->is_orig_loop[i] ? "+" : "-");
  for (int i = 0; i < s->nreads; i++) r += string(" r ") + s->reads[i]->name + mat(s->reads[i]->mat);
  for (int i = 0; i < s->nwrites; i++) r += string(" w ") + s->writes[i]->name + mat(s->writes[i]->mat);
  return r;
}
// Reads a program off; also checks that every dependence lies in the domains of
// the statements it connects.
bool read(const PlutoProg *p, const vector<Vec> &pv, Facts &f, const string &w) {
  f.nst = p->nstmts;
  for (unsigned i = 0; i < p->nstmts; i++) {
    const Stmt *s = p->stmts[i];
    if (s->id != (int)i) { mc::fail("id", w + ": statement " + std::to_string(i) + " has number " + std::to_string(s->id)); return false; }
    f.look.push_back(look(s));
    f.dom.emplace_back();
    for (auto &v : pv) f.dom.back().push_back(pts(s->domain, s->dim, v));
  }
  for (int k = 0; k < p->ndeps; k++) {
    const Dep *d = p->deps[k];
    if (d->src < 0 || d->dest < 0 || d->src >= (int)p->nstmts || d->dest >= (int)p->nstmts) { mc::fail("range", w + ": dependence between statements " + std::to_string(d->src) + " and " + std::to_string(d->dest)); return false; }
    const Stmt *a = p->stmts[d->src], *b = p->stmts[d->dest];
    if (d->dpolytope->ncols != a->dim + b->dim + p->npar + 1) { mc::fail("width", w + ": dependence " + std::to_string(k) + " has " + std::to_string(d->dpolytope->ncols) + " columns"); return false; }
    auto &slot = f.deps[std::make_tuple(text_of(a), text_of(b), (int)d->type)];
    slot.resize(pv.size());
    for (size_t v = 0; v < pv.size(); v++)
      for (auto &x : pts(d->dpolytope, a->dim + b->dim, pv[v])) {
        mc::count(k_pairs);
        Vec s(x.begin(), x.begin() + a->dim), t(x.begin() + a->dim, x.end());
        if (!f.dom[d->src][v].count(s) || !f.dom[d->dest][v].count(t)) { mc::fail("outside", w + ": dependence " + std::to_string(k) + " contains " + poly::show(s) + " -> " + poly::show(t) + " at " + poly::show(pv[v]) + ", outside its statements' domains"); return false; }
        slot[v].insert({s, t});
      }
  }
  return true;
}
bool compare(const Facts &a, const Facts &b, const vector<Vec> &pv, const string &w, const PlutoProg *p) {
  mc::count(k_cuts, b.nst);
  for (int i = 0; i < a.nst; i++) {
    for (size_t v = 0; v < pv.size(); v++) {
      size_t n = 0;
      set<Vec> all;
      for (int j = 0; j < b.nst; j++) if (b.look[j] == a.look[i]) { n += b.dom[j][v].size(); all.insert(b.dom[j][v].begin(), b.dom[j][v].end()); }
      mc::count(k_inst, n);
      if (all != a.dom[i][v]) { mc::fail("domain", w + ": the parts of statement " + std::to_string(i) + " (" + a.look[i] + ") have " + std::to_string(all.size()) + " instances at " + poly::show(pv[v]) + ", the statement had " + std::to_string(a.dom[i][v].size())); return false; }
      if (n != all.size()) { mc::fail("overlap", w + ": the parts of statement " + std::to_string(i) + " overlap at " + poly::show(pv[v])); return false; }
    }
  }
  for (int j = 0; j < b.nst; j++) if (std::find(a.look.begin(), a.look.end(), b.look[j]) == a.look.end()) { mc::fail("stray", w + ": statement " + std::to_string(j) + " is not a part of any: " + b.look[j]); return false; }
  set<std::tuple<string, string, int>> keys;
  for (auto &x : a.deps) keys.insert(x.first);
  for (auto &x : b.deps) keys.insert(x.first);
  for (auto &k : keys) {
    vector<Pairs> none(pv.size());
    const vector<Pairs> &x = a.deps.count(k) ? a.deps.at(k) : none, &y = b.deps.count(k) ? b.deps.at(k) : none;
    for (size_t v = 0; v < pv.size(); v++) if (x[v] != y[v]) { mc::fail("dependences", w + ": the dependences from " + std::get<0>(k) + " to " + std::get<1>(k) + " relate " + std::to_string(y[v].size()) + " pairs at " + poly::show(pv[v]) + ", before " + std::to_string(x[v].size())); return false; }
  }
  (void)p;
  return true;
}
PlutoProg *build(const World &w, PlutoContext *pc) {
  PlutoProg *p = pluto_prog_alloc(pc);
  pc->options->silent = 1;
  p->npar = w.npar;
  p->params = (char **)malloc(sizeof(char *) * std::max(1, w.npar));
  for (int i = 0; i < w.npar; i++) p->params[i] = strdup(i ? "M" : "N");
  const char *its[4] = {"i", "j", "k", "l"};
  for (size_t q = 0; q < w.st.size(); q++) {
    const StmtSpec &s = w.st[q];
    PlutoConstraints *dom = mk(s.dom, s.dim + w.npar + 1, pc);
    PlutoMatrix *t = pluto_matrix_alloc(s.trans.size(), s.dim + w.npar + 1, pc);
    for (size_t r = 0; r < s.trans.size(); r++) for (unsigned c = 0; c < t->ncols; c++) t->val[r][c] = s.trans[r][c];
    pluto_add_stmt(p, dom, t, (char **)its, ("S" + std::to_string(q)).c_str(), ORIG);
    Stmt *st = p->stmts[q];
    for (int i = 0; i < s.dim; i++) st->is_orig_loop[i] = true;
    auto acc = [&](const string &nm, long shift) {
      PlutoAccess *a = (PlutoAccess *)calloc(1, sizeof(PlutoAccess));
      a->mat = pluto_matrix_alloc(1, s.dim + w.npar + 1, pc);
      pluto_matrix_set(a->mat, 0);
      if (s.dim) a->mat->val[0][s.dim - 1] = 1;
      a->mat->val[0][s.dim + w.npar] = shift;
      a->name = strdup(nm.c_str());
      return a;
    };
    st->nreads = 1 + q % 2;
    st->reads = (PlutoAccess **)malloc(sizeof(PlutoAccess *) * st->nreads);
    for (int i = 0; i < st->nreads; i++) st->reads[i] = acc("A", i + q);
    st->nwrites = 1;
    st->writes = (PlutoAccess **)malloc(sizeof(PlutoAccess *));
    st->writes[0] = acc(q ? "B" : "A", -(long)q);
    pluto_constraints_free(dom);
    pluto_matrix_free(t);
  }
  p->ndeps = w.deps.size();
  p->deps = (Dep **)malloc(sizeof(Dep *) * (p->ndeps + 1));
  for (int k = 0; k < p->ndeps; k++) {
    const DepSpec &d = w.deps[k];
    Dep *e = pluto_dep_alloc();
    e->id = k;
    e->src = d.src;
    e->dest = d.dest;
    e->type = d.type;
    int ds = w.st[d.src].dim, dd = w.st[d.dest].dim;
    Rows rs;
    for (auto &r : w.st[d.src].dom) { Vec v(r.first.begin(), r.first.begin() + ds); v.resize(ds + dd, 0); v.insert(v.end(), r.first.begin() + ds, r.first.end()); rs.push_back({v, r.second}); }
    for (auto &r : w.st[d.dest].dom) { Vec v(ds, 0); v.insert(v.end(), r.first.begin(), r.first.end()); rs.push_back({v, r.second}); }
    rs.insert(rs.end(), d.rows.begin(), d.rows.end());
    e->dpolytope = mk(rs, ds + dd + w.npar + 1, pc);
    pluto_constraints_set_names_range(e->dpolytope, p->stmts[d.src]->iterators, 0, 0, ds);
    pluto_constraints_set_names_range(e->dpolytope, p->stmts[d.dest]->iterators, ds, 0, dd);
    pluto_constraints_set_names_range(e->dpolytope, p->params, ds + dd, 0, w.npar);
    e->bounding_poly = pluto_constraints_dup(e->dpolytope);
    p->deps[k] = e;
  }
  return p;
}
string show(const World &w) {
  string s = w.name + ":";
  for (auto &t : w.st) { s += " stmt{"; for (auto &r : t.dom) s += poly::show(r.first) + (r.second ? "=0 " : ">=0 "); s += "}"; }
  for (auto &d : w.deps) { s += " dep " + std::to_string(d.src) + "->" + std::to_string(d.dest) + "{"; for (auto &r : d.rows) s += poly::show(r.first) + (r.second ? "=0 " : ">=0 "); s += "}"; }
  return s;
}
// mode -1: pluto_iss_dep; otherwise split statement `mode` by the given cuts.
bool one(const World &w, int mode, const vector<Rows> &cuts, int expect) {
  mc::count(k_prog);
  PlutoContext *pc = pluto_context_alloc();
  PlutoProg *p = build(w, pc);
  vector<Vec> pv = params(w.npar);
  Facts a, b;
  string nm = show(w);
  bool ok = read(p, pv, a, nm + " (before)");
  if (ok && mode < 0) {
    pluto_iss_dep(p);
    ok = read(p, pv, b, nm);
    if (ok && b.nst > a.nst) mc::count(k_split);
    if (ok && expect > 0 && b.nst != expect) { mc::fail("notsplit", nm + ": split into " + std::to_string(b.nst) + " statements, expected " + std::to_string(expect)); ok = false; }
  } else if (ok) {
    vector<PlutoConstraints *> cs;
    for (auto &c : cuts) cs.push_back(mk(c, w.st[mode].dim + w.npar + 1, pc));
    pluto_iss(p->stmts[mode], cs.data(), cs.size(), p);
    mc::count(k_split);
    for (int k = 0; ok && k < p->ndeps; k++) if (p->deps[k]->src == mode || p->deps[k]->dest == mode) { mc::fail("old", nm + ": a dependence of the statement that was split is left"); ok = false; }
    if (ok) pluto_remove_stmt(p, mode);
    if (ok) ok = read(p, pv, b, nm);
    if (ok && b.nst != a.nst - 1 + (int)cuts.size()) { mc::fail("count", nm + ": " + std::to_string(b.nst) + " statements after splitting into " + std::to_string(cuts.size())); ok = false; }
    for (auto c : cs) pluto_constraints_free(c);
  }
  if (ok) ok = compare(a, b, pv, nm, p);
  pluto_prog_free(p);
  pluto_context_free(pc);
  return ok;
}
// The cut found for a set of dependences: non-trivial, near all mid-points.
bool mid(const World &w) {
  PlutoContext *pc = pluto_context_alloc();
  PlutoProg *p = build(w, pc);
  vector<const PlutoConstraints *> doms;
  for (int k = 0; k < p->ndeps; k++) doms.push_back(p->deps[k]->dpolytope);
  PlutoConstraints *h = pluto_find_iss(doms.data(), doms.size(), w.npar, NULL);
  bool ok = true;
  int n = w.st[0].dim;
  if (h) {
    bool nz = false;
    for (int i = 0; i < n; i++) nz = nz || h->val[0][i] != 0;
    if (!nz) { mc::fail("trivial", show(w) + ": the cut found is trivial"); ok = false; }
    for (auto d : doms) for (auto &v : params(w.npar)) for (auto &x : pts(d, 2 * n, v)) {
      if (!ok) break;
      mc::count(k_mid);
      long z = 2 * h->val[0][n + w.npar];
      for (int i = 0; i < w.npar; i++) z += 2 * h->val[0][n + i] * v[i];
      for (int i = 0; i < n; i++) z += h->val[0][i] * (x[i] + x[n + i]);
      if (z > 5 || z < -5) { mc::fail("far", show(w) + ": the cut " + poly::show(Vec(h->val[0], h->val[0] + h->ncols)) + " is " + std::to_string(z) + "/2 away from the middle of " + poly::show(x) + " at " + poly::show(v)); ok = false; }
    }
    pluto_constraints_free(h);
  }
  pluto_prog_free(p);
  pluto_context_free(pc);
  return ok;
}
// One-dimensional relations over (s, t, N, 1).
struct R1 { Rows r; string n; };
const vector<R1> &menu1() {
  static const vector<R1> m = {
      {{{{-1, 1, 0, -1}, true}}, "t=s+1"},
      {{{{-1, 1, 0, 2}, true}}, "t=s-2"},
      {{{{-1, 1, 0, 0}, true}}, "t=s"},
      {{{{1, 1, -1, 1}, true}}, "s+t=N-1"},
      {{{{1, 1, -1, 0}, true}}, "s+t=N"},
      {{{{1, 1, -1, 1}, true}, {{-1, 1, 0, -1}, false}}, "s+t=N-1,t>s"},
      {{{{1, 0, 0, 0}, true}, {{0, 1, -1, 1}, true}}, "s=0,t=N-1"},
      {{{{0, 1, 0, 0}, true}, {{1, 0, -1, 1}, true}}, "s=N-1,t=0"},
      {{{{1, 0, 0, 0}, true}}, "s=0"},
      {{{{-2, 1, 0, 0}, true}}, "t=2s"},
      {{{{1, 1, 0, -7}, true}}, "s+t=7"},
      {{{{2, 2, -1, 0}, true}}, "2s+2t=N"},
      {{{{1, 1, -1, 1}, false}, {{-1, -1, 1, 1}, false}}, "|s+t-N|<=1"},
      {{{{-1, 1, 0, -1}, true}, {{-1, 1, 0, 1}, true}}, "empty"},
      {{}, "all"},
  };
  return m;
}
// Embeds one-dimensional relations into (s_0..s_n-1, t_0..t_n-1, params, 1).
void embed(Rows &out, const Rows &r, int at, int n, int npar) {
  for (auto &x : r) {
    Vec v(2 * n + npar + 1, 0);
    v[at] = x.first[0];
    v[n + at] = x.first[1];
    if (npar) v[2 * n] = x.first[2];
    v[2 * n + npar] = x.first[3] + (npar ? 0 : 6 * x.first[2]);
    out.push_back({v, x.second});
  }
}
StmtSpec stmt(int dim, int npar, int kind, int pos, bool fused) {
  StmtSpec s;
  s.dim = dim;
  for (int i = 0; i < dim; i++) {
    Vec lo(dim + npar + 1, 0), hi(dim + npar + 1, 0);
    lo[i] = 1;
    hi[i] = -1;
    hi.back() = -1;
    if (npar == 0) hi.back() = 5;
    else hi[dim + (kind == 2 && i == 0 && npar > 1 ? 1 : 0)] = 1;
    if (kind == 1 && i > 0) { lo[0] = -1; } // i_k >= i_0
    if (kind == 3) { hi = lo; hi[i] = -1; hi.back() = 5; lo.back() = 0; for (int q = 0; q < npar; q++) hi[dim + q] = 0; }
    s.dom.push_back({lo, false});
    s.dom.push_back({hi, false});
  }
  // fused: loops then position; otherwise position first
  auto posrow = [&]() { Vec v(dim + npar + 1, 0); v.back() = pos; s.trans.push_back(v); };
  if (!fused) posrow();
  for (int i = 0; i < dim; i++) { Vec v(dim + npar + 1, 0); v[i] = 1; s.trans.push_back(v); }
  if (fused) posrow();
  return s;
}
} // namespace

mc::Check make_c12(const string &tier) {
  bool th = tier == "thorough";
  if (th) PARS = {-2, 0, 1, 2, 3, 5, 8};
  auto g = std::make_shared<Groups>();
  const auto &M = menu1();
  // one dimension: all sets of up to three dependences, one or two statements
  for (size_t a = 0; a < M.size(); a++)
    for (int kind : {0, 3})
      g->add("d1:" + M[a].n + ":" + std::to_string(kind), [=]() {
        const auto &M = menu1();
        for (int npar = kind == 3 ? 0 : 1; npar <= 2; npar++)
          for (size_t b = a; b <= M.size(); b++)
            for (size_t c = b; c <= M.size(); c++) {
              if (b == M.size() && c > b) continue;
              if (!th && c < M.size() && (b == a || c == b)) continue;
              World w;
              w.npar = npar;
              w.name = "1D";
              w.st = {stmt(1, npar, kind, 0, true)};
              for (size_t k : {a, b, c}) if (k < M.size()) { Rows r; embed(r, M[k].r, 0, 1, npar); w.deps.push_back({0, 0, r, k % 2 ? PLUTO_DEP_RAW : PLUTO_DEP_WAR}); }
              if (!one(w, -1, {}, 0) || !mid(w)) return;
              if (b > a && c == M.size()) { // the second dependence between two statements, fused or not
                for (int fused = 0; fused < 2; fused++) for (int rev = 0; rev < 2; rev++) {
                  World v = w;
                  v.st = {stmt(1, npar, kind, 0, fused), stmt(1, npar, kind, 1, fused)};
                  if (v.deps.size() > 1) { v.deps[1].src = rev; v.deps[1].dest = 1 - rev; }
                  v.deps.push_back(v.deps[0]);
                  v.deps.back().src = v.deps.back().dest = 1;
                  v.name = fused ? "1D-fused" : "1D-separate";
                  if (!one(v, -1, {}, 0)) return;
                }
              }
            }
      });
  // two and three dimensions: products of one-dimensional relations
  for (size_t a = 0; a < M.size(); a++)
    for (size_t b = 0; b < M.size(); b++) {
      g->add("d2:" + M[a].n + ";" + M[b].n, [=]() {
        const auto &M = menu1();
        for (int npar = 0; npar <= 2; npar++)
          for (int kind = 0; kind < 3; kind++)
            for (size_t c = 0; c <= M.size(); c++) {
              World w;
              w.npar = npar;
              w.name = "2D";
              w.st = {stmt(2, npar, kind, 0, true)};
              Rows r;
              embed(r, M[a].r, 0, 2, npar);
              embed(r, M[b].r, 1, 2, npar);
              w.deps.push_back({0, 0, r, PLUTO_DEP_RAW});
              if (c < M.size()) { Rows q; embed(q, M[0].r, c % 2, 2, npar); embed(q, M[c].r, 1 - c % 2, 2, npar); w.deps.push_back({0, 0, q, PLUTO_DEP_RAW}); }
              if (!one(w, -1, {}, 0) || !mid(w)) return;
              if (c == 3 || c == 8) {
                World v = w;
                v.name = "2D-two";
                v.st.push_back(stmt(2, npar, kind, 1, true));
                v.deps[1].dest = 1;
                v.deps.push_back(v.deps[0]);
                v.deps.back().src = v.deps.back().dest = 1;
                if (!one(v, -1, {}, 0)) return;
              }
            }
      });
      if (th || ((a == 3 || a == 4 || a == 6 || a == 0) && (b == 3 || b == 4 || b == 10 || b == 7)))
        g->add("d3:" + M[a].n + ";" + M[b].n, [=]() {
          const auto &M = menu1();
          for (int npar = 1; npar <= 2; npar++)
            for (size_t c = 0; c < M.size() - 1; c++) for (int pl = 0; pl < 3; pl++) {
              World w;
              w.npar = npar;
              w.name = "3D";
              w.st = {stmt(3, npar, 3, 0, true)};
              // separate dependences per dimension, the others uniform or equal
              for (int d = 0; d < 3; d++) {
                size_t m = d == 0 ? a : d == 1 ? b : c;
                Rows r;
                embed(r, M[m].r, (d + pl) % 3, 3, npar);
                embed(r, M[0].r, (d + pl + 1) % 3, 3, npar);
                embed(r, M[2].r, (d + pl + 2) % 3, 3, npar);
                w.deps.push_back({0, 0, r, PLUTO_DEP_RAW});
              }
              if (!one(w, -1, {}, 0) || !mid(w)) return;
            }
        });
    }
  // explicit cuts: every way of cutting by up to two hyperplanes, statements of
  // different dimensions around
  {
    Rows hs; // over (i, j, N, 1)
    for (long a : {0L, 1L, 2L}) for (long b : {-1L, 0L, 1L}) for (long p : {0L, -1L}) for (long c : {-3L, 0L, 1L}) if (a || b) hs.push_back({{a, b, p, c}, true});
    auto half = [](const Vec &h, bool neg) { Vec v = h; if (neg) { for (auto &x : v) x = -x; v.back() -= 1; } return std::make_pair(v, false); };
    for (size_t x = 0; x < hs.size(); x++)
      g->add("cuts:" + poly::show(hs[x].first), [=]() {
        for (size_t y = x; y < hs.size(); y++)
          for (int dim = 1; dim <= 2; dim++) {
            auto cut = [&](const Vec &h) { return dim == 2 ? h : Vec{h[0], h[2], h[3]}; };
            if (dim == 1 && (hs[x].first[1] || hs[y].first[1] || !hs[x].first[0] || !hs[y].first[0])) continue;
            Vec A = cut(hs[x].first), B = cut(hs[y].first);
            vector<vector<Rows>> cs;
            cs.push_back({{half(A, true)}, {half(A, false)}});
            if (y > x) {
              cs.push_back({{half(A, true), half(B, true)}, {half(A, false), half(B, true)}, {half(A, true), half(B, false)}, {half(A, false), half(B, false)}});
              cs.push_back({{half(A, true)}, {half(A, false), half(B, true)}, {half(A, false), half(B, false)}});
            }
            for (int at = 0; at < 3; at++) for (int dk = 0; dk < (th ? 6 : 4); dk++) {
              World w;
              w.npar = 1;
              w.name = "cut S" + std::to_string(at) + " by " + poly::show(A) + (y > x ? poly::show(B) : "");
              int dims[3];
              for (int q = 0; q < 3; q++) { dims[q] = q == at ? dim : (dim + q) % 3; w.st.push_back(stmt(dims[q], 1, 0, q, false)); }
              // a self dependence, and dependences from and to the next statements
              int nx = (at + 1) % 3, nn = (at + 2) % 3;
              Rows self;
              embed(self, menu1()[vector<int>{0, 3, 8, 13, 9, 14}[dk]].r, 0, dim, 1);
              w.deps.push_back({at, at, self, PLUTO_DEP_RAW});
              w.deps.push_back({at, nx, {}, PLUTO_DEP_RAW});
              w.deps.push_back({nn, at, {}, PLUTO_DEP_WAW});
              w.deps.push_back({nx, nn, {}, PLUTO_DEP_WAR});
              if (dk == 2) w.deps.erase(w.deps.begin() + 3);
              if (dk == 3) { w.deps.clear(); self.clear(); embed(self, menu1()[13].r, 0, dim, 1); w.deps.push_back({at, at, self, PLUTO_DEP_RAW}); }
              for (auto &c : cs) if (!one(w, at, c, 0)) return;
            }
          }
      });
  }
  return make_groups(g, "index-set splitting of programs with one or two statements of up to three dimensions and up to three dependences composed of fifteen one-dimensional relations "
                        "(uniform, mirrored, wrapping, broadcast, empty); splitting by every pair of hyperplanes with small coefficients next to statements of other dimensions; "
                        "all instances at parameter values -1..5 (thorough: -2..8)");
}
