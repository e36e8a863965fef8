// C19: edits of the program representation. All sequences of edits up to a
// depth are applied to small programs and to a model of them; afterwards the
// two have to describe the same program.
#include "unit.h"
#include <algorithm>
#include <cstring>
#include <set>
#include <gmp.h>
extern "C" {
#include "constraints.h"
#include "math_support.h"
#include "pluto.h"
#include "pluto/matrix.h"
#include "pluto/pluto.h"
#include "program.h"
#include "transforms.h"
}
using poly::Vec;
using std::set;
using std::string;
using std::to_string;
using std::vector;
static int k_seq = mc::counter_decl("edit_sequences"), k_edit = mc::counter_decl("edits"), k_pts = mc::counter_decl("points_compared"),
           k_view = mc::counter_decl("views_evaluated");
namespace {
typedef vector<std::pair<Vec, bool>> Rows; // row, is equality
struct MAcc { string name; Mat m; };
struct MStmt {
  int dim, orig;
  Rows dom;
  Mat trans;
  vector<int> types; // -1: not checked
  vector<string> its;
  vector<char> loop;
  vector<MAcc> reads, writes;
  string text;
  int type = ORIG;
};
struct MDep { int src, dest; Rows rows, brows; int type; };
struct Model {
  int npar = 1;
  vector<string> params;
  vector<MStmt> st;
  vector<MDep> deps, tdeps;
  Rows ctx;
  vector<int> hyps; // types
};
Vec ins(Vec v, int pos) { v.insert(v.begin() + pos, 0); return v; }
void inscol(Rows &r, int pos) { for (auto &x : r) x.first = ins(x.first, pos); }
void inscol(Mat &r, int pos) { for (auto &x : r) x = ins(x, pos); }
void delcol(Rows &r, int pos) { for (auto &x : r) x.first.erase(x.first.begin() + pos); }
void delcol(Mat &r, int pos) { for (auto &x : r) x.erase(x.begin() + pos); }
string mat(const Mat &m) { string r; for (auto &x : m) r += poly::show(x); return r; }
string mat(const PlutoMatrix *m) {
  string r;
  for (unsigned i = 0; i < m->nrows; i++) r += poly::show(Vec(m->val[i], m->val[i] + m->ncols));
  return r;
}
long dot(const Vec &r, const Vec &x) {
  long z = r.back();
  for (size_t i = 0; i + 1 < r.size(); i++) z += r[i] * x[i];
  return z;
}
bool holds(const Rows &rs, const Vec &x) {
  for (auto &r : rs) { long z = dot(r.first, x); if (r.second ? z != 0 : z < 0) return false; }
  return true;
}
Rows rows_of(const PlutoConstraints *c) {
  Rows r;
  for (unsigned i = 0; i < c->nrows; i++) r.push_back({Vec(c->val[i], c->val[i] + c->ncols), c->is_eq[i] != 0});
  return r;
}
// The same integer points in a box around the programs' instances. The box is
// split along the columns that both sides leave free.
bool same(const PlutoConstraints *c, const Rows &want, int n, const string &what) {
  if (!c) { mc::fail("none", what + " is missing"); return false; }
  if ((int)c->ncols != n + 1) { mc::fail("width", what + " has " + to_string(c->ncols) + " columns, " + to_string(n + 1) + " expected"); return false; }
  if (c->next) { mc::fail("list", what + " has become a union"); return false; }
  Rows have = rows_of(c);
  vector<int> used;
  for (int j = 0; j < n; j++) {
    bool u = false;
    for (auto &r : have) u = u || r.first[j];
    for (auto &r : want) u = u || r.first[j];
    if (u) used.push_back(j);
  }
  Vec vals = used.size() > 6 ? Vec{-1, 0, 1, 2} : Vec{-2, -1, 0, 1, 2, 3};
  Vec x(n, 0);
  bool ok = true;
  product(vals, used.size(), [&](const Vec &v) {
    for (size_t q = 0; q < used.size(); q++) x[used[q]] = v[q];
    mc::count(k_pts);
    if (holds(have, x) != holds(want, x)) {
      mc::fail("points", what + (holds(have, x) ? " contains " : " lacks ") + poly::show(x));
      ok = false;
    }
    return ok;
  });
  return ok;
}
PlutoConstraints *mk(const Rows &rs, int ncols, PlutoContext *pc) {
  PlutoConstraints *c = pluto_constraints_alloc(rs.size() + 1, ncols, pc);
  for (auto &r : rs) {
    if (r.second) pluto_constraints_add_equality(c); else pluto_constraints_add_inequality(c);
    for (int j = 0; j < ncols; j++) c->val[c->nrows - 1][j] = r.first[j];
  }
  return c;
}
PlutoMatrix *mkm(const Mat &m, int ncols, PlutoContext *pc) {
  PlutoMatrix *t = pluto_matrix_alloc(m.size(), ncols, pc);
  for (size_t r = 0; r < m.size(); r++) for (int c = 0; c < ncols; c++) t->val[r][c] = m[r][c];
  return t;
}
void fill(Stmt *st, const MStmt &s, int ncols, PlutoContext *pc) {
  auto accs = [&](const vector<MAcc> &v, PlutoAccess **&out, int &n) {
    n = v.size();
    out = (PlutoAccess **)malloc(sizeof(PlutoAccess *) * (n + 1));
    for (int i = 0; i < n; i++) {
      out[i] = (PlutoAccess *)calloc(1, sizeof(PlutoAccess));
      out[i]->mat = mkm(v[i].m, ncols, pc);
      out[i]->name = strdup(v[i].name.c_str());
    }
  };
  for (int i = 0; i < s.dim; i++) st->is_orig_loop[i] = s.loop[i];
  accs(s.reads, st->reads, st->nreads);
  accs(s.writes, st->writes, st->nwrites);
}
void add_stmt(PlutoProg *p, const MStmt &s, int npar) {
  int nc = s.dim + npar + 1;
  PlutoConstraints *dom = mk(s.dom, nc, p->context);
  PlutoMatrix *t = mkm(s.trans, nc, p->context);
  vector<char *> its;
  for (auto &i : s.its) its.push_back((char *)i.c_str());
  its.push_back(NULL);
  pluto_add_stmt(p, dom, t, its.data(), s.text.c_str(), ORIG);
  fill(p->stmts[p->nstmts - 1], s, nc, p->context);
  pluto_constraints_free(dom);
  pluto_matrix_free(t);
}
Dep *mkdep(const MDep &d, int id, int ncols, PlutoContext *pc) {
  Dep *e = pluto_dep_alloc();
  e->id = id;
  e->src = d.src;
  e->dest = d.dest;
  e->type = (PlutoDepType)d.type;
  e->dpolytope = mk(d.rows, ncols, pc);
  e->bounding_poly = mk(d.brows, ncols, pc);
  return e;
}
int width(const Model &m, const MDep &d) { return m.st[d.src].dim + m.st[d.dest].dim + m.npar; }
PlutoProg *build(const Model &m, PlutoContext *pc) {
  PlutoProg *p = pluto_prog_alloc(pc);
  p->npar = m.npar;
  p->params = (char **)malloc(sizeof(char *) * std::max(1, m.npar));
  for (int i = 0; i < m.npar; i++) p->params[i] = strdup(m.params[i].c_str());
  pluto_constraints_free(p->param_context);
  pluto_constraints_free(p->codegen_context);
  p->param_context = mk(m.ctx, m.npar + 1, pc);
  p->codegen_context = mk(m.ctx, m.npar + 1, pc);
  for (auto &s : m.st) add_stmt(p, s, m.npar);
  p->ndeps = m.deps.size();
  p->deps = (Dep **)malloc(sizeof(Dep *) * (p->ndeps + 1));
  for (int k = 0; k < p->ndeps; k++) p->deps[k] = mkdep(m.deps[k], k, width(m, m.deps[k]) + 1, pc);
  p->ntransdeps = m.tdeps.size();
  p->transdeps = (Dep **)malloc(sizeof(Dep *) * (p->ntransdeps + 1));
  for (int k = 0; k < p->ntransdeps; k++) p->transdeps[k] = mkdep(m.tdeps[k], k, width(m, m.tdeps[k]) + 1, pc);
  return p;
}
// The model of padding: statements get zero rows up to the longest.
void pad(Model &m) {
  size_t mx = 0;
  for (auto &s : m.st) mx = std::max(mx, s.trans.size());
  for (auto &s : m.st) while (s.trans.size() < mx) { s.trans.push_back(Vec(s.dim + m.npar + 1, 0)); s.types.push_back(H_SCALAR); }
  while (m.hyps.size() < mx) m.hyps.push_back(H_SCALAR);
}
bool view(const PlutoProg *p, const Model &m, const string &w);
bool compare(const PlutoProg *p, const Model &m, const string &w) {
  if (p->nstmts != (int)m.st.size() || p->npar != m.npar || p->ndeps != (int)m.deps.size() || p->ntransdeps != (int)m.tdeps.size() || p->num_hyperplanes != (int)m.hyps.size()) {
    mc::fail("shape", w + ": " + to_string(p->nstmts) + " statements, " + to_string(p->npar) + " parameters, " + to_string(p->ndeps) + "+" + to_string(p->ntransdeps) + " dependences, " + to_string(p->num_hyperplanes) + " levels; expected " + to_string(m.st.size()) + ", " + to_string(m.npar) + ", " + to_string(m.deps.size()) + "+" + to_string(m.tdeps.size()) + ", " + to_string(m.hyps.size()));
    return false;
  }
  for (int i = 0; i < m.npar; i++) if (m.params[i] != p->params[i]) { mc::fail("params", w + ": parameter " + to_string(i) + " is called " + p->params[i] + ", not " + m.params[i]); return false; }
  for (size_t i = 0; i < m.hyps.size(); i++) if (p->hProps[i].type != m.hyps[i]) { mc::fail("levels", w + ": level " + to_string(i) + " is of kind " + to_string(p->hProps[i].type) + ", not " + to_string(m.hyps[i])); return false; }
  for (auto c : {p->param_context, p->codegen_context}) if (!same(c, m.ctx, m.npar, w + ": the context")) return false;
  for (size_t i = 0; i < m.st.size(); i++) {
    const Stmt *s = p->stmts[i];
    const MStmt &q = m.st[i];
    string v = w + ": statement " + to_string(i);
    if (s->id != (int)i) { mc::fail("id", v + " has number " + to_string(s->id)); return false; }
    if ((int)s->dim != q.dim || (int)s->dim_orig != q.orig) { mc::fail("dim", v + " has " + to_string(s->dim) + "/" + to_string(s->dim_orig) + " dimensions, not " + to_string(q.dim) + "/" + to_string(q.orig)); return false; }
    if ((int)s->dim > p->nvar && q.dim == q.orig) { mc::fail("nvar", v + " has more dimensions than the program's number of variables"); return false; }
    if (!s->text || q.text != s->text || s->type != q.type) { mc::fail("text", v + " is not " + q.text); return false; }
    if (!same(s->domain, q.dom, q.dim + m.npar, v + "'s domain")) return false;
    if ((s->trans->nrows ? mat(s->trans) : string()) != mat(q.trans) || (int)s->trans->ncols != q.dim + m.npar + 1) { mc::fail("trans", v + " is placed at " + mat(s->trans) + ", not " + mat(q.trans)); return false; }
    for (size_t r = 0; r < q.types.size(); r++) if (q.types[r] >= 0 && s->hyp_types[r] != q.types[r]) { mc::fail("kind", v + "'s row " + to_string(r) + " is of kind " + to_string(s->hyp_types[r]) + ", not " + to_string(q.types[r])); return false; }
    for (int d = 0; d < q.dim; d++) if (!s->iterators[d] || q.its[d] != s->iterators[d] || s->is_orig_loop[d] != (bool)q.loop[d]) { mc::fail("iterator", v + "'s dimension " + to_string(d) + " is " + (s->iterators[d] ? s->iterators[d] : "unnamed") + (s->is_orig_loop[d] ? "" : " (added)") + ", not " + q.its[d] + (q.loop[d] ? "" : " (added)")); return false; }
    for (int rw = 0; rw < 2; rw++) {
      const vector<MAcc> &a = rw ? q.writes : q.reads;
      PlutoAccess **b = rw ? s->writes : s->reads;
      if ((rw ? s->nwrites : s->nreads) != (int)a.size()) { mc::fail("accesses", v + " has another number of accesses"); return false; }
      for (size_t k = 0; k < a.size(); k++) if (a[k].name != b[k]->name || mat(b[k]->mat) != mat(a[k].m) || (int)b[k]->mat->ncols != q.dim + m.npar + 1) { mc::fail("access", v + "'s access " + a[k].name + mat(a[k].m) + " is " + b[k]->name + mat(b[k]->mat)); return false; }
    }
  }
  for (int t = 0; t < 2; t++)
    for (size_t k = 0; k < (t ? m.tdeps : m.deps).size(); k++) {
      const Dep *d = t ? p->transdeps[k] : p->deps[k];
      const MDep &e = (t ? m.tdeps : m.deps)[k];
      string v = w + ": " + (t ? "transitive " : "") + "dependence " + to_string(k);
      if (d->src != e.src || d->dest != e.dest || d->type != e.type) { mc::fail("ends", v + " goes from " + to_string(d->src) + " to " + to_string(d->dest) + ", not from " + to_string(e.src) + " to " + to_string(e.dest)); return false; }
      if (!same(d->dpolytope, e.rows, width(m, e), v) || !same(d->bounding_poly, e.brows, width(m, e), v + "'s bounding set")) return false;
    }
  return view(p, m, w);
}
// What is derived from the statements.
bool view(const PlutoProg *p, const Model &m, const string &w) {
  bool full = true;
  for (size_t i = 0; i < m.st.size(); i++) {
    const Stmt *s = p->stmts[i];
    const MStmt &q = m.st[i];
    string v = w + ": statement " + to_string(i);
    Mat lin, lino;
    for (size_t r = 0; r < q.trans.size(); r++) {
      lin.push_back(Vec(q.trans[r].begin(), q.trans[r].begin() + q.dim));
      lino.push_back(Vec(q.trans[r].begin(), q.trans[r].begin() + q.orig));
      bool sc = std::all_of(lin[r].begin(), lin[r].end(), [](long z) { return z == 0; });
      mc::count(k_view);
      if (pluto_is_hyperplane_scalar(s, r) != sc || (pluto_is_hyperplane_loop(s, r) != 0) == sc) { mc::fail("scalar", v + "'s row " + to_string(r) + " is " + (sc ? "" : "not ") + "scalar"); return false; }
    }
    if (q.dim == q.orig) {
      int rk = q.dim && !lino.empty() ? true_rank(lino) : 0;
      full = full && rk >= q.orig;
      if (q.dim && (int)pluto_stmt_get_num_ind_hyps(s) != rk) { mc::fail("rank", v + " has " + to_string(rk) + " independent rows, " + to_string(pluto_stmt_get_num_ind_hyps(s)) + " reported"); return false; }
    }
    // the schedule relation (time, iterators, parameters)
    size_t nt = q.trans.size();
    Rows sched;
    for (size_t r = 0; r < nt; r++) {
      Vec x(nt, 0);
      x[r] = 1;
      for (long z : q.trans[r]) x.push_back(-z);
      sched.push_back({x, true});
    }
    PlutoConstraints *sc = pluto_stmt_get_schedule(s);
    bool ok = sc->ncols == nt + q.dim + m.npar + 1;
    // check at every small instance: its time satisfies, other times do not
    if (ok && nt) {
      Rows have = rows_of(sc);
      product({-1, 0, 2}, q.dim + m.npar, [&](const Vec &x) {
        Vec t;
        for (size_t r = 0; r < nt; r++) t.push_back(dot(q.trans[r], x));
        Vec y = t;
        y.insert(y.end(), x.begin(), x.end());
        mc::count(k_view);
        ok = holds(have, y);
        for (size_t r = 0; ok && r < nt; r++) { y[r]++; ok = !holds(have, y); y[r]--; }
        return ok;
      });
    }
    pluto_constraints_free(sc);
    if (!ok) { mc::fail("schedule", v + "'s schedule relation is not its transformation"); return false; }
    // accesses and iterators as functions of time
    if (nt && q.dim && true_rank(lin) == q.dim) {
      for (int rw = 0; ok && rw < 2; rw++)
        for (size_t k = 0; ok && k < (rw ? q.writes : q.reads).size(); k++) {
          int *divs;
          PlutoMatrix *na = pluto_get_new_access_func((rw ? s->writes : s->reads)[k]->mat, s, &divs);
          const Mat &a = (rw ? q.writes : q.reads)[k].m;
          ok = na->nrows == a.size() && na->ncols == nt + m.npar + 1;
          if (ok)
            product({-1, 0, 1, 3}, q.dim + m.npar, [&](const Vec &x) {
              Vec y;
              for (size_t r = 0; r < nt; r++) y.push_back(dot(q.trans[r], x));
              y.insert(y.end(), x.begin() + q.dim, x.end());
              for (size_t r = 0; ok && r < a.size(); r++) {
                mc::count(k_view);
                ok = divs[r] > 0 && dot(Vec(na->val[r], na->val[r] + na->ncols), y) == dot(a[r], x) * divs[r];
              }
              if (!ok) mc::fail("newaccess", v + ": access " + mat(a) + " as a function of time is " + mat(na) + ", wrong at " + poly::show(x));
              return ok;
            });
          else mc::fail("newaccess", v + ": access as a function of time has a wrong shape");
          pluto_matrix_free(na);
          free(divs);
        }
      if (!ok) return false;
    }
  }
  bool alldim = true;
  for (auto &q : m.st) alldim = alldim && q.dim == q.orig && q.dim > 0;
  if (alldim && (pluto_transformations_full_ranked((PlutoProg *)p) != 0) != full) { mc::fail("fullrank", w + ": the transformations are " + (full ? "" : "not ") + "of full rank"); return false; }
  return true;
}
// ---- edits: on the program and on the model ----
struct Edit {
  string name;
  std::function<bool(const Model &)> can;
  std::function<void(PlutoProg *, Model &)> go; // both; the model is already copied
};
void m_adddim(Model &m, int s, int pos, int tp, const string &it, int type) {
  MStmt &q = m.st[s];
  int od = q.dim;
  inscol(q.dom, pos);
  inscol(q.trans, pos);
  for (auto &a : q.reads) inscol(a.m, pos);
  for (auto &a : q.writes) inscol(a.m, pos);
  q.dim++;
  q.its.insert(q.its.begin() + pos, it);
  q.loop.insert(q.loop.begin() + pos, 1);
  if (tp >= 0) {
    Vec r(q.dim + m.npar + 1, 0);
    r[pos] = 1;
    q.trans.insert(q.trans.begin() + tp, r);
    q.types.insert(q.types.begin() + tp, type);
  }
  for (auto *L : {&m.deps, &m.tdeps}) for (auto &d : *L) {
    if (d.dest == s) { int at = (d.src == s ? od : m.st[d.src].dim) + pos; inscol(d.rows, at); inscol(d.brows, at); }
    if (d.src == s) { inscol(d.rows, pos); inscol(d.brows, pos); }
  }
}
void m_remdim(Model &m, int s, int pos) {
  MStmt &q = m.st[s];
  int od = q.dim;
  delcol(q.dom, pos);
  delcol(q.trans, pos);
  for (auto &a : q.reads) delcol(a.m, pos);
  for (auto &a : q.writes) delcol(a.m, pos);
  q.dim--;
  q.its.erase(q.its.begin() + pos);
  q.loop.erase(q.loop.begin() + pos);
  for (auto *L : {&m.deps, &m.tdeps}) for (auto &d : *L) {
    if (d.dest == s) { int at = (d.src == s ? od : m.st[d.src].dim) + pos; delcol(d.rows, at); delcol(d.brows, at); }
    if (d.src == s) { delcol(d.rows, pos); delcol(d.brows, pos); }
  }
}
bool dummy(const Model &m, int s, int pos) {
  const MStmt &q = m.st[s];
  for (auto &r : q.dom) if (r.first[pos]) return false;
  for (auto &r : q.trans) if (r[pos]) return false;
  for (auto &a : q.reads) for (auto &r : a.m) if (r[pos]) return false;
  for (auto &a : q.writes) for (auto &r : a.m) if (r[pos]) return false;
  for (auto *L : {&m.deps, &m.tdeps}) for (auto &d : *L) for (auto *R : {&d.rows, &d.brows}) for (auto &r : *R) {
    if (d.src == s && r.first[pos]) return false;
    if (d.dest == s && r.first[m.st[d.src].dim + pos]) return false;
  }
  return true;
}
void m_row(Model &m, int s, int pos) {
  MStmt &q = m.st[s];
  q.trans.insert(q.trans.begin() + pos, Vec(q.dim + m.npar + 1, 0));
  q.types.insert(q.types.begin() + pos, H_SCALAR);
}
// Level: 0 is the first, 1 the second, -1 the one after the last.
int at(int l, int n) { return l < 0 ? n : l; }
vector<Edit> edits(int ns, bool th) {
  vector<Edit> E;
  auto has = [](int s) { return [s](const Model &m) { return s < (int)m.st.size(); }; };
  auto add = [&](const string &n, std::function<bool(const Model &)> c, std::function<void(PlutoProg *, Model &)> g) { E.push_back({n, c, g}); };
  for (int s = 0; s < ns; s++) {
    string S = "(" + to_string(s);
    for (int pos : {0, 1, -1})
      for (int tp : {-2, 0, 1, -1}) {
        if (!th && tp == 1 && pos == 0) continue;
        add("add_dim" + S + "," + to_string(pos) + "," + to_string(tp) + ")", [=](const Model &m) { return s < (int)m.st.size() && pos <= m.st[s].dim && m.st[s].dim < 4 && tp <= (int)m.st[s].trans.size(); },
            [=](PlutoProg *p, Model &m) {
              int a = at(pos, m.st[s].dim), t = tp == -2 ? -1 : at(tp, m.st[s].trans.size());
              string it = "z" + to_string(m.st[s].dim);
              pluto_stmt_add_dim(p->stmts[s], a, t, it.c_str(), H_TILE_SPACE_LOOP, p);
              m_adddim(m, s, a, t, it, H_TILE_SPACE_LOOP);
            });
      }
    for (int pos : {0, 1, 2})
      add("remove_dim" + S + "," + to_string(pos) + ")", [=](const Model &m) { return s < (int)m.st.size() && pos < m.st[s].dim && m.st[s].dim > 1 && dummy(m, s, pos); },
          [=](PlutoProg *p, Model &m) { pluto_stmt_remove_dim(p->stmts[s], pos, p); m_remdim(m, s, pos); });
    for (int pos : {0, -1})
      for (int val : {0, 2})
        add("sink" + S + "," + to_string(pos) + "," + to_string(val) + ")", [=](const Model &m) { return s < (int)m.st.size() && m.st[s].dim < 4; },
            [=](PlutoProg *p, Model &m) {
              int a = at(pos, m.st[s].dim);
              string it = "d" + to_string(m.st[s].dim);
              pluto_sink_statement(p->stmts[s], a, val, p);
              m_adddim(m, s, a, -1, p->stmts[s]->iterators[a], 0);
              (void)it;
              m.st[s].loop[a] = 0;
              Vec r(m.st[s].dim + m.npar + 1, 0);
              r[a] = 1;
              r.back() = -val;
              m.st[s].dom.push_back({r, true});
            });
    for (int pos : {0, 1, -1}) {
      add("add_row" + S + "," + to_string(pos) + ")", [=](const Model &m) { return s < (int)m.st.size() && pos <= (int)m.st[s].trans.size(); },
          [=](PlutoProg *p, Model &m) { int a = at(pos, m.st[s].trans.size()); pluto_stmt_add_hyperplane(p->stmts[s], H_SCALAR, a); m_row(m, s, a); });
      if (pos != 1) add("sink_row" + S + "," + to_string(pos) + ")", has(s),
          [=](PlutoProg *p, Model &m) { int a = at(pos, m.st[s].trans.size()); pluto_sink_transformation(p->stmts[s], a); m_row(m, s, a); });
    }
    add("swap_rows" + S + ",0,1)", [=](const Model &m) { return s < (int)m.st.size() && m.st[s].trans.size() > 1; },
        [=](PlutoProg *p, Model &m) { pluto_stmt_loop_interchange(p->stmts[s], 0, 1); std::swap(m.st[s].trans[0], m.st[s].trans[1]); m.st[s].types[0] = m.st[s].types[1] = -1; });
    for (int l : {0, 1, -1})
      add("separate" + S + "," + to_string(l) + ")", [=](const Model &m) {
            for (auto &q : m.st) if (q.trans.size() != m.hyps.size()) return false;
            return s < (int)m.st.size() && l <= (int)m.hyps.size(); },
          [=](PlutoProg *p, Model &m) {
            int a = at(l, m.hyps.size());
            pluto_separate_stmt(p, p->stmts[s], a);
            for (size_t i = 0; i < m.st.size(); i++) m_row(m, i, a);
            m.st[s].trans[a].back() = 1;
            m.hyps.insert(m.hyps.begin() + a, H_SCALAR);
          });
    add("dup" + S + ")", [=](const Model &m) { return s < (int)m.st.size() && m.st.size() < 5; },
        [=](PlutoProg *p, Model &m) {
          pluto_add_given_stmt(p, pluto_stmt_dup(p->stmts[s]));
          MStmt q = m.st[s];
          for (auto &t : q.types) t = -1;
          m.st.push_back(q);
          pad(m);
        });
    add("remove" + S + ")", [=](const Model &m) {
          for (auto &d : m.deps) if (d.src == s || d.dest == s) return false;
          return s < (int)m.st.size() && m.st.size() > 1 && m.tdeps.empty(); },
        [=](PlutoProg *p, Model &m) {
          pluto_remove_stmt(p, s);
          m.st.erase(m.st.begin() + s);
          for (auto &d : m.deps) { d.src -= d.src > s; d.dest -= d.dest > s; }
        });
    for (int f : {2, 3})
      for (int l : {0, 1})
        if (th || f == 2 + (s + l) % 2)
        add("stripmine" + S + "," + to_string(l) + "," + to_string(f) + ")", [=](const Model &m) { return s < (int)m.st.size() && m.st[s].dim < 4 && l < (int)m.st[s].trans.size(); },
            [=](PlutoProg *p, Model &m) {
              char nm[] = "zz";
              pluto_stripmine(p->stmts[s], l, f, nm, p);
              m_adddim(m, s, 0, l, nm, H_TILE_SPACE_LOOP);
              Vec lo = m.st[s].trans[l + 1], hi = lo;
              lo[0] = -f;
              for (auto &z : hi) z = -z;
              hi[0] = f;
              hi.back() += f - 1;
              m.st[s].dom.push_back({lo, false});
              m.st[s].dom.push_back({hi, false});
            });
  }
  for (int pos : {0, 1, -1})
    add("add_level(" + to_string(pos) + ")", [=](const Model &m) { return pos <= (int)m.hyps.size(); },
        [=](PlutoProg *p, Model &m) { int a = at(pos, m.hyps.size()); pluto_prog_add_hyperplane(p, a, H_LOOP); m.hyps.insert(m.hyps.begin() + a, H_LOOP); });
  for (int l : {0, 1})
    add("interchange(" + to_string(l) + "," + to_string(l + 1) + ")", [=](const Model &m) {
          for (auto &q : m.st) if ((int)q.trans.size() < l + 2) return false;
          return (int)m.hyps.size() >= l + 2; },
        [=](PlutoProg *p, Model &m) {
          pluto_interchange(p, l, l + 1);
          for (auto &q : m.st) { std::swap(q.trans[l], q.trans[l + 1]); q.types[l] = q.types[l + 1] = -1; }
          std::swap(m.hyps[l], m.hyps[l + 1]);
        });
  for (int l : {0, 1})
    for (int across : {0, 1})
      add(string("innermost(") + to_string(l) + "," + (across ? "across" : "up to a separator") + ")", [=](const Model &m) {
            for (auto &q : m.st) {
              if (q.trans.size() != m.hyps.size() || (int)m.hyps.size() <= l) return false;
              if (std::all_of(q.trans[l].begin(), q.trans[l].begin() + q.dim, [](long z) { return z == 0; })) return false;
            }
            return true; },
          [=](PlutoProg *p, Model &m) {
            Ploop lp;
            memset(&lp, 0, sizeof lp);
            lp.depth = l;
            lp.stmts = p->stmts;
            lp.nstmts = p->nstmts;
            int last = m.hyps.size();
            pluto_make_innermost_loop(&lp, last, across, p);
            if (!across)
              for (auto &q : m.st) for (int d = l; d < last; d++)
                if (std::all_of(q.trans[d].begin(), q.trans[d].begin() + q.dim, [](long z) { return z == 0; })) last = d;
            for (auto &q : m.st) {
              std::rotate(q.trans.begin() + l, q.trans.begin() + l + 1, q.trans.begin() + last);
              for (int d = l; d < last; d++) q.types[d] = -1;
            }
          });
  for (int l : {0, -1})
    for (int off : {0, 3})
      add("separate_all(" + to_string(l) + "," + to_string(off) + ")", [=](const Model &m) {
            for (auto &q : m.st) if (q.trans.size() != m.hyps.size()) return false;
            return m.st.size() >= 2; },
          [=](PlutoProg *p, Model &m) {
            int a = at(l, m.hyps.size()), n = m.st.size();
            vector<Stmt *> ss = {p->stmts[n - 1], p->stmts[0]};
            pluto_separate_stmts(p, ss.data(), 2, a, off);
            for (int i = 0; i < n; i++) m_row(m, i, a);
            m.st[n - 1].trans[a].back() = off + 1;
            m.st[0].trans[a].back() = off + 2;
            m.hyps.insert(m.hyps.begin() + a, H_SCALAR);
          });
  for (int pos : {0, -1})
    add("add_param(" + to_string(pos) + ")", [=](const Model &m) { return m.npar < 3; },
        [=](PlutoProg *p, Model &m) {
          int a = at(pos, m.npar);
          string nm = "Q" + to_string(m.npar);
          pluto_prog_add_param(p, nm.c_str(), a);
          for (auto &q : m.st) {
            inscol(q.dom, q.dim + a);
            inscol(q.trans, q.dim + a);
            for (auto &x : q.reads) inscol(x.m, q.dim + a);
            for (auto &x : q.writes) inscol(x.m, q.dim + a);
          }
          for (auto *L : {&m.deps, &m.tdeps}) for (auto &d : *L) { int c = m.st[d.src].dim + m.st[d.dest].dim + a; inscol(d.rows, c); inscol(d.brows, c); }
          inscol(m.ctx, a);
          m.params.insert(m.params.begin() + a, nm);
          m.npar++;
        });
  add("pad()", [](const Model &) { return true; }, [](PlutoProg *p, Model &m) { pluto_pad_stmt_transformations(p); pad(m); });
  add("add_stmt()", [](const Model &m) { return m.st.size() < 5; },
      [](PlutoProg *p, Model &m) {
        MStmt q;
        q.dim = q.orig = 1;
        Vec lo(2 + m.npar, 0), hi(2 + m.npar, 0);
        lo[0] = 1;
        hi[0] = -1;
        hi.back() = 2;
        q.dom = {{lo, false}, {hi, false}};
        Vec a = lo, b(2 + m.npar, 0);
        b.back() = 4;
        a[0] = 2;
        q.trans = {b, a};
        q.types = {H_LOOP, H_LOOP};
        q.its = {"n"};
        q.loop = {1};
        q.reads = {{"C", {lo}}};
        q.text = "new";
        add_stmt(p, q, m.npar);
        m.st.push_back(q);
        pad(m);
      });
  add("copy_dep(0)", [](const Model &m) { return !m.deps.empty() && m.deps.size() < 5; },
      [](PlutoProg *p, Model &m) { p->deps = (Dep **)realloc(p->deps, sizeof(Dep *) * (p->ndeps + 1)); p->deps[p->ndeps++] = pluto_dep_dup(p->deps[0]); m.deps.push_back(m.deps[0]); });
  return E;
}
// ---- the programs the sequences start from ----
Rows box(int dim, int npar) {
  Rows r;
  for (int i = 0; i < dim; i++) {
    Vec lo(dim + npar + 1, 0), hi(dim + npar + 1, 0);
    lo[i] = 1;
    hi[i] = -1;
    if (npar) { hi[dim + i % npar] = 1; hi.back() = -1; } else hi.back() = 1 + i;
    r.push_back({lo, false});
    r.push_back({hi, false});
  }
  return r;
}
MStmt mst(int dim, int npar, int no, int shape) {
  MStmt q;
  q.dim = q.orig = dim;
  q.dom = box(dim, npar);
  int n = dim + npar + 1;
  Vec c(n, 0);
  c.back() = no;
  if (shape != 2) q.trans.push_back(c);
  for (int i = 0; i < dim; i++) {
    Vec v(n, 0);
    v[i] = shape == 1 ? 2 : 1;
    if (i) v[0] = 1;
    if (npar && i == 0) v[dim + npar - 1] = shape;
    v.back() = i + no;
    q.trans.push_back(v);
  }
  if (shape == 1) std::reverse(q.trans.begin() + 1, q.trans.end());
  q.types.assign(q.trans.size(), H_LOOP);
  const char *nm[] = {"i", "j", "k"};
  for (int i = 0; i < dim; i++) { q.its.push_back(nm[i]); q.loop.push_back(1); }
  Vec a(n, 0), b(n, 0);
  for (int i = 0; i < dim; i++) { a[i] = i + 1; b[dim - 1 - i] = 1; }
  if (npar) b[dim] = -1;
  a.back() = 1 + no;
  q.reads = {{"A", {a}}};
  if (no % 2 == 0) q.reads.push_back({"B", {b, a}});
  q.writes = {{no ? "B" : "A", {b}}};
  q.text = "S" + to_string(no);
  return q;
}
MDep mdep(const Model &m, int s, int t, int type) {
  MDep d;
  d.src = s;
  d.dest = t;
  d.type = type;
  int a = m.st[s].dim, b = m.st[t].dim;
  for (auto &r : m.st[s].dom) { Vec v(r.first.begin(), r.first.begin() + a); v.resize(a + b, 0); v.insert(v.end(), r.first.begin() + a, r.first.end()); d.rows.push_back({v, r.second}); }
  Vec e(a + b + m.npar + 1, 0);
  for (int i = 0; i < std::min(a, b); i++) { Vec f = e; f[i] = -1; f[a + i] = 1; f.back() = i == 0 ? -1 : 0; d.rows.push_back({f, true}); }
  d.brows = d.rows;
  // a bounding set that differs, so that the two are told apart
  if (!d.brows.empty()) d.brows.pop_back();
  return d;
}
struct Start { string name; Model m; };
vector<Start> starts() {
  vector<Start> S;
  auto mkm = [&](const string &n, int npar, vector<int> dims, int shape, vector<std::pair<int, int>> deps, vector<std::pair<int, int>> td) {
    Model m;
    m.npar = npar;
    for (int i = 0; i < npar; i++) m.params.push_back(i ? "M" : "N");
    for (size_t i = 0; i < dims.size(); i++) m.st.push_back(mst(dims[i], npar, i, shape));
    for (auto &d : deps) m.deps.push_back(mdep(m, d.first, d.second, m.deps.size() % 2 ? PLUTO_DEP_WAR : PLUTO_DEP_RAW));
    for (auto &d : td) m.tdeps.push_back(mdep(m, d.first, d.second, PLUTO_DEP_WAW));
    if (npar) { Vec v(npar + 1, 0); v[npar - 1] = 1; v.back() = -2; m.ctx = {{v, false}}; }
    pad(m);
    for (auto &q : m.st) q.types.assign(q.trans.size(), H_LOOP); // given with the statement
    S.push_back({n, m});
  };
  mkm("one", 1, {1}, 0, {{0, 0}}, {});
  mkm("two", 1, {2, 1}, 0, {{0, 1}, {1, 0}}, {{0, 0}, {1, 1}});
  mkm("two-skewed", 2, {2, 2}, 1, {{0, 0}, {1, 0}}, {{0, 1}});
  mkm("two-nopar", 0, {1, 2}, 2, {{1, 1}, {0, 1}}, {});
  mkm("three", 1, {1, 2, 1}, 2, {{0, 2}, {2, 2}}, {});
  mkm("three-first", 2, {1, 1, 2}, 1, {{1, 2}, {2, 1}}, {});
  return S;
}
// The transformed domain: contains an instance's time exactly if the instance
// exists (for one-to-one transformations; otherwise it contains at least those).
bool newdomain(const PlutoProg *p, const Model &m, const string &w) {
  for (size_t i = 0; i < m.st.size(); i++) {
    const MStmt &q = m.st[i];
    size_t nt = q.trans.size();
    if (!nt || !q.dim) continue;
    Mat lin;
    for (auto &r : q.trans) lin.push_back(Vec(r.begin(), r.begin() + q.dim));
    bool one = true_rank(lin) == q.dim;
    PlutoConstraints *nd = pluto_get_new_domain(p->stmts[i]);
    bool ok = nd->ncols == nt + m.npar + 1;
    if (!ok) mc::fail("newdomain", w + ": the transformed domain of statement " + to_string(i) + " has " + to_string(nd->ncols) + " columns");
    vector<Rows> have;
    for (const PlutoConstraints *c = nd; c; c = c->next) have.push_back(rows_of(c));
    if (ok)
      product({-1, 0, 1, 2, 3}, q.dim + m.npar, [&](const Vec &x) {
        bool in = holds(q.dom, x), got = false;
        Vec y;
        for (size_t r = 0; r < nt; r++) y.push_back(dot(q.trans[r], x));
        y.insert(y.end(), x.begin() + q.dim, x.end());
        mc::count(k_view);
        for (auto &h : have) got = got || holds(h, y);
        ok = one ? got == in : got || !in;
        if (!ok) mc::fail("newdomain", w + ": the transformed domain of statement " + to_string(i) + (in ? " lacks " : " contains ") + poly::show(y) + ", the time of " + poly::show(x));
        return ok;
      });
    pluto_constraints_free(nd);
    if (!ok) return false;
  }
  return true;
}
bool sequence(const Start &s, const vector<Edit> &E, const vector<int> &seq) {
  Model m = s.m;
  PlutoContext *pc = pluto_context_alloc();
  pc->options->silent = 1;
  PlutoProg *p = build(m, pc);
  string w = s.name;
  bool run = true, ok = true;
  for (size_t i = 0; run && i < seq.size(); i++) {
    const Edit &e = E[seq[i]];
    if (!e.can(m)) { run = false; break; }
    w += (i ? "; " : ": ") + e.name;
    e.go(p, m);
    mc::count(k_edit);
  }
  if (run) {
    mc::count(k_seq);
    ok = compare(p, m, w);
    mc::outcome(w);
    if (ok && (seq.size() < 2 || (s.m.st.size() < 3 && seq.size() == 2))) ok = newdomain(p, m, w);
  }
  // a program that is not what it should be is left alone
  if (ok) { pluto_prog_free(p); pluto_context_free(pc); }
  return ok;
}
} // namespace

mc::Check make_c19(const string &tier) {
  bool th = tier == "thorough";
  auto g = std::make_shared<Groups>();
  auto S = std::make_shared<vector<Start>>(starts());
  for (size_t s = 0; s < S->size(); s++) {
    auto E = std::make_shared<vector<Edit>>(edits((*S)[s].m.st.size(), th));
    g->add((*S)[s].name + ":start", [=]() { sequence((*S)[s], *E, {}); });
    for (size_t a = 0; a < E->size(); a++)
      g->add((*S)[s].name + ":" + (*E)[a].name, [=]() {
        if (!sequence((*S)[s], *E, {(int)a})) return;
        for (size_t b = 0; b < E->size(); b++) {
          if (!sequence((*S)[s], *E, {(int)a, (int)b})) return;
          if (th || s == 0)
            for (size_t c = 0; c < E->size(); c++) if (!sequence((*S)[s], *E, {(int)a, (int)b, (int)c})) return;
        }
      });
  }
  return make_groups(g, string("all sequences of up to ") + (th ? "three" : "two (three on the smallest program)") + " edits of six programs with one to three statements of one or two loops and up to two parameters");
}
