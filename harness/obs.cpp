#include "obs.h"
#include <map>
extern "C" {
#include "constraints.h"
#include "pluto.h"
#include "pluto/matrix.h"
}
#include "program.h"
#include "pluto/pluto.h"
using poly::Vec;
using std::vector;

static SLoop loop_of(const Ploop *l) {
  SLoop r;
  r.depth = l->depth;
  for (unsigned i = 0; i < l->nstmts; i++) r.stmts.push_back(l->stmts[i]->id);
  return r;
}
Snap snapshot(PlutoProg *prog, bool bands) {
  Snap s;
  s.set = true;
  s.nh = prog->num_hyperplanes;
  s.npar = prog->npar;
  s.nvar = prog->nvar;
  s.diamond = prog->is_diamond_tiled;
  for (unsigned i = 0; i < prog->nstmts; i++) {
    Stmt *st = prog->stmts[i];
    vector<Vec> rows;
    for (unsigned r = 0; r < st->trans->nrows; r++) rows.push_back(Vec(st->trans->val[r], st->trans->val[r] + st->trans->ncols));
    s.trans.push_back(rows);
    s.dim.push_back(st->dim);
    s.dim_orig.push_back(st->dim_orig);
    s.ntiled.push_back(st->num_tiled_loops);
    s.tfirst.push_back(st->first_tile_dim);
    s.tlast.push_back(st->last_tile_dim);
    s.scc.push_back(st->scc_id);
    Vec h;
    for (unsigned r = 0; r < st->trans->nrows; r++) h.push_back(st->hyp_types[r] != H_SCALAR);
    s.htype.push_back(h);
  }
  for (int l = 0; l < s.nh; l++) s.hprop.push_back(prog->hProps[l].type != H_SCALAR);
  for (int i = 0; i < prog->ndeps; i++) {
    Dep *d = prog->deps[i];
    SDep x;
    x.src = d->src; x.dest = d->dest; x.level = d->satisfaction_level; x.satisfied = d->satisfied;
    for (int l = 0; l < s.nh; l++) {
      x.satvec.push_back(d->satvec ? d->satvec[l] : -1);
      x.dir.push_back(d->dirvec ? d->dirvec[l] : 0);
    }
    const PlutoConstraints *c = d->dpolytope;
    x.sys.nv = c->ncols - 1;
    for (unsigned r = 0; r < c->nrows; r++) {
      Vec row(c->val[r], c->val[r] + c->ncols);
      (c->is_eq[r] ? x.sys.eq : x.sys.ineq).push_back(row);
    }
    s.deps.push_back(x);
  }
  unsigned n;
  Ploop **l = pluto_get_parallel_loops(prog, &n);
  for (unsigned i = 0; i < n; i++) s.par.push_back(loop_of(l[i]));
  pluto_loops_free(l, n);
  l = pluto_get_dom_parallel_loops(prog, &n);
  for (unsigned i = 0; i < n; i++) s.dompar.push_back(loop_of(l[i]));
  pluto_loops_free(l, n);
  l = pluto_get_all_loops(prog, &n);
  for (unsigned i = 0; i < n; i++) s.all.push_back(loop_of(l[i]));
  pluto_loops_free(l, n);
  if (!bands) return s;
  Band **b = pluto_get_outermost_permutable_bands(prog, &n);
  for (unsigned i = 0; i < n; i++) s.outer.push_back({loop_of(b[i]->loop), (int)b[i]->width});
  pluto_bands_free(b, n);
  b = pluto_get_innermost_permutable_bands(prog, 0, &n);
  for (unsigned i = 0; i < n; i++) s.inner.push_back({loop_of(b[i]->loop), (int)b[i]->width});
  pluto_bands_free(b, n);
  return s;
}
vector<std::pair<Vec, Vec>> dep_points(const SDep &d, const Snap &s, const Vec &par) {
  vector<std::pair<Vec, Vec>> r;
  int a = s.dim[d.src], b = s.dim[d.dest];
  vector<char> fx(d.sys.nv, 0);
  Vec val(d.sys.nv, 0);
  for (size_t k = 0; k < par.size(); k++) { fx[a + b + k] = 1; val[a + b + k] = par[k]; }
  poly::enumerate(d.sys, fx, val, [&](const Vec &x) {
    r.push_back({Vec(x.begin(), x.begin() + a), Vec(x.begin() + a, x.begin() + a + b)});
    return true;
  });
  return r;
}
long row_val(const Vec &row, const Vec &it, const Vec &par) {
  long v = row.back();
  for (size_t i = 0; i < it.size(); i++) v += row[i] * it[i];
  for (size_t i = 0; i < par.size(); i++) v += row[it.size() + i] * par[i];
  return v;
}
static void ref_rec(const Snap &s, const vector<int> &st, int d, vector<SLoop> &out) {
  if (d >= s.nh || st.empty()) return;
  bool loop = false;
  for (int k : st)
    for (int j = 0; j < s.dim[k]; j++) loop |= s.trans[k][d][j] != 0;
  if (loop) {
    out.push_back({d, st});
    ref_rec(s, st, d + 1, out);
    return;
  }
  std::map<long, vector<int>> g;
  for (int k : st) g[s.trans[k][d].back()].push_back(k);
  for (auto &x : g) ref_rec(s, x.second, d + 1, out);
}
vector<SLoop> loops_of(const Snap &s) {
  vector<int> all;
  for (size_t i = 0; i < s.trans.size(); i++) all.push_back(i);
  vector<SLoop> r;
  ref_rec(s, all, 0, r);
  return r;
}
