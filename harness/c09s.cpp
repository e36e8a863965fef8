// C09: the constraints that the scheduler generates for the dependences of a
// program, against the generators of the dependence polyhedra.
#include "obs.h"
#include "rays.h"
#include "unit.h"
#include <algorithm>
#include <gmp.h>
extern "C" {
#include "constraints.h"
#include "pluto.h"
#include "pluto/matrix.h"
#include "program.h"
void compute_pairwise_permutability(Dep *dep, PlutoProg *prog);
PlutoConstraints *get_permutability_constraints(PlutoProg *prog);
PlutoConstraints **get_stmt_lin_ind_constraints(Stmt *stmt, const PlutoProg *prog, const PlutoConstraints *currcst, int *orthonum);
}
PlutoConstraints *get_feautrier_schedule_constraints_dep(Dep *dep, PlutoProg *prog) __attribute__((weak));
using poly::Vec;
using std::string;
using std::vector;
static int k_runs = mc::counter_decl("runs"), k_deps = mc::counter_decl("dependences_checked"), k_vec = mc::counter_decl("coefficient_vectors"),
           k_adm = mc::counter_decl("admitted_vectors"), k_ray = mc::counter_decl("generators"), k_ind = mc::counter_decl("independence_vectors"),
           k_glob = mc::counter_decl("global_vectors"), k_feau = mc::counter_decl("strict_vectors");

typedef vector<std::pair<Vec, bool>> CRows;
static CRows rows_of(const PlutoConstraints *c) {
  CRows r;
  for (unsigned i = 0; i < c->nrows; i++) r.push_back({Vec(c->val[i], c->val[i] + c->ncols), (bool)c->is_eq[i]});
  return r;
}
static bool holds(const CRows &rs, const Vec &x) {
  for (auto &r : rs) {
    long v = r.first.back();
    for (size_t i = 0; i < x.size(); i++) v += r.first[i] * x[i];
    if (r.second ? v != 0 : v < 0) return false;
  }
  return true;
}

static void observe(PlutoProg *prog, const Prog &p, const Conf &cf, const vector<Vec> &pvals) {
  Snap s = snapshot(prog, false);
  int nvar = prog->nvar, npar = prog->npar, ns = prog->nstmts, width = npar + 1 + ns * (nvar + 1);
  bool nobound = cf.get("nodepbound", 0), mixed = p.mixed_dims();
  vector<Vec> uw; // u..., w
  product(Vec{0, 1}, npar, [&](const Vec &u) { for (long w : {0L, 1L, 3L}) { Vec x = u; x.push_back(w); uw.push_back(x); } return true; });
  uw.push_back(Vec(npar + 1, 60));
  if (nobound) uw = {Vec(npar + 1, 0)};
  vector<CRows> all;
  for (int k = 0; k < prog->ndeps && !mc::failed(); k++) {
    Dep *d = prog->deps[k];
    if (!d->cst) { if (mixed) continue; compute_pairwise_permutability(d, prog); }
    if ((int)d->cst->ncols != width + 1) { mc::fail("width", "the constraints of dependence " + std::to_string(k) + " have " + std::to_string(d->cst->ncols) + " columns"); break; }
    mc::count(k_deps);
    CRows rs = rows_of(d->cst), fs;
    all.push_back(rs);
    bool self = d->src == d->dest;
    int ds = s.dim[d->src], dd = s.dim[d->dest], n = self ? ds + 1 : ds + 1 + dd + 1;
    Gens g = generators(s.deps[k].sys);
    mc::count(k_ray, g.rays.size() + g.lines.size());
    bool feau = !mixed && get_feautrier_schedule_constraints_dep;
    if (feau) {
      PlutoConstraints *f = get_feautrier_schedule_constraints_dep(d, prog);
      fs = rows_of(f);
      pluto_constraints_free(f);
    }
    vector<std::pair<Vec, vector<std::pair<Vec, Vec>>>> inst;
    for (auto &pv : pvals) inst.push_back({pv, dep_points(s.deps[k], s, pv)});
    Vec vals = n <= 6 ? Vec{-1, 0, 1, 2} : Vec{-1, 0, 1};
    int so = npar + 1 + d->src * (nvar + 1), to = npar + 1 + d->dest * (nvar + 1);
    string w = "dependence " + std::to_string(k) + " (S_" + std::to_string(d->src) + " -> S_" + std::to_string(d->dest) + "), coefficients ";
    product(vals, n, [&](const Vec &c) {
      // c: source coefficients, source shift, target coefficients, target shift
      const long *cs = c.data(), *ct = self ? c.data() : c.data() + ds + 1;
      Vec f(ds + dd + npar + 1, 0); // distance over source, target, parameters, 1
      for (int i = 0; i < ds; i++) f[i] -= cs[i];
      for (int i = 0; i < dd; i++) f[ds + i] += ct[i];
      f.back() = ct[dd] - cs[ds];
      bool legal = nonneg(g, f);
      Vec x(width, 0);
      for (int i = 0; i < ds; i++) x[so + i] = cs[i];
      x[so + nvar] = cs[ds];
      if (!self) { for (int i = 0; i < dd; i++) x[to + i] = ct[i]; x[to + nvar] = ct[dd]; }
      if (feau) {
        mc::count(k_feau);
        Vec h = f;
        h.back() -= 1;
        bool a = holds(fs, x), b = nonneg(g, h);
        if (a != b) { mc::fail("strict", w + poly::show(c) + ": strict order " + (a ? "admitted" : "not admitted") + " by the scheduling constraints"); return false; }
      }
      for (auto &b : uw) {
        mc::count(k_vec);
        for (int i = 0; i <= npar; i++) x[i] = b[i];
        bool got = holds(rs, x);
        if (got) mc::count(k_adm);
        if (got && !legal) { mc::fail("unsound", w + poly::show(c) + " are admitted but move a target before its source"); return false; }
        if (nobound) {
          if (!got && legal) { mc::fail("incomplete", w + poly::show(c) + " are legal but not admitted"); return false; }
        } else {
          Vec h(f.size()); // u.N + w - distance
          for (size_t i = 0; i < f.size(); i++) h[i] = -f[i];
          for (int i = 0; i < npar; i++) h[ds + dd + i] += b[i];
          h.back() += b[npar];
          if (!got && legal && nonneg(g, h)) { mc::fail("incomplete", w + poly::show(c) + " with bound " + poly::show(b) + " are not admitted though the bound holds"); return false; }
          // (the library bounds distances for non-negative parameters)
          if (got) for (auto &pi : inst) if (pi.first.empty() || *std::min_element(pi.first.begin(), pi.first.end()) >= 0) for (auto &pt : pi.second) {
            long v = h.back();
            for (int i = 0; i < ds; i++) v += h[i] * pt.first[i];
            for (int i = 0; i < dd; i++) v += h[ds + i] * pt.second[i];
            for (int i = 0; i < npar; i++) v += h[ds + dd + i] * pi.first[i];
            if (v < 0) { mc::fail("bound", w + poly::show(c) + " with bound " + poly::show(b) + " are admitted but the distance from " + poly::show(pt.first) + " to " + poly::show(pt.second) + " exceeds it at " + poly::show(pi.first)); return false; }
          }
        }
        // coefficients of padding dimensions do not matter
        if (ds < nvar || dd < nvar) {
          Vec y = x;
          for (int i = ds; i < nvar; i++) y[so + i] = 1;
          for (int i = dd; i < nvar; i++) y[to + i] = 1;
          if (holds(rs, y) != got) { mc::fail("padding", w + poly::show(c) + ": coefficients of padding dimensions matter"); return false; }
        }
      }
      return true;
    });
  }
  if (mc::failed() || (int)all.size() != prog->ndeps || cf.get("per_cc_obj", 0)) return;
  // all dependences together
  for (int k = 0; k < prog->ndeps; k++) prog->deps[k]->satisfied = false;
  CRows gl = rows_of(get_permutability_constraints(prog));
  int nc = ns * (nvar + 1);
  product(nc <= 6 ? Vec{-1, 0, 1} : Vec{0, 1}, std::min(nc, 9), [&](const Vec &c) {
    for (auto &b : uw) {
      mc::count(k_glob);
      Vec x(width, 0);
      for (int i = 0; i <= npar; i++) x[i] = b[i];
      for (size_t i = 0; i < c.size(); i++) x[npar + 1 + i] = c[i];
      bool ref = true;
      for (auto &a : all) ref = ref && holds(a, x);
      if (holds(gl, x) != ref) { mc::fail("global", "coefficients " + poly::show(x) + " are " + (ref ? "rejected" : "admitted") + " by the constraints for all dependences together"); return false; }
    }
    return true;
  });
  if (mixed) return;
  // linear independence of the hyperplanes found so far
  PlutoConstraints *cur = pluto_constraints_dup(prog->globcst);
  for (int q = 0; q < ns && !mc::failed(); q++) {
    Stmt *st = prog->stmts[q];
    unsigned nr = st->trans->nrows;
    for (unsigned h = 0; h <= nr && !mc::failed(); h++) {
      st->trans->nrows = h;
      Mat m;
      for (unsigned r = 0; r < h; r++) m.push_back(Vec(st->trans->val[r], st->trans->val[r] + st->dim));
      int rank = m.empty() ? 0 : true_rank(m), num = -1;
      PlutoConstraints **o = get_stmt_lin_ind_constraints(st, prog, cur, &num);
      if ((num == 0) != (rank == (int)st->dim)) mc::fail("independent", "S_" + std::to_string(q) + " after " + std::to_string(h) + " rows: rank " + std::to_string(rank) + " but " + std::to_string(num) + " independence constraints");
      if (num > 0) {
        CRows last = rows_of(o[num - 1]);
        bool some = false;
        product(Vec{-2, -1, 0, 1, 2}, st->dim, [&](const Vec &c) {
          mc::count(k_ind);
          Vec x(width, 0);
          for (unsigned i = 0; i < st->dim; i++) x[npar + 1 + q * (nvar + 1) + i] = c[i];
          if (!holds(last, x)) return true;
          some = true;
          Mat e = m;
          e.push_back(c);
          if (true_rank(e) == rank) { mc::fail("independent", "S_" + std::to_string(q) + " after " + std::to_string(h) + " rows: coefficients " + poly::show(c) + " are admitted as linearly independent"); return false; }
          return true;
        });
        if (!some) mc::fail("independent", "S_" + std::to_string(q) + " after " + std::to_string(h) + " rows: nothing is admitted as linearly independent");
        for (int i = 0; i < num; i++) pluto_constraints_free(o[i]);
      }
      free(o);
    }
    st->trans->nrows = nr;
  }
  pluto_constraints_free(cur);
}

mc::Check make_c09s(const string &tier) {
  int d = tier == "thorough" ? 2 : 1;
  auto sp = std::make_shared<Space>();
  fam_shapes(sp->progs, d);
  fam_uniform(sp->progs, d);
  fam_nonuniform(sp->progs, d);
  fam_multi(sp->progs, d);
  fam_triples(sp->progs, d);
  fam_infeasible(sp->progs, d);
  typedef vector<std::pair<string, long>> L;
  L seq = {{"tile", 0}, {"parallel", 0}, {"diamondtile", 0}, {"intratileopt", 0}};
  L nb = seq;
  nb.push_back({"nodepbound", 1});
  sp->confs = {{"seq", seq, "", "", ""}, {"nodepbound", nb, "", "", ""}};
  sp->product(true);
  auto c = make_space_check(sp, [](Space &sp, uint64_t i) {
    const Inputs &in = sp.inputs(i);
    const Prog &p = sp.progs[sp.cases[i].first];
    const Conf &cf = sp.confs[sp.cases[i].second];
    mc::count(k_runs);
    vector<Vec> pv;
    for (auto &c : in.conc) pv.push_back(c.par);
    g_observe = [&](PlutoProg *prog, const string &pt) { if (pt == "transformed") observe(prog, p, cf, pv); };
    isl_union_map *s = run_transform(sp.ctx, in, cf);
    g_observe = nullptr;
    mc::outcome(umap_to_str(s));
    isl_union_map_free(s);
  });
  c.bounds = "every dependence of the program families; all coefficient vectors with entries in -1..2 (-1..1 from three dimensions on) and shifts alike, "
             "with every combination of bounds u in {0,1}, w in {0,1,3} and one large bound; the conjunction over all dependences; the independence constraint "
             "after every number of hyperplanes found, on all vectors with entries in -2..2";
  return c;
}
