#include "sched.h"
#include <cstdio>
#include <fstream>
#include <isl/printer.h>
#include <set>
#include <unistd.h>
extern "C" {
#include "pluto.h"
#include "pluto/matrix.h"
}
using poly::Vec;
using std::string;
using std::vector;

std::function<void(PlutoProg *, const string &)> g_observe;
extern "C" void pluto_verif_observe(PlutoProg *prog, const char *point) {
  if (g_observe) g_observe(prog, point);
}

static void put(const char *name, const string &s) {
  if (s.empty()) { unlink(name); return; }
  std::ofstream f(name);
  f << s;
}
void write_conf_files(const Conf &cf) {
  put("tile.sizes", cf.tile_sizes);
  put(".fst", cf.fst);
  put(".precut", cf.precut);
}
isl_union_map *run_transform(isl_ctx *ctx, const Inputs &in, const Conf &cf, isl_union_map *reads, isl_union_map *writes) {
  PlutoContext *pc = pluto_context_alloc();
  apply(cf, pc->options);
  write_conf_files(cf);
  isl_union_map *s = pluto_transform(isl_union_set_copy(in.dom), isl_union_map_copy(in.dep), reads, writes, pc);
  pluto_context_free(pc);
  return s;
}
string umap_to_str(isl_union_map *m) {
  if (!m) return "NULL";
  char *s = isl_union_map_to_str(m);
  string r = s ? s : "?";
  free(s);
  return r;
}

string show_remap(const Remapping &r) {
  string s = " remap " + std::to_string(r.nstmts);
  for (int i = 0; i < (int)r.nstmts; i++) {
    PlutoMatrix *m = r.stmt_inv_matrices[i];
    s += " [";
    if (!m) { s += "none]"; continue; }
    for (unsigned a = 0; a < m->nrows; a++) {
      for (unsigned b = 0; b < m->ncols; b++) s += std::to_string(m->val[a][b]) + " ";
      s += "/" + std::to_string(r.stmt_divs[i][a]) + ";";
    }
    s += "]";
  }
  return s;
}
TextRun run_str(const Inputs &in, const Conf &cf) {
  TextRun t;
  PlutoContext *pc = pluto_context_alloc();
  apply(cf, pc->options);
  write_conf_files(cf);
  char *d = isl_union_set_to_str(in.dom), *s = nullptr, *pl = nullptr;
  Remapping *m = nullptr;
  pluto_schedule_str(d, umap_to_str(in.dep).c_str(), &s, &pl, &m, pc);
  free(d);
  if (s) { t.have = true; t.sched = s; }
  t.loops = pl ? pl : "none";
  if (m) { t.remap = show_remap(*m); pluto_remapping_free(*m); free(m); }
  pluto_schedules_strbuf_free(s);
  free(pl);
  pluto_context_free(pc);
  return t;
}
string run_remapping_str(const Inputs &in, const Conf &cf) {
  PlutoContext *pc = pluto_context_alloc();
  apply(cf, pc->options);
  write_conf_files(cf);
  char *d = isl_union_set_to_str(in.dom);
  Remapping m = {};
  pluto_get_remapping_str(d, umap_to_str(in.dep).c_str(), pc, &m);
  free(d);
  string r = show_remap(m);
  pluto_remapping_free(m);
  pluto_context_free(pc);
  return r;
}

static int k_times = mc::counter_decl("instance_times");
static int k_pairs = mc::counter_decl("instance_pairs_distinguished");
static int k_depinst = mc::counter_decl("dependence_instances");

bool eval_schedule(const Inputs &in, const Conc &c, isl_union_map *sched, Times &out) {
  auto rels = poly::rels_from_umap(sched);
  out.t.assign(in.nstmts, {});
  out.len = 0;
  vector<const poly::Rel *> of(in.nstmts, nullptr);
  // parameters by name
  isl_space *sp = isl_union_map_get_space(sched);
  int np = isl_space_dim(sp, isl_dim_param);
  Vec par(np, 0);
  for (int i = 0; i < np; i++) {
    string n = isl_space_get_dim_name(sp, isl_dim_param, i) ? isl_space_get_dim_name(sp, isl_dim_param, i) : "?";
    bool ok = false;
    for (size_t k = 0; k < in.pnames.size(); k++)
      if (in.pnames[k] == n) { par[i] = c.par[k]; ok = true; }
    if (!ok) { isl_space_free(sp); mc::fail("parameters", "schedule has unknown parameter " + n); return false; }
  }
  isl_space_free(sp);
  for (auto &r : rels) {
    if (r.in.size() < 3 || r.in.compare(0, 2, "S_")) { mc::fail("names", "schedule for unknown tuple '" + r.in + "'"); return false; }
    int s = stmt_no(r.in);
    if (s < 0 || s >= in.nstmts || "S_" + std::to_string(s) != r.in) { mc::fail("names", "schedule for unknown statement " + r.in); return false; }
    if (of[s]) { mc::fail("names", "two schedules for " + r.in); return false; }
    of[s] = &r;
  }
  bool first = true;
  for (int s = 0; s < in.nstmts; s++) {
    if (c.inst[s].empty()) continue;
    if (!of[s]) { mc::fail("partial", "no schedule for S_" + std::to_string(s)); return false; }
    const poly::Rel &r = *of[s];
    if (r.nin != (int)c.inst[s][0].size()) { mc::fail("arity", "schedule domain of S_" + std::to_string(s) + " has wrong dimensionality"); return false; }
    if (first) { out.len = r.nout; first = false; }
    if (out.len != (size_t)r.nout) { mc::fail("length", "statements have time vectors of different length"); return false; }
    for (auto &x : c.inst[s]) {
      vector<Vec> im;
      try { im = poly::image(r, par, x, 2); }
      catch (poly::Unbounded &) { mc::fail("multivalued", "unbounded image of S_" + std::to_string(s) + poly::show(x) + " at " + poly::show(c.par)); return false; }
      if (im.size() != 1) {
        mc::fail(im.empty() ? "partial" : "multivalued",
                 (im.empty() ? "no time for S_" : "two times " + poly::show(im[0]) + poly::show(im[1]) + " for S_") + std::to_string(s) + poly::show(x) +
                     " at " + poly::show(c.par) + " in " + umap_to_str(sched));
        return false;
      }
      out.t[s].push_back(im[0]);
    }
    mc::count(k_times, c.inst[s].size());
  }
  return true;
}
bool check_legal(const Inputs &in, const Conc &c, const Times &t) {
  for (auto &d : c.deps) {
    const Vec &a = t.t[d.ss][d.si], &b = t.t[d.ds][d.di];
    if (poly::lexcmp(a, b) >= 0) {
      mc::fail("illegal", "S_" + std::to_string(d.ss) + poly::show(c.inst[d.ss][d.si]) + " at " + poly::show(a) + " must precede S_" +
                              std::to_string(d.ds) + poly::show(c.inst[d.ds][d.di]) + " at " + poly::show(b) + ", parameters " + poly::show(c.par));
      return false;
    }
  }
  mc::count(k_depinst, c.deps.size());
  return true;
}
bool check_injective(const Inputs &in, const Conc &c, const Times &t) {
  for (int s = 0; s < in.nstmts; s++) {
    std::map<Vec, int> seen;
    for (size_t i = 0; i < t.t[s].size(); i++) {
      auto r = seen.insert({t.t[s][i], (int)i});
      if (!r.second) {
        mc::fail("notinjective", "S_" + std::to_string(s) + poly::show(c.inst[s][i]) + " and " + poly::show(c.inst[s][r.first->second]) +
                                     " both at " + poly::show(t.t[s][i]) + ", parameters " + poly::show(c.par));
        return false;
      }
    }
    mc::count(k_pairs, t.t[s].size() * (t.t[s].size() - 1) / 2);
  }
  return true;
}

void Space::product(bool all) {
  for (size_t p = 0; p < progs.size(); p++)
    for (size_t c = 0; c < confs.size(); c++) {
      // The DFP framework assumes that a legal affine schedule exists (see DESIGN.md).
      if (!progs[p].feasible && confs[c].get("dfp", 0)) continue;
      // Only C01 covers the DFP framework on statements of mixed dimensionality,
      // where it aborts in places (known findings of C01).
      if ((!all || progs[p].id[0] == 'Y') && confs[c].get("dfp", 0) && progs[p].mixed_dims()) continue;
      // SCC clustering aborts on many programs with statements of different
      // dimensionality: kept out but for two (known findings).
      if (confs[c].get("scc_cluster", 0) && progs[p].mixed_dims() && progs[p].id != "H:four" && progs[p].id != "M21:5") continue;
      cases.push_back({(int)p, (int)c});
    }
}
string Space::describe(uint64_t i) const {
  const Prog &p = progs[cases[i].first];
  string s = "domains:      " + domains_str(p) + "\ndependences:  " + deps_str(p) + "\n";
  if (!p.sched.empty())
    s = "domains:   " + domains_str(p) + "\nschedule:  " + umap_str(p, p.sched) + "\nreads:     " + umap_str(p, p.reads) + "\nwrites:    " + umap_str(p, p.writes) + "\n";
  return s + "options:      " + ::show(confs[cases[i].second]) + "\n";
}
const Inputs &Space::inputs(uint64_t i) {
  int p = cases[i].first;
  if (loaded != p) {
    if (loaded >= 0) { unload(in); isl_ctx_free(ctx); ctx = nullptr; }
    ctx = isl_ctx_alloc();
    isl_options_set_on_error(ctx, ISL_ON_ERROR_WARN);
    in = load(ctx, progs[p]);
    loaded = p;
  }
  return in;
}
mc::Check make_space_check(std::shared_ptr<Space> sp, std::function<void(Space &, uint64_t)> run) {
  mc::Check ck;
  ck.ncases = sp->cases.size();
  ck.case_id = [sp](uint64_t i) { return sp->id(i); };
  ck.describe = [sp](uint64_t i) { return sp->describe(i); };
  ck.run = [sp, run](uint64_t i) { run(*sp, i); };
  return ck;
}
