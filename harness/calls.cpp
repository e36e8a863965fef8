#include "calls.h"
#include <cstring>
#include <gmp.h>
extern "C" {
#include "pluto.h"
#include "pluto/matrix.h"
isl_union_map *pluto_parallel_schedule_with_remapping(isl_union_set *, isl_union_map *, Ploop ***, unsigned *, Remapping **, PlutoContext *);
}
using std::string;
using std::vector;
const vector<Prog> &op_progs() {
  static vector<Prog> v;
  if (!v.empty()) return v;
  auto P = [&](const string &id, vector<string> doms, vector<string> deps) {
    Prog p;
    p.id = id;
    p.params = "[N]";
    p.doms = doms;
    p.deps = deps;
    p.pvals = {{4}};
    v.push_back(p);
  };
  // 0: a stencil; 1: three fused or separated statements; 2: no schedule exists;
  // 3: mixed dimensionality; 4: accesses
  P("stencil", {"S_0[i,j] : 0 <= i,j < N"}, {"S_0[i,j] -> S_0[i+1,j-1]", "S_0[i,j] -> S_0[i+1,j]", "S_0[i,j] -> S_0[i+1,j+1]"});
  P("three", {"S_0[i,j] : 0 <= i,j < N", "S_1[i,j] : 0 <= i,j < N", "S_2[i,j] : 0 <= i,j < N"}, {"S_0[i,j] -> S_1[j,i]", "S_1[i,j] -> S_2[i,j]", "S_2[i,j] -> S_2[i,j+1]"});
  P("cyclic", {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N"}, {"S_0[i] -> S_1[i]", "S_1[i] -> S_0[i]"});
  v.back().feasible = false;
  P("mixed", {"S_0[i] : 0 <= i < N", "S_1[i,j] : 0 <= i,j < N"}, {"S_0[i] -> S_1[i,j]", "S_1[i,j] -> S_1[i,j+1]", "S_1[i,j] -> S_0[i+1]"});
  P("access", {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N"}, {"S_0[i] -> S_1[i]"});
  v.back().sched = {"S_0[i] -> [i,0]", "S_1[i] -> [i,1]"};
  v.back().reads = {"S_0[i] -> A[i-1]", "S_1[i] -> A[i]"};
  v.back().writes = {"S_0[i] -> A[i]", "S_1[i] -> B[i]"};
  P("empty", {"S_0[i] : 0 <= i < N"}, {});
  P("pair", {"S_0[i,j] : 0 <= i,j < N", "S_1[i,j] : 0 <= i,j < N"}, {"S_0[i,j] -> S_1[i,j]", "S_0[i,j] -> S_0[i+1,j]", "S_1[i,j] -> S_1[i,j+1]"});
  return v;
}
const vector<Op> &ops() {
  static const vector<Op> o = {{"R:stencil", 'R', 0}, {"T:three", 'T', 1}, {"T:cyclic", 'T', 2}, {"S:access", 'S', 4}, {"Z:pair", 'Z', 6}, {"M:stencil", 'M', 0}, {"T:mixed", 'T', 3},
                               {"R:cyclic", 'R', 2}, {"Z:cyclic", 'Z', 2}, {"M:cyclic", 'M', 2}, {"T:empty", 'T', 5}, {"A:access", 'A', 4}, {"R:mixed", 'R', 3}, {"Z:three", 'Z', 1}};
  return o;
}
const vector<Conf> &op_confs() {
  typedef vector<std::pair<string, long>> L;
  static const L seq = {{"tile", 0}, {"parallel", 0}, {"diamondtile", 0}, {"intratileopt", 0}};
  static const vector<Conf> c = {
      {"seq", seq, "", "", ""},
      {"par", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 1}}, "", "", ""},
      {"max", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}, {"fuse", kMaximalFuse}, {"second_level_tile", 1}, {"lastwriter", 1}}, "", "", ""},
      {"no", {{"tile", 0}, {"parallel", 1}, {"diamondtile", 0}, {"fuse", kNoFuse}, {"rar", 1}, {"islsolve", 1}}, "", "", ""},
      {"dfp", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}, {"glpk", 1}, {"islsolve", 0}, {"dfp", 1}, {"lp", 1}, {"lastwriter", 1}, {"fuse", kTypedFuse}, {"scc_cluster", 1}}, "", "", ""},
      {"dfph", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}, {"glpk", 1}, {"islsolve", 0}, {"dfp", 1}, {"ilp", 1}, {"fuse", kHybridFuse}}, "", "", ""},
      {"glpk", {{"tile", 1}, {"parallel", 0}, {"diamondtile", 0}, {"glpk", 1}, {"islsolve", 0}, {"multipar", 1}}, "", "", ""},
      {"per", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}, {"per_cc_obj", 1}, {"nodepbound", 1}, {"intratileopt", 1}}, "", "", ""},
  };
  return c;
}
bool op_valid(const Op &o, const Conf &c) {
  const Prog &p = op_progs()[o.prog];
  return !(c.get("dfp", 0) && (!p.feasible || p.mixed_dims() || o.entry == 'S'));
}
PlutoContext *make_context(const Conf &c) {
  PlutoContext *pc = pluto_context_alloc();
  apply(c, pc->options);
  return pc;
}
string call(const Op &o, PlutoContext *pc, isl_ctx *ctx) { return call(op_progs()[o.prog], o.entry, pc, ctx); }
string call(const Prog &p, char entry, PlutoContext *pc, isl_ctx *ctx) {
  auto dom = [&]() { return isl_union_set_read_from_str(ctx, domains_str(p).c_str()); };
  auto dep = [&]() { isl_union_map *m = isl_union_map_read_from_str(ctx, deps_str(p).c_str()); m = isl_union_map_intersect_domain(m, dom()); return isl_union_map_intersect_range(m, dom()); };
  auto um = [&](const vector<string> &v) { isl_union_map *m = isl_union_map_read_from_str(ctx, umap_str(p, v).c_str()); return isl_union_map_intersect_domain(m, dom()); };
  string r;
  switch (entry) {
  case 'T': {
    isl_union_map *s = pluto_transform(dom(), dep(), nullptr, nullptr, pc);
    r = umap_to_str(s);
    isl_union_map_free(s);
    break;
  }
  case 'A': {
    isl_union_map *s = pluto_transform(dom(), dep(), um(p.reads), um(p.writes), pc);
    r = umap_to_str(s);
    isl_union_map_free(s);
    break;
  }
  case 'S': {
    isl_union_map *s = pluto_schedule(um(p.sched), um(p.reads), um(p.writes), pc);
    r = umap_to_str(s);
    isl_union_map_free(s);
    break;
  }
  case 'R': {
    Ploop **pl = nullptr;
    unsigned n = 0;
    Remapping *m = nullptr;
    isl_union_map *s = pluto_parallel_schedule_with_remapping(dom(), dep(), &pl, &n, &m, pc);
    r = umap_to_str(s) + " loops";
    for (unsigned i = 0; i < n; i++) r += " " + std::to_string(pl[i]->depth);
    pluto_loops_free(pl, n);
    if (m) { r += show_remap(*m); pluto_remapping_free(*m); free(m); }
    isl_union_map_free(s);
    break;
  }
  case 'Z': {
    char *s = nullptr, *pl = nullptr;
    Remapping *m = nullptr;
    isl_union_map *d = dep();
    pluto_schedule_str(domains_str(p).c_str(), umap_to_str(d).c_str(), &s, &pl, &m, pc);
    isl_union_map_free(d);
    r = (s ? string(s) : "NULL") + " loops " + (pl ? pl : "none");
    if (m) { r += show_remap(*m); pluto_remapping_free(*m); free(m); }
    pluto_schedules_strbuf_free(s);
    free(pl);
    break;
  }
  case 'M': {
    Remapping m;
    memset(&m, 0, sizeof m);
    isl_union_map *d = dep();
    pluto_get_remapping_str(domains_str(p).c_str(), umap_to_str(d).c_str(), pc, &m);
    isl_union_map_free(d);
    r = show_remap(m);
    pluto_remapping_free(m);
    break;
  }
  }
  return r;
}
