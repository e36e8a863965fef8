#include "sched.h"
#include <set>
using std::string;
using std::vector;
static int k_prog = mc::counter_decl("runs"), k_null = mc::counter_decl("returned_failure"), k_sched = mc::counter_decl("schedules_returned"),
           k_val = mc::counter_decl("valuations");

static int k_acc = mc::counter_decl("runs_with_accesses");
static int k_text = mc::counter_decl("runs_through_text_interface");
static isl_union_map *run_text(isl_ctx *ctx, const Inputs &in, const Conf &cf) {
  TextRun r = run_str(in, cf);
  if (!r.have) return nullptr;
  isl_union_map *m = isl_union_map_read_from_str(ctx, r.sched.c_str());
  if (!m) mc::fail("text", "the schedule returned as text cannot be read: " + r.sched);
  return m;
}
static std::shared_ptr<Space> full_space(const string &tier, bool all = false) {
  int d = tier == "thorough" ? 2 : 1;
  auto sp = std::make_shared<Space>();
  fam_shapes(sp->progs, d);
  fam_infeasible(sp->progs, d);
  fam_uniform(sp->progs, d);
  fam_nonuniform(sp->progs, d);
  fam_multi(sp->progs, d);
  fam_triples(sp->progs, d);
  fam_big(sp->progs, d);
  fam_chains(sp->progs, d);
  fam_nested3(sp->progs, d);
  sp->confs = configs(d);
  sp->product(all);
  return sp;
}
// Array accesses of every statement, which the choice of the innermost loop
// looks at: the iterators in order, reversed, rotated, or the last but one alone.
static isl_union_map *accesses(isl_ctx *ctx, const Inputs &in, const Prog &p, int pattern, bool write) {
  vector<string> v;
  for (auto &d : p.doms) {
    string t = d.substr(0, d.find(']') + 1);
    vector<string> it;
    string w;
    for (char c : t.substr(t.find('[') + 1)) {
      if (c == ',' || c == ']') { if (!w.empty()) it.push_back(w); w.clear(); }
      else if (c != ' ') w += c;
    }
    int n = it.size();
    string r = (write ? "W" : "R") + std::to_string(n) + "[";
    if (pattern == 4) r += n >= 2 ? it[n - 2] : n ? it[0] : "";
    else
      for (int k = 0; k < n; k++) r += (k ? "," : "") + it[pattern == 1 ? k : pattern == 2 ? n - 1 - k : (k + 1) % n];
    v.push_back(t + " -> " + r + "]");
  }
  isl_union_map *m = isl_union_map_read_from_str(ctx, umap_str(p, v).c_str());
  if (!m) { fprintf(stderr, "bad accesses %s\n", umap_str(p, v).c_str()); abort(); }
  return isl_union_map_intersect_domain(m, isl_union_set_copy(in.dom));
}
static bool judge(Space &sp, uint64_t i, isl_union_map *s, std::set<string> &seen, bool legal, bool inj) {
  const Inputs &in = sp.inputs(i);
  const Prog &p = sp.progs[sp.cases[i].first];
  const Conf &cf = sp.confs[sp.cases[i].second];
  if (!s) {
    mc::count(k_null);
    // the bound on coefficients also bounds the shifts that these need
    bool bounded = p.id[0] == 'Y' && cf.get("coeff_bound", 0);
    if (p.feasible && !bounded && !cf.get("flic", 0)) mc::fail("nosolution", "scheduling failed though the original order is legal");
    return !mc::failed();
  }
  mc::count(k_sched);
  string str = umap_to_str(s);
  if (seen.insert(str).second) {
    mc::outcome(str);
    if (mc::verbose()) fprintf(stderr, "%s\n", str.c_str());
    for (auto &c : in.conc) {
      mc::count(k_val);
      Times t;
      if (!eval_schedule(in, c, s, t)) break;
      if (legal && !check_legal(in, c, t)) break;
      if (inj && !check_injective(in, c, t)) break;
    }
    if (i % 977 == 5) mc::sample(sp.describe(i) + "schedule: " + str);
  }
  isl_union_map_free(s);
  return !mc::failed();
}
static void run(Space &sp, uint64_t i, bool legal, bool inj, bool every) {
  const Inputs &in = sp.inputs(i);
  const Prog &p = sp.progs[sp.cases[i].first];
  const Conf &cf = sp.confs[sp.cases[i].second];
  std::set<string> seen;
  mc::count(k_prog);
  // every fourth case through the interface that takes and returns text
  bool text = i % 4 == 1;
  if (text) mc::count(k_text);
  if (!judge(sp, i, text ? run_text(sp.ctx, in, cf) : run_transform(sp.ctx, in, cf), seen, legal, inj)) return;
  // the order of loops in a tile also depends on the accesses
  if (!cf.get("intratileopt", 1) || cf.get("dfp", 0)) return;
  for (int a = 1; a <= 4; a++) {
    if (!every && (a + sp.cases[i].first + sp.cases[i].second) % 2) continue; // quick: two of the four patterns
    mc::count(k_acc);
    if (!judge(sp, i, run_transform(sp.ctx, in, cf, accesses(sp.ctx, in, p, a, false), accesses(sp.ctx, in, p, a == 4 ? 2 : a, true)), seen, legal, inj)) {
      fprintf(stderr, "(with access pattern %d)\n", a);
      return;
    }
  }
}
mc::Check make_c01(const string &tier) {
  auto sp = full_space(tier, true);
  bool every = tier == "thorough";
  return make_space_check(sp, [every](Space &sp, uint64_t i) { run(sp, i, true, false, every); });
}
mc::Check make_c02(const string &tier) {
  auto sp = full_space(tier);
  bool every = tier == "thorough";
  return make_space_check(sp, [every](Space &sp, uint64_t i) { run(sp, i, false, true, every); });
}
