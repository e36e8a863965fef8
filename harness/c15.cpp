// C15: fusion control. Reference: strongly connected components of the instance
// level dependences; fusion structures given in files; an exhaustive search for
// a fully fused nest.
#include "obs.h"
#include "unit.h"
#include <algorithm>
#include <set>
using poly::Vec;
using std::string;
using std::vector;
static int k_runs = mc::counter_decl("runs"), k_sep = mc::counter_decl("component_pairs_separated"), k_inst = mc::counter_decl("instances_placed"),
           k_cand = mc::counter_decl("candidate_nests"), k_fus = mc::counter_decl("fusable_programs"), k_fst = mc::counter_decl("fusion_structures"),
           k_pre = mc::counter_decl("given_hyperplanes");
namespace {
struct Case { vector<int> grp; vector<Mat> rows; int tile = 1; }; // per statement group, or given rows
std::map<string, Case> g_case;                                     // by configuration id

// Reachability between statements over dependences that have an instance at the
// enumerated parameter values or any other (by the relations themselves).
vector<vector<char>> reach(const Inputs &in) {
  int n = in.nstmts;
  vector<vector<char>> r(n, vector<char>(n, 0));
  for (auto &e : poly::rels_from_umap(in.dep)) r[stmt_no(e.in)][stmt_no(e.out)] = 1;
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][k] && r[k][j]) r[i][j] = 1;
  return r;
}
void nofuse(const Inputs &in, isl_union_map *s) {
  auto r = reach(in);
  int n = in.nstmts;
  vector<long> at(n, 0);
  vector<char> seen(n, 0);
  for (auto &c : in.conc) {
    Times t;
    if (!eval_schedule(in, c, s, t)) return;
    for (int a = 0; a < n; a++) for (auto &v : t.t[a]) {
      mc::count(k_inst);
      bool one = true; // a single component: no separation needed
      for (int b = 0; b < n; b++) if (b != a && !(r[a][b] && r[b][a])) one = false;
      if (one) continue;
      if (v.empty()) { mc::fail("separate", "the schedule has no dimensions"); return; }
      if (seen[a] && at[a] != v[0]) { mc::fail("separate", "the outermost dimension does not separate: S_" + std::to_string(a) + " has instances at " + std::to_string(at[a]) + " and " + std::to_string(v[0])); return; }
      seen[a] = 1;
      at[a] = v[0];
    }
  }
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && seen[a] && seen[b]) {
    if (r[a][b] && r[b][a]) {
      if (at[a] != at[b]) { mc::fail("split", "S_" + std::to_string(a) + " and S_" + std::to_string(b) + " are in one component but separated outermost"); return; }
      continue;
    }
    mc::count(k_sep);
    if (at[a] == at[b]) { mc::fail("fused", "S_" + std::to_string(a) + " and S_" + std::to_string(b) + " are in different components but share outermost position " + std::to_string(at[a])); return; }
    if (r[a][b] && at[a] > at[b]) { mc::fail("order", "S_" + std::to_string(a) + " feeds S_" + std::to_string(b) + " but comes after it"); return; }
  }
}
// Is there a nest shared by all statements: per statement a permutation of its
// loops with shifts 0 or 1, every dependence non-negative at every level?
bool fusable(const Inputs &in, int d) {
  int n = in.nstmts;
  vector<vector<int>> perms;
  vector<int> id(d);
  for (int i = 0; i < d; i++) id[i] = i;
  do perms.push_back(id); while (std::next_permutation(id.begin(), id.end()));
  int ns = 1;
  for (int i = 0; i < d; i++) ns *= 2;
  int per = perms.size() * ns;
  vector<int> c(n, 0);
  for (;;) {
    mc::count(k_cand);
    bool ok = true;
    for (auto &cc : in.conc) {
      for (auto &e : cc.deps) {
        const Vec &s = cc.inst[e.ss][e.si], &t = cc.inst[e.ds][e.di];
        for (int l = 0; l < d && ok; l++) {
          long a = s[perms[c[e.ss] / ns][l]] + ((c[e.ss] % ns) >> l & 1), b = t[perms[c[e.ds] / ns][l]] + ((c[e.ds] % ns) >> l & 1);
          if (b < a) ok = false;
        }
        if (!ok) break;
      }
      if (!ok) break;
    }
    if (ok) return true;
    int k = n - 1;
    while (k >= 0 && c[k] == per - 1) c[k--] = 0;
    if (k < 0) return false;
    c[k]++;
  }
}
void maxfuse(const Inputs &in, const Snap &s) {
  int n = in.nstmts, d = s.dim_orig[0];
  for (int i = 0; i < n; i++) if (s.dim_orig[i] != d) return;
  if (!d || n < 2) return;
  if (!fusable(in, d)) return;
  mc::count(k_fus);
  for (int q = 0; q < n; q++) {
    Mat m;
    for (int l = 0; l < d && l < (int)s.trans[q].size(); l++) m.push_back(Vec(s.trans[q][l].begin(), s.trans[q][l].begin() + d));
    mc::count(k_inst);
    if ((int)m.size() < d || true_rank(m) < d) { mc::fail("separated", "all statements can share their " + std::to_string(d) + " loops, but S_" + std::to_string(q) + " does not have its loops in the outermost " + std::to_string(d) + " dimensions"); return; }
  }
}
void given(const Inputs &in, const Case &cs, isl_union_map *s, const Snap &sn, bool tiled) {
  if (!s) { mc::fail("nosolution", "scheduling failed with a legal fusion structure"); return; }
  mc::count(k_fst);
  for (auto &c : in.conc) {
    Times t;
    if (!eval_schedule(in, c, s, t) || !check_legal(in, c, t) || !check_injective(in, c, t)) return;
    for (int a = 0; a < in.nstmts; a++) for (size_t i = 0; i < t.t[a].size(); i++) {
      const Vec &v = t.t[a][i];
      mc::count(k_inst);
      if (!cs.grp.empty() && (v.empty() || v[0] != cs.grp[a])) { mc::fail("structure", "S_" + std::to_string(a) + " was put in group " + std::to_string(cs.grp[a]) + " but its instances are at " + poly::show(v)); return; }
      if (!cs.rows.empty() && !tiled) for (size_t r = 0; r < cs.rows[a].size(); r++) {
        mc::count(k_pre);
        long x = cs.rows[a][r].back();
        for (size_t k = 0; k + 1 < cs.rows[a][r].size(); k++) x += cs.rows[a][r][k] * c.inst[a][i][k];
        if (r >= v.size() || v[r] != x) { mc::fail("hyperplane", "S_" + std::to_string(a) + poly::show(c.inst[a][i]) + " is at " + poly::show(v) + " where the given hyperplane " + std::to_string(r) + " has " + std::to_string(x)); return; }
      }
    }
  }
  (void)sn;
}
typedef vector<std::pair<string, long>> L;
// All ordered partitions of n statements into groups.
void partitions(int n, const std::function<void(const vector<int> &)> &cb) {
  vector<int> g(n, 0);
  for (;;) {
    int m = *std::max_element(g.begin(), g.end());
    bool ok = true;
    for (int k = 0; k <= m && ok; k++) ok = std::find(g.begin(), g.end(), k) != g.end();
    if (ok) cb(g);
    int k = n - 1;
    while (k >= 0 && g[k] == n - 1) g[k--] = 0;
    if (k < 0) return;
    g[k]++;
  }
}
bool legal_groups(const Inputs &in, const vector<int> &g) {
  for (auto &e : poly::rels_from_umap(in.dep)) if (g[stmt_no(e.in)] > g[stmt_no(e.out)]) return false;
  return true;
}
// Given hyperplanes: every dependence must be weakly satisfied until it is
// satisfied completely.
bool legal_rows(const Inputs &in, const vector<Mat> &rows) {
  for (auto &c : in.conc) for (auto &e : c.deps) {
    const Vec &s = c.inst[e.ss][e.si], &t = c.inst[e.ds][e.di];
    for (size_t r = 0; r < rows[0].size(); r++) {
      auto val = [&](const Vec &row, const Vec &x) { long v = row.back(); for (size_t k = 0; k + 1 < row.size(); k++) v += row[k] * x[k]; return v; };
      long d = val(rows[e.ds][r], t) - val(rows[e.ss][r], s);
      if (d < 0) return false;
    }
  }
  return true;
}
} // namespace

mc::Check make_c15(const string &tier) {
  int d = tier == "thorough" ? 2 : 1;
  auto sp = std::make_shared<Space>();
  fam_multi(sp->progs, d);
  fam_triples(sp->progs, d);
  fam_shapes(sp->progs, d);
  auto &ps = sp->progs;
  ps.erase(std::remove_if(ps.begin(), ps.end(), [](const Prog &p) { return p.doms.size() < 2 || !p.feasible; }), ps.end());
  L seq = {{"tile", 0}, {"parallel", 0}, {"diamondtile", 0}, {"intratileopt", 0}};
  auto with = [](L a, std::initializer_list<std::pair<string, long>> b) { a.insert(a.end(), b); return a; };
  auto &C = sp->confs;
  // fusion disabled / maximal
  for (auto &x : vector<std::pair<string, L>>{{"seq", seq}, {"tile", with(seq, {{"tile", 1}})}, {"tilepar", with(seq, {{"tile", 1}, {"parallel", 1}})}, {"l2", with(seq, {{"tile", 1}, {"second_level_tile", 1}})}, {"diamond", with(seq, {{"tile", 1}, {"diamondtile", 1}, {"parallel", 1}})}, {"intra", with(seq, {{"tile", 1}, {"intratileopt", 1}})}, {"dfp", with(seq, {{"dfp", 1}, {"glpk", 1}, {"lp", 1}})}, {"glpk", with(seq, {{"glpk", 1}})}})
    C.push_back({"no:" + x.first, with(x.second, {{"fuse", 0}}), "", "", ""});
  C.push_back({"max:seq", with(seq, {{"fuse", 1}}), "", "", ""});
  C.push_back({"max:islsolve", with(seq, {{"fuse", 1}, {"islsolve", 1}}), "", "", ""});
  C.push_back({"max:nodepbound", with(seq, {{"fuse", 1}, {"nodepbound", 1}}), "", "", ""});
  C.push_back({"max:glpk", with(seq, {{"fuse", 1}, {"glpk", 1}}), "", "", ""});
  C.push_back({"max:flic", with(seq, {{"fuse", 1}, {"flic", 1}}), "", "", ""});
  sp->product(false);
  auto &cases = sp->cases;
  // given fusion structures: all ordered partitions of the statements
  std::map<int, vector<int>> byn;
  for (int n = 2; n <= (d == 2 ? 4 : 3); n++)
    partitions(n, [&](const vector<int> &g) {
      int m = *std::max_element(g.begin(), g.end()) + 1;
      string id = "fst:";
      for (int x : g) id += std::to_string(x);
      for (int v = 0; v < 4; v++) {
        // two spellings of the statement lists, all option sets
        string f = std::to_string(m) + "\n";
        for (int k = 0; k < m; k++) {
          vector<int> l;
          for (int i = 0; i < n; i++) if (g[i] == k) l.push_back(i);
          if (v % 2) std::reverse(l.begin(), l.end());
          f += std::to_string(l.size()) + "\n";
          for (int i : l) f += std::to_string(i) + "\n";
          f += v == 3 ? "0\n" : "1\n";
        }
        L o = v == 0 ? seq : v == 1 ? with(seq, {{"tile", 1}}) : v == 2 ? with(seq, {{"fuse", 0}}) : with(seq, {{"tile", 1}, {"fuse", 1}});
        const char *nm[4] = {":seq", ":tile", ":no", ":notile"};
        byn[n].push_back(C.size());
        g_case[id + nm[v]] = {g, {}, v == 3 ? 0 : 1};
        C.push_back({id + nm[v], o, "", f, ""});
      }
    });
  // given hyperplanes for two statements of one and two dimensions
  std::map<std::pair<int, int>, vector<int>> byd;
  for (int a = 1; a <= 2; a++) for (int b = 1; b <= 2; b++) {
    auto rowset = [](int dim) { Mat m; for (int k = 0; k < dim; k++) { Vec v(dim + 1, 0); v[k] = 1; m.push_back(v); v[dim] = 1; m.push_back(v); } if (dim == 2) m.push_back({1, 1, 0}); return m; };
    auto sc = [](int dim, long v) { Vec r(dim + 1, 0); r[dim] = v; return r; };
    vector<vector<Mat>> cand;
    for (auto &x : rowset(a)) for (auto &y : rowset(b)) {
      cand.push_back({{x}, {y}});
      for (int s = 0; s < 3; s++) cand.push_back({{sc(a, s == 1), x}, {sc(b, s == 2), y}});
      if (a == 2 && b == 2) for (auto &z : rowset(a)) if (z[0] * x[1] != z[1] * x[0] && z[0] * y[1] != z[1] * y[0]) cand.push_back({{x, z}, {y, z}});
    }
    for (size_t q = 0; q < cand.size(); q++) {
      string f = "2\n1\n";
      for (int s = 0; s < 2; s++) {
        int dim = s ? b : a;
        f += std::to_string(cand[q][s].size()) + " " + std::to_string(dim + 3) + "\n";
        for (auto &r : cand[q][s]) { f += "0 "; for (int k = 0; k < dim; k++) f += std::to_string(r[k]) + " "; f += "0 " + std::to_string(r[dim]) + "\n"; }
        f += "1\n0\n";
      }
      string id = "pre" + std::to_string(a) + std::to_string(b) + ":" + std::to_string(q);
      g_case[id] = {{}, cand[q], 0};
      byd[{a, b}].push_back(C.size());
      C.push_back({id, seq, "", "", f});
    }
  }
  for (size_t p = 0; p < ps.size(); p++) {
    isl_ctx *ctx = isl_ctx_alloc();
    Inputs in = load(ctx, ps[p]);
    for (int c : byn[in.nstmts]) if (legal_groups(in, g_case[C[c].id].grp)) cases.push_back({(int)p, c});
    if (in.nstmts == 2 && in.pnames.size() == 1) {
      int dim[2] = {-1, -1};
      for (auto &c : in.conc) for (int s = 0; s < 2; s++) if (!c.inst[s].empty()) dim[s] = c.inst[s][0].size();
      if (byd.count({dim[0], dim[1]})) {
        Prog q = ps[p]; // legal at a parameter value beyond every constant involved
        q.pvals = {{9}};
        Inputs big = load(ctx, q);
        for (int c : byd[{dim[0], dim[1]}]) if (legal_rows(in, g_case[C[c].id].rows) && legal_rows(big, g_case[C[c].id].rows)) cases.push_back({(int)p, c});
        unload(big);
      }
    }
    unload(in);
    isl_ctx_free(ctx);
  }
  std::stable_sort(cases.begin(), cases.end(), [](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.first < b.first; });
  auto c = make_space_check(sp, [](Space &sp, uint64_t i) {
    const Inputs &in = sp.inputs(i);
    const Conf &cf = sp.confs[sp.cases[i].second];
    mc::count(k_runs);
    Snap sn, fin;
    g_observe = [&](PlutoProg *prog, const string &pt) { if (pt == "transformed") sn = snapshot(prog, false); else fin = snapshot(prog, false); };
    isl_union_map *s = run_transform(sp.ctx, in, cf);
    g_observe = nullptr;
    mc::outcome(umap_to_str(s));
    if (g_case.count(cf.id)) given(in, g_case[cf.id], s, fin, cf.get("tile", 0));
    else if (!s) { if (!cf.get("flic", 0)) mc::fail("nosolution", "scheduling failed though the original order is legal"); }
    else if (cf.get("fuse", 2) == 0) nofuse(in, s);
    else if (sn.set) maxfuse(in, sn);
    isl_union_map_free(s);
  });
  c.bounds = "programs with two to four statements; fusion disabled under eight option sets; maximal fusion against all fully fused nests with permuted loops and shifts 0 or 1; "
             "every legal ordered partition of the statements given as a fusion structure under four option sets; given hyperplanes (one or two per statement)";
  return c;
}
