// C05: programs given by schedule and accesses. The reference executes the
// instances on an abstract memory that records the last writer of each cell, in
// the original and in the returned order.
#include "sched.h"
#include <algorithm>
using poly::Vec;
using std::string;
using std::vector;

static int k_runs = mc::counter_decl("runs"), k_null = mc::counter_decl("returned_failure"), k_val = mc::counter_decl("valuations"),
           k_exec = mc::counter_decl("instances_executed"), k_reads = mc::counter_decl("reads_compared"),
           k_conf = mc::counter_decl("conflicting_pairs_ordered");

namespace {
struct Fam {
  vector<Prog> &out;
  int n = 0;
  string pfx;
  void add(const string &params, vector<Vec> pv, vector<string> doms, vector<string> sched, vector<string> reads, vector<string> writes,
           const string &id = "") {
    Prog p;
    p.id = pfx + ":" + (id.empty() ? std::to_string(n) : id);
    n++;
    p.params = params;
    p.pvals = pv;
    p.doms = doms;
    for (size_t s = 0; s < doms.size(); s++) {
      string t = doms[s].substr(0, doms[s].find(']') + 1), c = doms[s].find(':') == string::npos ? "" : doms[s].substr(doms[s].find(':'));
      p.sched.push_back(t + " -> " + sched[s] + " " + c);
    }
    auto fix = [&](vector<string> v) {
      vector<string> r;
      for (auto &a : v) { // "0 A[i]" -> "S_0[i,j] -> A[i] : dom"
        int s = a[0] - '0';
        string t = doms[s].substr(0, doms[s].find(']') + 1), c = doms[s].find(':') == string::npos ? "" : doms[s].substr(doms[s].find(':') + 1);
        string acc = a.substr(2), extra;
        size_t k = acc.find('|');
        if (k != string::npos) { extra = acc.substr(k + 1); acc = acc.substr(0, k); }
        string cond = c;
        if (!extra.empty()) cond = cond.empty() ? extra : "(" + c + ") and (" + extra + ")";
        r.push_back(t + " -> " + acc + (cond.empty() ? "" : " : " + cond));
      }
      return r;
    };
    // negative coefficients are not in the scheduler's search space: it may find nothing for reversed loops
    for (auto &x : sched) if (x.find("-") != string::npos) p.feasible = false;
    p.reads = fix(reads);
    p.writes = fix(writes);
    out.push_back(p);
  }
};
} // namespace

static void subsets2(const vector<string> &m, const std::function<void(const vector<string> &)> &cb) {
  cb({});
  for (size_t a = 0; a < m.size(); a++) {
    cb({m[a]});
    for (size_t b = a + 1; b < m.size(); b++) cb({m[a], m[b]});
  }
}

void fam_access(vector<Prog> &out, int depth) {
  auto P = [](const string &s, const vector<string> &v) {
    vector<string> r;
    for (auto &x : v) r.push_back(s + " " + x);
    return r;
  };
  { // one statement, one loop: every write, every pair of reads, both directions
    Fam f{out, 0, "A1"};
    vector<string> m = {"A[i]", "A[i+1]", "A[i-1]", "A[2i]", "A[N-i]", "A[0]", "A[3-i]", "A[x] | 2x <= i < 2x+2"};
    vector<string> w = {"A[i]", "A[2i]", "A[N-i]", "A[0]", "A[i+1]", "A[x] | i <= x <= i+1", "A[x] | 2x <= i < 2x+2"};
    for (auto &wr : w)
      for (auto &sc : vector<string>{"[i]", "[-i]"})
        subsets2(m, [&](const vector<string> &r) {
          if (depth < 2 && r.size() == 2 && (f.n++) % 4) return;
          f.add("[N]", {{1}, {6}}, {"S_0[i] : 0 <= i < N"}, {sc}, P("0", r), {"0 " + wr});
        });
  }
  { // one statement, two loops
    Fam f{out, 0, "A2"};
    vector<string> m = {"A[i-1,j]", "A[i,j-1]", "A[i+1,j-1]", "A[j,i]", "A[i-1,j-1]", "A[i+1,j+1]", "A[0,j]", "A[N-1-i,j]"};
    for (auto &sc : vector<string>{"[i,j]", "[j,i]", "[i,-j]"})
      subsets2(m, [&](const vector<string> &r) {
        if (depth < 2 && sc != "[i,j]" && r.size() == 2 && (f.n++) % 3) return;
        f.add("[N]", {{2}, {4}}, {"S_0[i,j] : 0 <= i,j < N"}, {sc}, P("0", r), {"0 A[i,j]"});
      });
    vector<string> m1 = {"A[i]", "A[j]", "A[i+j]", "A[i-j]", "A[0]", "A[i-1]", "A[j+1]"};
    for (auto &wr : vector<string>{"A[i]", "A[j]", "A[i+j]", "A[i-j]", "A[0]"})
      for (auto &sc : vector<string>{"[i,j]", "[j,i]"})
        subsets2(m1, [&](const vector<string> &r) {
          if (depth < 2 && r.size() == 2 && (f.n++) % 4) return;
          f.add("[N]", {{2}, {4}}, {"S_0[i,j] : 0 <= i < N and 0 <= j <= i"}, {sc}, P("0", r), {"0 " + wr});
        });
  }
  { // two statements in one dimension: order of the statements, fused or not
    Fam f{out, 0, "A3"};
    vector<string> off = {"i", "i-1", "i+1", "2i", "N-1-i", "0"};
    vector<std::pair<string, string>> sc = {{"[i,0]", "[i,1]"}, {"[0,i]", "[1,i]"}, {"[1,i]", "[0,i]"}, {"[i,1]", "[i,0]"}, {"[0,i]", "[1,-i]"}, {"[i,0]", "[i+1,1]"}};
    for (auto &s : sc)
      for (auto &a : off)
        for (auto &b : off) {
          vector<string> d = {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N"};
          auto A = [&](vector<string> r, vector<string> w) {
            f.add("[N]", {{1}, {5}}, d, {s.first, s.second}, r, w);
            // the first hyperplane found, h(S_0) = i, h(S_1) = 2i, need not extend to a schedule: the scheduler may give up
            if (a == "2i" || b == "2i") out.back().feasible = false;
          };
          A({"1 A[" + a + "]", "0 B[" + b + "]"}, {"0 A[i]", "1 B[i]"});
          if (depth < 2 && (f.n) % 3) { f.n++; continue; }
          A({"1 A[" + a + "]", "1 A[" + b + "]"}, {"0 A[i]", "1 A[i]"});
          A({"0 A[" + a + "]"}, {"0 B[i]", "1 A[" + b + "]"});
          A({"1 B[i]", "0 C[]"}, {"0 A[" + a + "]", "1 A[" + b + "]", "1 C[]"});
        }
  }
  { // imperfect nests and mixed dimensionality
    Fam f{out, 0, "A4"};
    vector<string> d = {"S_0[i] : 0 <= i < N", "S_1[i,j] : 0 <= i,j < N", "S_2[i] : 0 <= i < N"};
    for (auto &r1 : vector<string>{"s[i]", "s[j]", "s[]", "s[i+j]"})
      for (auto &r2 : vector<string>{"x[i,j-1]", "x[i-1,j]", "x[j,i]", "s[i-1]"})
        for (auto &r3 : vector<string>{"x[i,0]", "x[0,i]", "s[i]", "x[i,i]"}) {
          string w0 = r1 == "s[]" ? "s[]" : "s[i]";
          f.add("[N]", {{1}, {3}}, d, {"[i,0,0]", "[i,1,j]", "[i,2,0]"}, {"1 " + r1, "1 " + r2, "2 " + r3}, {"0 " + w0, "1 x[i,j]", "2 " + w0});
          if (depth >= 2 || f.n % 2) f.add("[N]", {{1}, {3}}, d, {"[0,i,0]", "[1,i,j]", "[2,i,0]"}, {"1 " + r1, "1 " + r2, "2 " + r3}, {"0 " + w0, "1 x[i,j]", "2 " + w0});
        }
  }
  { // kernels
    Fam f{out, 0, "A5"};
    f.add("[N]", {{1}, {3}}, {"S_0[i,j] : 0 <= i,j < N", "S_1[i,j,k] : 0 <= i,j,k < N"}, {"[i,j,0,0]", "[i,j,1,k]"},
          {"1 C[i,j]", "1 A[i,k]", "1 B[k,j]"}, {"0 C[i,j]", "1 C[i,j]"}, "matmul-init");
    f.add("[N]", {{1}, {3}}, {"S_0[i,j,k] : 0 <= i,j,k < N"}, {"[k,i,j]"}, {"0 C[i,j]", "0 A[i,k]", "0 B[k,j]"}, {"0 C[i,j]"}, "matmul-kij");
    f.add("[N]", {{2}, {4}}, {"S_0[k,j] : 0 <= k < N and k < j < N", "S_1[k,i,j] : 0 <= k < N and k < i,j < N"}, {"[k,0,j,0]", "[k,1,i,j]"},
          {"0 a[k,j]", "0 a[k,k]", "1 a[i,j]", "1 a[i,k]", "1 a[k,j]"}, {"0 a[k,j]", "1 a[i,j]"}, "lu");
    f.add("[T,N]", {{2, 4}, {3, 5}}, {"S_0[t,i] : 0 <= t < T and 1 <= i < N - 1"}, {"[t,i]"}, {"0 A[i-1]", "0 A[i]", "0 A[i+1]"}, {"0 A[i]"}, "seidel1d");
    f.add("[T,N]", {{2, 4}, {3, 5}}, {"S_0[t,i] : 0 <= t < T and 1 <= i < N - 1", "S_1[t,i] : 0 <= t < T and 1 <= i < N - 1"}, {"[t,0,i]", "[t,1,i]"},
          {"0 A[i-1]", "0 A[i]", "0 A[i+1]", "1 B[i]"}, {"0 B[i]", "1 A[i]"}, "jacobi1d-imper");
    f.add("[T,N]", {{2, 4}, {3, 5}}, {"S_0[t,i] : 0 <= t < T and 1 <= i < N - 1"}, {"[t,i]"}, {"0 A[t,i-1]", "0 A[t,i]", "0 A[t,i+1]"}, {"0 A[t+1,i]"}, "heat1d");
    f.add("[N]", {{1}, {3}}, {"S_0[i] : 0 <= i < N", "S_1[i,j] : 0 <= i,j < N", "S_2[i,j] : 0 <= i,j < N"}, {"[0,i,0,0]", "[1,i,j,0]", "[2,i,j,0]"},
          {"1 x1[i]", "1 A[i,j]", "1 y1[j]", "2 x2[i]", "2 A[j,i]", "2 y2[j]"}, {"0 x2[i]", "1 x1[i]", "2 x2[i]"}, "mvt");
    f.add("[N]", {{2}, {4}}, {"S_0[i] : 0 <= i < N", "S_1[i,j] : 0 <= i < N and 0 <= j < i", "S_2[i] : 0 <= i < N"}, {"[i,0,0]", "[i,1,j]", "[i,2,0]"},
          {"0 b[i]", "1 x[i]", "1 L[i,j]", "1 x[j]", "2 x[i]", "2 L[i,i]"}, {"0 x[i]", "1 x[i]", "2 x[i]"}, "trisolv");
    f.add("[N]", {{2}, {4}}, {"S_0[]", "S_1[i] : 0 <= i < N", "S_2[]"}, {"[0,0]", "[1,i]", "[2,0]"}, {"1 s[]", "1 A[i]", "2 s[]"}, {"0 s[]", "1 s[]", "2 r[]"}, "reduce");
    f.add("[N]", {{2}, {4}}, {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N", "S_2[i] : 0 <= i < N"}, {"[i,0]", "[i,1]", "[i,2]"}, {"1 t[]", "2 t[]", "0 A[i]"},
          {"0 t[]", "1 B[i]", "2 A[N-1-i]"}, "scalar-temp");
    f.add("[N]", {{3}, {5}}, {"S_0[i,j] : (0 <= i < 2 or N - 1 <= i <= N) and 0 <= j < 3", "S_1[i] : 0 <= i <= N"}, {"[0,i,j]", "[1,i,0]"},
          {"0 A[i-1,j]", "1 A[i,0]", "1 A[i,2]"}, {"0 A[i,j]", "1 B[i]"}, "union-domain");
    f.add("[N]", {{3}, {5}}, {"S_0[i] : 0 <= i <= N"}, {"[i]"}, {"0 A[i] | i <= 1", "0 A[x] | i >= N - 1 and x = i - 2"}, {"0 A[i+1] | i >= 2", "0 A[0] | i <= 1"}, "cond-access");
    f.add("[N]", {{3}, {5}}, {"S_0[i] : 0 <= i <= N", "S_1[i] : 0 <= i <= N"}, {"[2i]", "[2i+1]"}, {"0 A[i-1]", "1 A[i]"}, {"0 A[i]", "1 B[i]"}, "strided-time");
    f.add("[N]", {{3}, {5}}, {"S_0[i] : 0 <= i <= N and i mod 2 = 0"}, {"[i]"}, {"0 A[i-2]"}, {"0 A[i]"}, "strided-domain");
    f.add("[N]", {{2}, {3}}, {"S_0[t,i,j] : 0 <= t < N and 1 <= i,j < 3"}, {"[t,i,j]"}, {"0 A[i-1,j]", "0 A[i,j-1]", "0 A[i+1,j]", "0 A[i,j+1]"}, {"0 A[i,j]"}, "seidel2d");
    f.add("[N]", {{1}, {3}}, {"S_0[i,j] : 0 <= i,j < N", "S_1[i,j] : 0 <= i,j < N"}, {"[0,i,j]", "[1,i,j]"}, {"1 A[j,i]"}, {"0 A[i,j]", "1 B[i,j]"}, "transpose");
    f.add("[N]", {{1}, {3}}, {"S_0[i,j] : 0 <= i,j < N", "S_1[i,j] : 0 <= i,j < N"}, {"[0,i,j]", "[1,i,j]"}, {"1 A[i,j]", "0 B[i,j]"}, {"0 A[j,i]", "1 B[j,i]"}, "transpose2");
    f.add("[N]", {{1}, {4}}, {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N"}, {"[0,i]", "[1,i]"}, {}, {"0 A[i]", "1 B[i]"}, "noreads");
    f.add("[N]", {{1}, {4}}, {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N"}, {"[0,i]", "[1,i]"}, {"0 A[i]", "1 A[i]"}, {}, "nowrites");
    f.add("[]", {{}}, {"S_0[i] : 0 <= i <= 4", "S_1[i,j] : 0 <= i <= 3 and 0 <= j <= 3"}, {"[0,i,0]", "[1,i,j]"}, {"1 A[i+1]", "1 X[i,j-1]"}, {"0 A[i]", "1 X[i,j]"}, "constant");
  }
}

vector<Conf> confs_access(int depth) {
  typedef vector<std::pair<string, long>> L;
  vector<Conf> c;
  const string T2 = "2\n3\n2\n3\n2\n2\n3\n2\n";
  auto C = [&](const string &id, L l, const string &ts = "") { c.push_back({id, l, ts, "", ""}); };
  L seq = {{"tile", 0}, {"parallel", 0}, {"diamondtile", 0}, {"intratileopt", 0}};
  auto W = [](L a, const L &b) { for (auto &x : b) a.push_back(x); return a; };
  C("seq", seq);
  C("seq-lw", W(seq, {{"lastwriter", 1}}));
  C("seq-coal", W(seq, {{"isldepcoalesce", 1}}));
  C("max-lw-coal", W(seq, {{"isldepcoalesce", 1}, {"lastwriter", 1}, {"fuse", kMaximalFuse}}));
  C("no-lw", W(seq, {{"lastwriter", 1}, {"fuse", kNoFuse}}));
  C("rar", W(seq, {{"rar", 1}}));
  C("rar-lw-intra", W(seq, {{"rar", 1}, {"lastwriter", 1}, {"intratileopt", 1}}));
  C("tile-lw", {{"tile", 1}, {"parallel", 1}, {"lastwriter", 1}, {"fuse", kMaximalFuse}}, T2);
  C("tile", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}}, T2);
  C("diamond", {{"tile", 1}, {"parallel", 1}, {"second_level_tile", 1}}, T2);
  if (depth >= 1) {
    C("innerpar-lw", W(seq, {{"parallel", 1}, {"innerpar", 1}, {"lastwriter", 1}, {"intratileopt", 1}}));
    C("glpk-lw", W(seq, {{"glpk", 1}, {"islsolve", 0}, {"lastwriter", 1}}));
    C("multipar", {{"tile", 1}, {"parallel", 1}, {"multipar", 1}, {"prevector", 1}, {"unrolljam", 1}, {"diamondtile", 0}}, T2);
    C("findts", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}, {"find_tile_sizes", 1}, {"cache_size", 65536}});
    C("findts-diam", {{"tile", 1}, {"parallel", 1}, {"lastwriter", 1}, {"find_tile_sizes", 1}, {"cache_size", 16384}, {"fuse", kMaximalFuse}});
    C("percc-lw", W(seq, {{"lastwriter", 1}, {"per_cc_obj", 1}, {"nodepbound", 1}}));
  }
  return c;
}

namespace {
struct Exec {
  typedef std::pair<int, int> Inst;
  vector<std::pair<Inst, vector<int>>> reads; // per instance in execution order: the writers it saw (-1: initial)
  std::map<std::pair<string, Vec>, Inst> mem;
};
typedef std::pair<string, Vec> Cell;
struct Acc { vector<vector<vector<Cell>>> r, w; };
} // namespace

static vector<vector<vector<Cell>>> accesses(isl_union_map *um, const Inputs &in, const Conc &c) {
  vector<vector<vector<Cell>>> r(in.nstmts);
  for (int s = 0; s < in.nstmts; s++) r[s].resize(c.inst[s].size());
  isl_space *sp = isl_union_map_get_space(um);
  Vec par;
  for (int i = 0, n = isl_space_dim(sp, isl_dim_param); i < n; i++)
    for (size_t k = 0; k < in.pnames.size(); k++)
      if (in.pnames[k] == isl_space_get_dim_name(sp, isl_dim_param, i)) par.push_back(c.par[k]);
  isl_space_free(sp);
  for (auto &rel : poly::rels_from_umap(um)) {
    int s = stmt_no(rel.in);
    for (size_t i = 0; i < c.inst[s].size(); i++)
      for (auto &v : poly::image(rel, par, c.inst[s][i], 1000)) r[s][i].push_back({rel.out, v});
  }
  return r;
}
static string iname(const Conc &c, std::pair<int, int> x) {
  return x.first < 0 ? "initial contents" : "S_" + std::to_string(x.first) + poly::show(c.inst[x.first][x.second]);
}

typedef std::map<std::pair<std::pair<int, int>, Cell>, std::pair<int, int>> Seen;
static void execute(const Inputs &in, const Conc &c, const Times &t, const Acc &a, Seen &seen, std::map<Cell, std::pair<int, int>> &mem) {
  vector<std::pair<int, int>> order;
  for (int s = 0; s < in.nstmts; s++) for (size_t i = 0; i < c.inst[s].size(); i++) order.push_back({s, (int)i});
  std::stable_sort(order.begin(), order.end(), [&](auto &x, auto &y) { return poly::lexcmp(t.t[x.first][x.second], t.t[y.first][y.second]) < 0; });
  for (auto &x : order) {
    mc::count(k_exec);
    for (auto &l : a.r[x.first][x.second]) {
      auto m = mem.find(l);
      seen[{x, l}] = m == mem.end() ? std::make_pair(-1, -1) : m->second;
    }
    for (auto &l : a.w[x.first][x.second]) mem[l] = x;
  }
}

static void run_c05(Space &sp, uint64_t i) {
  const Inputs &in = sp.inputs(i);
  const Prog &p = sp.progs[sp.cases[i].first];
  const Conf &cf = sp.confs[sp.cases[i].second];
  isl_union_map *orig = isl_union_map_read_from_str(sp.ctx, umap_str(p, p.sched).c_str());
  isl_union_map *reads = isl_union_map_read_from_str(sp.ctx, umap_str(p, p.reads).c_str());
  isl_union_map *writes = isl_union_map_read_from_str(sp.ctx, umap_str(p, p.writes).c_str());
  PlutoContext *pc = pluto_context_alloc();
  apply(cf, pc->options);
  write_conf_files(cf);
  mc::count(k_runs);
  isl_union_map *s = pluto_schedule(isl_union_map_copy(orig), isl_union_map_copy(reads), isl_union_map_copy(writes), pc);
  pluto_context_free(pc);
  if (!s) {
    mc::count(k_null);
    if (p.feasible) mc::fail("nosolution", "scheduling failed though the original order is legal");
  }
  string str = umap_to_str(s);
  mc::outcome(str);
  if (mc::verbose()) fprintf(stderr, "%s\n", str.c_str());
  for (auto &c : in.conc) {
    if (!s) break;
    mc::count(k_val);
    Times t0, t1;
    if (!eval_schedule(in, c, orig, t0) || !eval_schedule(in, c, s, t1)) break;
    // the result also states the domains
    isl_space *spc = isl_union_map_get_space(s);
    Vec par;
    for (int q = 0, n = isl_space_dim(spc, isl_dim_param); q < n; q++)
      for (size_t k = 0; k < in.pnames.size(); k++)
        if (in.pnames[k] == isl_space_get_dim_name(spc, isl_dim_param, q)) par.push_back(c.par[k]);
    isl_space_free(spc);
    bool bad = false;
    for (auto &r : poly::rels_from_umap(s)) {
      size_t got = poly::points(r, par).size();
      if (got != c.inst[stmt_no(r.in)].size()) { mc::fail("domain", r.in + " is scheduled for " + std::to_string(got) + " instances instead of " + std::to_string(c.inst[stmt_no(r.in)].size())); bad = true; }
    }
    if (bad) break;
    Acc a{accesses(reads, in, c), accesses(writes, in, c)};
    Seen r0, r1;
    std::map<Cell, std::pair<int, int>> m0, m1;
    execute(in, c, t0, a, r0, m0);
    execute(in, c, t1, a, r1, m1);
    // instances at the same time may run in any order: no conflict among them
    std::map<Cell, vector<std::pair<std::pair<int, int>, bool>>> use;
    for (int q = 0; q < in.nstmts; q++)
      for (size_t k = 0; k < c.inst[q].size(); k++) {
        for (auto &l : a.r[q][k]) use[l].push_back({{q, (int)k}, false});
        for (auto &l : a.w[q][k]) use[l].push_back({{q, (int)k}, true});
      }
    for (auto &u : use) {
      for (auto &x : u.second) for (auto &y : u.second) {
        if (!x.second || x.first == y.first || bad) continue;
        mc::count(k_conf);
        if (!poly::lexcmp(t1.t[x.first.first][x.first.second], t1.t[y.first.first][y.first.second])) {
          mc::fail("race", iname(c, x.first) + " and " + iname(c, y.first) + " access " + u.first.first + poly::show(u.first.second) + " at the same time, parameters " + poly::show(c.par) + " in " + str);
          bad = true;
        }
      }
    }
    if (bad) break;
    for (auto &e : r0) {
      mc::count(k_reads);
      auto o = r1.at(e.first);
      if (o != e.second) {
        mc::fail("read", iname(c, e.first.first) + " reads " + e.first.second.first + poly::show(e.first.second.second) + " of " + iname(c, o) + " instead of " + iname(c, e.second) + ", parameters " + poly::show(c.par) + " in " + str);
        bad = true;
        break;
      }
    }
    if (bad) break;
    if (m0 != m1) { mc::fail("memory", "the final contents differ, parameters " + poly::show(c.par) + " in " + str); break; }
  }
  if (i % 977 == 5) mc::sample(sp.describe(i) + "schedule: " + str);
  isl_union_map_free(s);
  isl_union_map_free(orig);
  isl_union_map_free(reads);
  isl_union_map_free(writes);
}
mc::Check make_c05(const string &tier) {
  int d = tier == "thorough" ? 2 : 1;
  auto sp = std::make_shared<Space>();
  fam_access(sp->progs, d);
  sp->confs = confs_access(d);
  sp->product(true);
  // Fourier-Motzkin elimination runs out of memory on the coalesced dependences of this one
  auto &c = sp->cases;
  c.erase(std::remove_if(c.begin(), c.end(), [&](auto &x) { return sp->progs[x.first].id == "A5:seidel2d" && sp->confs[x.second].get("isldepcoalesce", 0); }), c.end());
  return make_space_check(sp, run_c05);
}
