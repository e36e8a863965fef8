// C06: optimality of the outermost hyperplane; C16: coefficient bounds in use.
#include "obs.h"
#include <algorithm>
#include <map>
using poly::Vec;
using std::string;
using std::vector;
static int k_runs = mc::counter_decl("runs"), k_cand = mc::counter_decl("candidate_hyperplanes"), k_legal = mc::counter_decl("legal_candidates"),
           k_dist = mc::counter_decl("distances_evaluated"), k_rows = mc::counter_decl("hyperplanes_bounded");
static int dims_of(const Prog &p, int s) {
  const string &d = p.doms[s];
  size_t a = d.find('['), b = d.find(']');
  if (b == a + 1) return 0;
  return 1 + std::count(d.begin() + a, d.begin() + b, ',');
}
static bool same_dims(const Prog &p) {
  for (size_t s = 1; s < p.doms.size(); s++) if (dims_of(p, s) != dims_of(p, 0)) return false;
  return dims_of(p, 0) > 0;
}
struct Inst { // flattened dependence instances at one parameter value
  vector<std::pair<const Vec *, const Vec *>> pts;
  vector<std::pair<int, int>> st;
};
// The smallest (u, w), lexicographically, with distance <= u . N + w on all
// instances; the parameters grow independently of each other.
static Vec measure(const vector<Vec> &N, const vector<long> &dmax) {
  size_t np = N.empty() ? 0 : N[0].size();
  Vec r;
  for (size_t q = 0; q < np; q++) {
    // values that differ in this parameter only, ascending
    std::map<Vec, vector<std::pair<long, long>>> lines;
    for (size_t i = 0; i < N.size(); i++) {
      Vec k = N[i];
      k[q] = 0;
      lines[k].push_back({N[i][q], dmax[i]});
    }
    long u = 0;
    for (auto &l : lines) {
      auto &v = l.second;
      size_t n = v.size();
      if (n < 3) continue;
      std::sort(v.begin(), v.end());
      long dn = v[n - 1].first - v[n - 3].first, dd = v[n - 1].second - v[n - 3].second;
      if (dd > 0) u = std::max(u, (dd + dn - 1) / dn);
    }
    r.push_back(u);
  }
  long w = 0;
  for (size_t i = 0; i < N.size(); i++) {
    long x = dmax[i];
    for (size_t q = 0; q < np; q++) x -= r[q] * N[i][q];
    w = std::max(w, x);
  }
  r.push_back(w);
  return r;
}
// Boxes with an extent of their own in each dimension; the order of the parameters matters.
static void fam_extents(vector<Prog> &out, int depth) {
  const char *D[] = {"S_0[i,j] -> S_0[k,j] : i = 0 and k > 0", "S_0[i,j] -> S_0[i,k] : j = 0 and k > 0", "S_0[i,j] -> S_0[k,j] : k > i", "S_0[i,j] -> S_0[i,k] : k > j",
                     "S_0[i,j] -> S_0[i+1,j]", "S_0[i,j] -> S_0[i,j+1]", "S_0[i,j] -> S_0[i+1,j-1]", "S_0[i,j] -> S_0[i-1,j+1]"};
  const char *E[] = {"S_0[i,j] -> S_1[i,j]", "S_0[i,j] -> S_1[k,j] : i = 0", "S_0[i,j] -> S_1[i,k] : j = 0", "S_0[i,j] -> S_1[k,j] : k + i = N - 1", "S_0[i,j] -> S_1[i,k] : k + j = M - 1",
                     "S_0[i,j] -> S_1[i+2,j]", "S_0[i,j] -> S_1[i,j-2]"};
  int n = 0;
  auto add = [&](int ns, const vector<string> &deps) {
    for (auto par : {"[N,M]", "[M,N]", "[P,N,M]", "[M,P,N]"}) {
      if (depth < 2 && string(par).size() > 5 && n % 3) { n++; continue; }
      Prog p;
      p.id = "P2:" + std::to_string(n++);
      p.params = par;
      for (int s = 0; s < ns; s++) p.doms.push_back("S_" + std::to_string(s) + "[i,j] : 0 <= i < N and 0 <= j < M");
      p.deps = deps;
      bool three = p.params.size() > 5;
      for (long a = 2; a <= 6; a++) for (long b = 2; b <= 6; b++) for (long c = 1; c <= (three ? 3 : 1); c++) p.pvals.push_back(!three ? Vec{a, b} : p.params[1] == 'P' ? Vec{c, a, b} : Vec{a, c, b});
      out.push_back(p);
    }
  };
  for (size_t a = 0; a < 8; a++) {
    add(1, {D[a]});
    for (size_t b = a + 1; b < 8; b++) if (!(a == 6 && b == 7)) {
      add(1, {D[a], D[b]});
      if (depth > 1) for (size_t c = b + 1; c < 8; c++) if (!(b == 6 && c == 7)) add(1, {D[a], D[b], D[c]});
    }
  }
  for (size_t a = 0; a < 7; a++) {
    add(2, {E[a]});
    for (size_t b = a + 1; b < 7; b++) add(2, {E[a], E[b]});
    for (size_t c = 0; c < 8; c++) add(2, {E[a], D[c]});
  }
}
mc::Check make_c06(const string &tier) {
  int d = tier == "thorough" ? 2 : 1;
  auto sp = std::make_shared<Space>();
  vector<Prog> all;
  fam_uniform(all, d);
  fam_nonuniform(all, d);
  fam_multi(all, d);
  fam_triples(all, d);
  fam_optimal(all, d);
  fam_extents(all, d);
  for (auto &p : all) {
    if (!same_dims(p) || p.deps.empty()) continue;
    if (p.params != "[N]" && p.params != "[]" && p.id.compare(0, 3, "P2:")) continue;
    if (p.id.find("u2") != string::npos || p.id.find("u3") != string::npos) continue; // domains that are unions become several statements
    int dim = dims_of(p, 0);
    if (p.doms.size() >= 3 && dim >= 2) continue;
    bool skip = false; // dependences whose rational relaxation is larger than the integer hull
    for (auto &e : p.deps) skip |= e.find("exists") != string::npos || e.find("2j") != string::npos || e.find("2i") != string::npos;
    if (skip) continue;
    if (p.params == "[N]") {
      p.pvals.clear();
      for (long n = -1; n <= (dim == 3 ? 4 : 6); n++) p.pvals.push_back({n});
    }
    sp->progs.push_back(p);
  }
  Conf base{"default", {{"tile", 0}, {"parallel", 0}, {"intratileopt", 0}, {"diamondtile", 0}}, "", "", ""};
  Conf mx = base;
  mx.id = "maxfuse";
  mx.set.push_back({"fuse", kMaximalFuse});
  Conf pc = base;
  pc.id = "percc";
  pc.set.push_back({"per_cc_obj", 1});
  sp->confs = {base, mx, pc};
  for (size_t i = 0; i < sp->progs.size(); i++) for (size_t c = 0; c < sp->confs.size(); c++) if (c != 1 || sp->progs[i].doms.size() > 1) sp->cases.push_back({(int)i, (int)c});
  auto ck = make_space_check(sp, [](Space &sp, uint64_t ci) {
    const Inputs &in = sp.inputs(ci);
    const Prog &p = sp.progs[sp.cases[ci].first];
    bool percc = sp.confs[sp.cases[ci].second].get("per_cc_obj", 0);
    int ns = in.nstmts, dim = dims_of(p, 0);
    // connected?
    vector<int> cc(ns);
    for (int s = 0; s < ns; s++) cc[s] = s;
    for (auto &c : in.conc) for (auto &e : c.deps) { int a = cc[e.ss], b = cc[e.ds]; if (a != b) for (int &x : cc) if (x == b) x = a; }
    bool conn = true;
    for (int x : cc) conn &= x == cc[0];
    if (!conn && !percc) return;
    mc::count(k_runs);
    isl_union_map *s = run_transform(sp.ctx, in, sp.confs[sp.cases[ci].second]);
    if (!s) { mc::fail("nosolution", "scheduling failed"); return; }
    string str = umap_to_str(s);
    mc::outcome(str);
    vector<Times> tm(in.conc.size());
    vector<bool> varies(ns, false);
    for (size_t k = 0; k < in.conc.size(); k++) {
      if (!eval_schedule(in, in.conc[k], s, tm[k])) { isl_union_map_free(s); return; }
      for (int q = 0; q < ns; q++) for (auto &x : tm[k].t[q]) if (x[0] != tm[k].t[q][0][0]) varies[q] = true;
    }
    isl_union_map_free(s);
    for (int root = 0; root < ns; root++) {
      if (cc[root] != root && !conn) continue;
      if (conn && root) break;
      vector<int> mem, loc(ns, -1);
      for (int q = 0; q < ns; q++) if (cc[q] == cc[root]) { loc[q] = mem.size(); mem.push_back(q); }
      int nm = mem.size();
      vector<Inst> inst;
      vector<Vec> N;
      vector<long> got;
      for (size_t k = 0; k < in.conc.size(); k++) {
        auto &c = in.conc[k];
        Inst t;
        long m = 0;
        for (auto &e : c.deps) {
          if (cc[e.ss] != cc[root]) continue;
          t.pts.push_back({&c.inst[e.ss][e.si], &c.inst[e.ds][e.di]});
          t.st.push_back({loc[e.ss], loc[e.ds]});
          m = std::max(m, tm[k].t[e.ds][e.di][0] - tm[k].t[e.ss][e.si][0]);
        }
        if (t.pts.empty()) continue;
        N.push_back(c.par);
        got.push_back(m);
        inst.push_back(std::move(t));
      }
      if (inst.empty()) continue;
      // the best legal hyperplane among small coefficients
      int nc = nm * dim, hi = nc <= 3 ? 3 : nc <= 4 ? 2 : 1, sh = nm == 1 ? 0 : nc <= 2 ? 4 : 2;
      Vec cs, ss;
      for (long x = 0; x <= hi; x++) cs.push_back(x);
      for (long x = 0; x <= sh; x++) ss.push_back(x);
      Vec best;
      Vec bestv;
      auto cand = [&](const Vec &co, const Vec &shift) {
        mc::count(k_cand);
        vector<long> dmax(inst.size(), 0);
        uint64_t ev = 0;
        for (int k = (int)inst.size() - 1; k >= 0; k--) {
          auto &t = inst[k];
          long m = -1;
          for (size_t e = 0; e < t.pts.size(); e++) {
            int a = t.st[e].first, b = t.st[e].second;
            long v = shift[b] - shift[a];
            for (int q = 0; q < dim; q++) v += co[b * dim + q] * (*t.pts[e].second)[q] - co[a * dim + q] * (*t.pts[e].first)[q];
            ev++;
            if (v < 0) { mc::count(k_dist, ev); return; }
            m = std::max(m, v);
          }
          dmax[k] = m;
        }
        mc::count(k_dist, ev);
        mc::count(k_legal);
        auto me = measure(N, dmax);
        if (best.empty() || me < best) { best = me; bestv = co; bestv.insert(bestv.end(), shift.begin(), shift.end()); }
      };
      product(cs, nc, [&](const Vec &co) {
        for (int q = 0; q < nm; q++) {
          bool z = true;
          for (int r = 0; r < dim; r++) z &= co[q * dim + r] == 0;
          if (z) return true;
        }
        if (nm == 1) cand(co, Vec(1, 0));
        else product(ss, nm, [&](const Vec &x) { if (*std::min_element(x.begin(), x.end()) == 0) cand(co, x); return true; });
        return true;
      });
      if (best.empty()) {
        if (!conn) return; // the other components are separated with this one
        continue;          // nothing to compare with
      }
      bool loop = true;
      for (int q : mem) loop &= varies[q];
      auto me = measure(N, got);
      if (!loop) {
        if (conn) mc::fail("noloop", "the outermost dimension is no loop, but " + poly::show(bestv) + " is a legal hyperplane: " + str);
        continue;
      }
      if (best < me)
        mc::fail("suboptimal", "the outermost hyperplane of the statements connected with S_" + std::to_string(root) + " has distance bound " + poly::show(me) + ", coefficients " + poly::show(bestv) + " have " + poly::show(best) + ": " + str);
      if (ci % 211 == 3) mc::sample(sp.describe(ci) + "schedule: " + str + " best " + poly::show(bestv));
    }
  });
  ck.bounds = "uniform, non-uniform and multi-statement programs with statements of one dimensionality, one parameter or (boxes) an extent per dimension in any parameter order, against every hyperplane with coefficients up to 3 (fewer with more statements) and relative shifts up to 4";
  return ck;
}
// C16, the scheduler's side: every hyperplane obeys the bound that was set.
mc::Check make_c16s(const string &tier) {
  int d = tier == "thorough" ? 2 : 1;
  auto sp = std::make_shared<Space>();
  fam_uniform(sp->progs, d);
  fam_nonuniform(sp->progs, d);
  fam_multi(sp->progs, d);
  for (long b : {1L, 2L, 3L, 5L}) {
    Conf c{"b" + std::to_string(b), {{"tile", 0}, {"parallel", 0}, {"intratileopt", 0}, {"diamondtile", 0}, {"coeff_bound", b}}, "", "", ""};
    sp->confs.push_back(c);
    if (b == 2 || d == 2) {
      c.id += "glpk";
      c.set.push_back({"glpk", 1});
      c.set.push_back({"islsolve", 0});
      sp->confs.push_back(c);
    }
    if (b == 1) {
      Conf e{"b1cc", {{"tile", 0}, {"parallel", 0}, {"intratileopt", 0}, {"diamondtile", 0}, {"coeff_bound", b}, {"per_cc_obj", 1}}, "", "", ""};
      sp->confs.push_back(e);
      e.id = "b1max";
      e.set.back() = {"fuse", kMaximalFuse};
      sp->confs.push_back(e);
    }
  }
  sp->product();
  auto ck = make_space_check(sp, [](Space &sp, uint64_t ci) {
    const Inputs &in = sp.inputs(ci);
    const Conf &cf = sp.confs[sp.cases[ci].second];
    long b = cf.get("coeff_bound", -1);
    Snap snap;
    g_observe = [&](PlutoProg *prog, const string &pt) { if (pt == "scheduled") snap = snapshot(prog, false); };
    mc::count(k_runs);
    isl_union_map *s = run_transform(sp.ctx, in, cf);
    g_observe = nullptr;
    if (!s) return; // bounds can make a program unschedulable
    string str = umap_to_str(s);
    mc::outcome(str);
    isl_union_map_free(s);
    if (!snap.set) { mc::fail("nosnapshot", "the program was not observed"); return; }
    for (size_t q = 0; q < snap.trans.size(); q++)
      for (auto &row : snap.trans[q]) {
        bool loop = false;
        for (int k = 0; k < snap.dim[q]; k++) loop |= row[k] != 0;
        if (!loop) continue;
        mc::count(k_rows);
        for (size_t k = 0; k < row.size(); k++)
          if (row[k] < 0 || row[k] > b) { mc::fail("bound", "S_" + std::to_string(q) + " has a hyperplane " + poly::show(row) + " with coefficient bound " + std::to_string(b) + ": " + str); return; }
      }
  });
  ck.bounds = "programs of the uniform, non-uniform and two-statement families with coefficient bounds 1, 2, 3 and 5";
  return ck;
}
