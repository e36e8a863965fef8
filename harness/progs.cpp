#include "progs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
using std::string;
using std::vector;
using poly::Vec;

bool Prog::mixed_dims() const {
  int first = -1;
  for (auto &d : doms) {
    size_t a = d.find('['), b = d.find(']');
    int n = b == a + 1 ? 0 : 1;
    for (size_t k = a; k < b; k++) n += d[k] == ',';
    if (first < 0) first = n;
    if (n != first || n == 0) return true;
  }
  return false;
}
void apply(const Conf &c, PlutoOptions *o) {
  o->isldepaccesswise = 0;
  o->silent = 1;
  o->islsolve = 1;
  for (auto &kv : c.set) {
    const string &k = kv.first;
    long v = kv.second;
#define O(f) if (k == #f) { o->f = (decltype(o->f))v; continue; }
    O(tile) O(intratileopt) O(diamondtile) O(fulldiamondtile) O(per_cc_obj) O(parallel) O(innerpar)
    O(unrolljam) O(prevector) O(rar) O(fuse) O(delayed_cut) O(hybridcut) O(forceparallel) O(multipar)
    O(second_level_tile) O(find_tile_sizes) O(cache_size) O(data_element_size) O(ft) O(lt) O(debug)
    O(moredebug) O(lastwriter) O(nodepbound) O(coeff_bound) O(silent) O(islsolve) O(glpk) O(lp) O(dfp)
    O(ilp) O(lpcolour) O(scc_cluster) O(flic) O(time) O(isldepcoalesce) O(isldepaccesswise) O(identity)
#undef O
    fprintf(stderr, "unknown option %s\n", k.c_str());
    abort();
  }
}
string show(const Conf &c) {
  string s = c.id + " {";
  for (auto &kv : c.set) s += " " + kv.first + "=" + std::to_string(kv.second);
  s += " }";
  if (!c.tile_sizes.empty()) s += " tile.sizes=" + c.tile_sizes;
  if (!c.fst.empty()) s += " .fst=" + c.fst;
  if (!c.precut.empty()) s += " .precut=" + c.precut;
  return s;
}
static string pre(const Prog &p) { return p.params + " -> { "; }
string domains_str(const Prog &p) {
  string s = pre(p);
  for (size_t i = 0; i < p.doms.size(); i++) s += (i ? "; " : "") + p.doms[i];
  return s + " }";
}
string umap_str(const Prog &p, const vector<string> &v) {
  string s = pre(p);
  for (size_t i = 0; i < v.size(); i++) s += (i ? "; " : "") + v[i];
  return s + " }";
}
string deps_str(const Prog &p) { return umap_str(p, p.deps); }
int stmt_no(const string &t) { return atoi(t.c_str() + 2); }

Inputs load(isl_ctx *ctx, const Prog &p) {
  Inputs in;
  in.dom = isl_union_set_read_from_str(ctx, domains_str(p).c_str());
  in.dep = isl_union_map_read_from_str(ctx, deps_str(p).c_str());
  if (!in.dom || !in.dep) { fprintf(stderr, "bad program %s\n", p.id.c_str()); abort(); }
  in.dep = isl_union_map_intersect_domain(in.dep, isl_union_set_copy(in.dom));
  in.dep = isl_union_map_intersect_range(in.dep, isl_union_set_copy(in.dom));
  isl_space *sp = isl_union_set_get_space(in.dom);
  int np = isl_space_dim(sp, isl_dim_param);
  for (int i = 0; i < np; i++) in.pnames.push_back(isl_space_get_dim_name(sp, isl_dim_param, i));
  isl_space_free(sp);
  auto ds = poly::rels_from_uset(in.dom);
  auto es = poly::rels_from_umap(in.dep);
  in.nstmts = p.doms.size();
  for (auto &pv : p.pvals) {
    Conc c;
    c.par = pv;
    c.inst.resize(in.nstmts);
    c.index.resize(in.nstmts);
    for (auto &d : ds) {
      int s = stmt_no(d.out);
      for (auto &pt : poly::points(d, pv)) {
        c.index[s][pt.second] = c.inst[s].size();
        c.inst[s].push_back(pt.second);
      }
    }
    for (auto &e : es) {
      int a = stmt_no(e.in), b = stmt_no(e.out);
      for (auto &pt : poly::points(e, pv))
        c.deps.push_back({a, c.index[a].at(pt.first), b, c.index[b].at(pt.second)});
    }
    for (auto &v : c.inst) in.ninst += v.size();
    in.ndep_inst += c.deps.size();
    in.conc.push_back(std::move(c));
  }
  return in;
}
void unload(Inputs &in) {
  isl_union_set_free(in.dom);
  isl_union_map_free(in.dep);
}

// All subsets of {0..n-1} of size in [lo,hi].
static void subsets(int n, int lo, int hi, const std::function<void(const vector<int> &)> &cb) {
  vector<int> cur;
  std::function<void(int)> rec = [&](int from) {
    if ((int)cur.size() >= lo) cb(cur);
    if ((int)cur.size() == hi) return;
    for (int i = from; i < n; i++) { cur.push_back(i); rec(i + 1); cur.pop_back(); }
  };
  rec(0);
}
static string off(const string &v, long d) {
  if (d == 0) return v;
  return v + (d > 0 ? "+" : "-") + std::to_string(std::labs(d));
}
static string key(const vector<int> &s) {
  string k;
  for (int i : s) k += (k.empty() ? "" : ".") + std::to_string(i);
  return k.empty() ? "none" : k;
}
static const vector<string> IT = {"i", "j", "k", "l"};
static string tup(int s, const vector<string> &e) {
  string r = "S_" + std::to_string(s) + "[";
  for (size_t i = 0; i < e.size(); i++) r += (i ? "," : "") + e[i];
  return r + "]";
}
static string its(int s, int dim) { return tup(s, vector<string>(IT.begin(), IT.begin() + dim)); }

struct Shape { string id, params; int dim; string cond; vector<Vec> pv; };
static vector<Shape> shapes(int dim) {
  if (dim == 0) return {{"pt", "[]", 0, "", {{}}}, {"ptN", "[N]", 0, "N >= 2", {{1}, {2}}}};
  if (dim == 1)
    return {{"N", "[N]", 1, "0 <= i < N", {{1}, {5}}},
            {"c6", "[]", 1, "0 <= i <= 5", {{}}},
            {"neg", "[N]", 1, "-3 <= i <= N", {{0}, {3}}},
            {"NM", "[N,M]", 1, "N <= i < M", {{1, 1}, {0, 5}, {-2, 3}}},
            {"u2", "[N]", 1, "(0 <= i < 3 or N + 3 <= i < N + 6)", {{1}, {3}}},
            {"u3", "[N]", 1, "(0 <= i < 2 or N + 3 <= i < N + 5 or 2N + 6 <= i < 2N + 8)", {{1}, {2}}}};
  if (dim == 2)
    return {{"NN", "[N]", 2, "0 <= i < N and 0 <= j < N", {{2}, {5}}},
            {"NM", "[N,M]", 2, "0 <= i < N and 0 <= j < M", {{3, 5}, {5, 2}}},
            {"tri", "[N]", 2, "0 <= i < N and 0 <= j <= i", {{2}, {6}}},
            {"utri", "[N]", 2, "0 <= i < N and i <= j < N", {{6}}},
            {"c45", "[]", 2, "0 <= i <= 3 and 0 <= j <= 4", {{}}},
            {"neg", "[N]", 2, "-2 <= i <= N and -3 <= j < N", {{0}, {3}}},
            {"off", "[N]", 2, "1 <= i <= N and 2 <= j <= N + 1", {{4}}},
            {"skew", "[N]", 2, "0 <= i < N and i <= j <= i + 3", {{5}}},
            {"u2", "[N]", 2, "0 <= i < N and (0 <= j < 2 or N + 2 <= j < N + 4)", {{3}, {4}}},
            {"u3", "[N]", 2, "0 <= i < N and (0 <= j < 2 or N + 2 <= j < N + 4 or 2N + 5 <= j < 2N + 7)", {{3}}},
            {"ctx", "[N]", 2, "N >= 3 and 0 <= i < N and 1 <= j < N - 1", {{2}, {5}}},
            {"two", "[N,M]", 2, "0 <= i < N and 0 <= j < M and i + j < N", {{5, 4}}}};
  return {{"NNN", "[N]", 3, "0 <= i < N and 0 <= j < N and 0 <= k < N", {{3}}},
          {"N2", "[N]", 3, "0 <= i < N and 0 <= j < N and 0 <= k <= 2", {{4}}},
          {"tri", "[N]", 3, "0 <= i < N and 0 <= j <= i and j <= k < N", {{4}}}};
}
static string dom(int s, const Shape &sh) {
  return its(s, sh.dim) + (sh.cond.empty() ? "" : " : " + sh.cond);
}
static vector<Vec> lexpos(int dim, int lo, int hi) {
  vector<Vec> r;
  Vec v(dim, lo);
  for (;;) {
    int c = 0;
    for (long x : v) if (x) { c = x > 0 ? 1 : -1; break; }
    if (c > 0) r.push_back(v);
    int d = dim - 1;
    while (d >= 0 && v[d] == hi) v[d--] = lo;
    if (d < 0) break;
    v[d]++;
  }
  return r;
}
static string udep(int s, const Vec &d) {
  vector<string> e;
  for (size_t i = 0; i < d.size(); i++) e.push_back(off(IT[i], d[i]));
  return its(s, d.size()) + " -> " + tup(s, e);
}

void fam_uniform(vector<Prog> &out, int depth) {
  for (int dim = 0; dim <= 3; dim++) {
    auto vs = dim == 0 ? vector<Vec>() : dim == 1 ? lexpos(1, 0, 2) : dim == 2 ? lexpos(2, -2, 2) : lexpos(3, -1, 1);
    auto sh = shapes(dim);
    int mx = dim <= 1 ? 2 : dim == 2 ? (depth == 0 ? 1 : depth == 1 ? 2 : 3) : (depth == 0 ? 1 : depth == 1 ? 1 : 3);
    for (size_t q = 0; q < sh.size(); q++) {
      int m = mx;
      if (q > 0) m = std::min(m, depth >= 2 ? 2 : 1);
      if (dim == 2 && q > 0 && depth == 1 && sh[q].id != "u2" && sh[q].id != "tri") m = 1;
      subsets(vs.size(), 0, m, [&](const vector<int> &ss) {
        Prog p;
        p.id = "U" + std::to_string(dim) + sh[q].id + ":" + key(ss);
        p.params = sh[q].params;
        p.pvals = sh[q].pv;
        p.doms = {dom(0, sh[q])};
        for (int i : ss) p.deps.push_back(udep(0, vs[i]));
        out.push_back(p);
      });
    }
  }
}

void fam_nonuniform(vector<Prog> &out, int depth) {
  vector<string> rel = {
      "S_0[i,j] -> S_0[i+1,j']",                     // all to next
      "S_0[i,j] -> S_0[i+1,N-1-j]",                  // reversal
      "S_0[i,0] -> S_0[i,j] : j > 0",                // broadcast
      "S_0[i,j] -> S_0[i',j] : i' > i",              // all later
      "S_0[i,j] -> S_0[j,i] : i < j",                // transpose
      "S_0[i,j] -> S_0[i+1,2j]",                     // non-unimodular
      "S_0[i,j] -> S_0[i+1,j] : exists e : i = 2e",  // parity
      "S_0[i,j] -> S_0[i+1,j] : j < 1 or j > N - 2", // union
      "S_0[i,j] -> S_0[i',j'] : i' > i and i' - i <= j' - j <= 2i' - 2i",
      "S_0[i,j] -> S_0[i',i] : i' > i and i >= j",
      "S_0[i,j] -> S_0[i,j']: j' > j",
      "S_0[i,j] -> S_0[i+2,j-3]",
      "S_0[i,j] -> S_0[i,j+1]",
      "S_0[i,j] -> S_0[i+1,j]",
      "S_0[i,j] -> S_0[i+1,j-1]",
      "S_0[i,j] -> S_0[2i+1,j]",
      "S_0[0,j] -> S_0[i,j] : i > 0",
      "S_0[i,j] -> S_0[N-1,j] : i < N-1"};
  auto all = shapes(2);
  for (auto &sh : all) {
    bool main = sh.id == "NN";
    if (!main && !(depth >= 1 && (sh.id == "tri" || sh.id == "NM")) && depth < 2) continue;
    int hi = main ? (depth == 0 ? 1 : depth == 1 ? 2 : 3) : (depth >= 2 ? 2 : 1);
    if (sh.params.find("N") == string::npos) continue;
    subsets(rel.size(), 1, hi, [&](const vector<int> &ss) {
      Prog p;
      p.id = "P2" + sh.id + ":" + key(ss);
      p.params = sh.params;
      p.pvals = sh.pv;
      p.doms = {dom(0, sh)};
      for (int i : ss) p.deps.push_back(rel[i]);
      out.push_back(p);
    });
  }
  vector<string> r1 = {"S_0[i] -> S_0[i'] : i' > i", "S_0[i] -> S_0[2i+1]", "S_0[i] -> S_0[N-1-i] : i < N-1-i",
                       "S_0[0] -> S_0[i] : i > 0", "S_0[i] -> S_0[i+3] : i < 2", "S_0[i] -> S_0[i+1] : exists e : i = 3e"};
  subsets(r1.size(), 1, depth == 0 ? 1 : 3, [&](const vector<int> &ss) {
    Prog p;
    p.id = "P1N:" + key(ss);
    p.params = "[N]";
    p.pvals = {{2}, {7}};
    p.doms = {"S_0[i] : 0 <= i < N"};
    for (int i : ss) p.deps.push_back(r1[i]);
    out.push_back(p);
  });
}

// Two statements.
// A statement of lower dimensionality in the middle of a loop of another one:
// it has to be executed at a constant, non-zero iteration of that loop.
static void fam_mid(vector<Prog> &out, int depth) {
  int n = 0;
  for (int c = 0; c <= 4; c++)
    for (int dim = 1; dim <= 3; dim++)
      for (int self = 0; self < 3; self++)
        for (int extra = 0; extra < 2; extra++) {
          n++;
          if (depth < 2 && dim == 3 && (c % 2 || extra)) continue;
          Prog p;
          p.id = "Y" + std::to_string(dim) + ":" + std::to_string(n);
          p.params = "[N]";
          p.pvals = {{c + 1}, {c + 4}};
          string low = its(0, dim - 1), high = its(1, dim), cond, v = IT[dim - 1];
          for (int i = 0; i < dim; i++) cond += (i ? " and 0 <= " : "0 <= ") + IT[i] + " < " + (dim == 3 && i < 2 ? "3" : "N");
          string lc;
          for (int i = 0; i + 1 < dim; i++) lc += (i ? " and 0 <= " : " : 0 <= ") + IT[i] + " < " + (dim == 3 && i < 2 ? "3" : "N");
          p.doms = {low + lc, high + " : " + cond};
          p.deps = {high + " -> " + low + " : " + v + " <= " + std::to_string(c), low + " -> " + high + " : " + v + " > " + std::to_string(c)};
          vector<string> e(IT.begin(), IT.begin() + dim);
          if (self >= 1) { e[dim - 1] = v + "+1"; p.deps.push_back(high + " -> " + tup(1, e)); }
          if (self >= 2 && dim >= 2) { e[dim - 1] = v; e[0] = "i+1"; p.deps.push_back(high + " -> " + tup(1, e)); }
          if (extra) { // and one that follows
            p.doms.push_back(its(2, dim) + " : " + cond);
            p.deps.push_back(high + " -> " + its(2, dim));
            p.deps.push_back(low + " -> " + its(2, dim) + " : " + v + " > " + std::to_string(c + 1));
          }
          out.push_back(p);
        }
}
void fam_multi(vector<Prog> &out, int depth) {
  fam_mid(out, depth);
  for (int a = 0; a <= 2; a++)
    for (int b = 0; b <= 2; b++) {
      auto D = [&](int s, int dim) {
        return its(s, dim) + (dim == 0 ? "" : dim == 1 ? " : 0 <= i < N" : " : 0 <= i < N and 0 <= j < N");
      };
      vector<string> rel;
      auto add = [&](const string &s) { rel.push_back(s); };
      // S0's nest before S1's nest: any relation is feasible.
      if (a == 2 && b == 2)
        for (auto t : {"[i,j]", "[j,i]", "[N-1-i,j]", "[i,N-1-j]", "[i+1,j-1]", "[i-1,j]", "[i,j+2]", "[i,j']", "[0,0]", "[i',0]"})
          add(string("S_0[i,j] -> S_1") + t);
      else if (a == 1 && b == 1)
        for (auto t : {"[i]", "[N-1-i]", "[i+1]", "[i-2]", "[i']", "[0]", "[N-1]", "[2i]"}) add(string("S_0[i] -> S_1") + t);
      else if (a == 1 && b == 2)
        for (auto t : {"[i,j]", "[j,i]", "[i,0]", "[i+1,i]", "[N-1-i,j]"}) add(string("S_0[i] -> S_1") + t);
      else if (a == 2 && b == 1)
        for (auto t : {"[i]", "[j]", "[i+1]", "[N-1-j]", "[i']", "[i+j]"}) add(string("S_0[i,j] -> S_1") + t);
      else if (a == 0)
        for (auto t : {"", "0"})
          add("S_0[] -> " + (b == 0 ? string("S_1[]") : *t ? (b == 1 ? string("S_1[0]") : string("S_1[0,0]")) : its(1, b)));
      else
        for (int q = 0; q < 2; q++) add((q ? (a == 1 ? string("S_0[N-1]") : string("S_0[N-1,N-1]")) : its(0, a)) + " -> S_1[]");
      // self dependences
      if (a == 2) { add("S_0[i,j] -> S_0[i+1,j-1]"); add("S_0[i,j] -> S_0[i,j+1]"); add("S_0[i,j] -> S_0[i+1,j]"); }
      if (a == 1) add("S_0[i] -> S_0[i+1]");
      if (b == 2) { add("S_1[i,j] -> S_1[i+1,j-1]"); add("S_1[i,j] -> S_1[i,j+1]"); add("S_1[i,j] -> S_1[i+1,j+1]"); }
      if (b == 1) add("S_1[i] -> S_1[i+1]");
      int hi = depth == 0 ? 1 : depth == 1 ? ((a == 2 && b == 2) ? 2 : 2) : 3;
      std::set<string> uniq(rel.begin(), rel.end());
      rel.assign(uniq.begin(), uniq.end());
      subsets(rel.size(), 0, hi, [&](const vector<int> &ss) {
        Prog p;
        p.id = "M" + std::to_string(a) + std::to_string(b) + ":" + key(ss);
        p.params = "[N]";
        p.pvals = {{2}, {4}};
        p.doms = {D(0, a), D(1, b)};
        for (int i : ss) p.deps.push_back(rel[i]);
        out.push_back(p);
      });
      // Both in one outer loop: S0[i,..]; S1[i,..] — with back edges.
      if (a >= 1 && b >= 1) {
        vector<string> fw, bw;
        string j0 = a == 2 ? ",j" : "", j1 = b == 2 ? ",j" : "";
        fw.push_back("S_0[i" + j0 + "] -> S_1[i" + j1 + "]");
        fw.push_back("S_0[i" + j0 + "] -> S_1[i+1" + j1 + "]");
        bw.push_back("S_1[i" + j1 + "] -> S_0[i+1" + j0 + "]");
        bw.push_back("S_1[i" + j1 + "] -> S_0[i+2" + j0 + "]");
        if (a == 2 && b == 2) {
          for (auto t : {"[i,j+1]", "[i,j-1]", "[i,N-1-j]", "[i,j']"}) fw.push_back(string("S_0[i,j] -> S_1") + t);
          for (auto t : {"[i+1,j+1]", "[i+1,j-1]", "[i+1,N-1-j]", "[i+1,j']"}) bw.push_back(string("S_1[i,j] -> S_0") + t);
        } else if (a == 2) {
          fw.push_back("S_0[i,N-1] -> S_1[i]");
          bw.push_back("S_1[i] -> S_0[i+1,0]");
        } else if (b == 2) {
          fw.push_back("S_0[i] -> S_1[i,0]");
          bw.push_back("S_1[i,N-1] -> S_0[i+1]");
        }
        vector<string> self = {a == 2 ? "S_0[i,j] -> S_0[i,j+1]" : "S_0[i] -> S_0[i+1]",
                               b == 2 ? "S_1[i,j] -> S_1[i,j+1]" : "S_1[i] -> S_1[i+1]"};
        for (size_t x = 0; x < fw.size(); x++)
          for (size_t y = 0; y < bw.size(); y++)
            for (int m = 0; m < (depth == 0 ? 1 : 4); m++) {
              if (depth == 1 && (m == 1 || m == 2) && (x + y) % 2) continue;
              Prog p;
              p.id = "F" + std::to_string(a) + std::to_string(b) + ":" + std::to_string(x) + "." + std::to_string(y) + "." + std::to_string(m);
              p.params = "[N]";
              p.pvals = {{2}, {4}};
              p.doms = {D(0, a), D(1, b)};
              p.deps = {fw[x], bw[y]};
              if (m & 1) p.deps.push_back(self[0]);
              if (m & 2) p.deps.push_back(self[1]);
              out.push_back(p);
            }
      }
    }
}

// Three statements S0;S1;S2 in a common loop: forward edges in 3 flavours,
// backward edges to the next iteration.
void fam_triples(vector<Prog> &out, int depth) {
  for (int dim = 1; dim <= 2; dim++) {
    if (dim == 2 && depth == 0) continue;
    string t = dim == 2 ? ",j" : "";
    int nf = depth >= 2 ? 4 : 3;
    vector<std::pair<int, int>> f = {{0, 1}, {0, 2}, {1, 2}}, b = {{1, 0}, {2, 0}, {2, 1}};
    for (int x0 = 0; x0 < nf; x0++)
      for (int x1 = 0; x1 < nf; x1++)
        for (int x2 = 0; x2 < nf; x2++)
          for (int m = 0; m < 8; m++) {
            int xs[3] = {x0, x1, x2};
            if (depth <= 1 && dim == 2 && (x0 + x1 + x2 + m) % 3) continue;
            if (depth == 0 && m % 3) continue;
            Prog p;
            p.id = "T" + std::to_string(dim) + ":" + std::to_string(x0) + std::to_string(x1) + std::to_string(x2) + "." + std::to_string(m);
            p.params = "[N]";
            p.pvals = {{dim == 1 ? 5 : 3}};
            for (int s = 0; s < 3; s++) p.doms.push_back(its(s, dim) + (dim == 1 ? " : 0 <= i < N" : " : 0 <= i < N and 0 <= j < N"));
            for (int e = 0; e < 3; e++) {
              string S = its(f[e].first, dim) + " -> S_" + std::to_string(f[e].second);
              if (xs[e] == 1) p.deps.push_back(S + "[i" + t + "]");
              if (xs[e] == 2) p.deps.push_back(S + (dim == 2 ? "[i,N-1-j]" : "[i+1]"));
              if (xs[e] == 3) p.deps.push_back(S + (dim == 2 ? "[i',j]" : "[N-1-i]"));
              if (m >> e & 1 && xs[e] != 3) p.deps.push_back(its(b[e].first, dim) + " -> S_" + std::to_string(b[e].second) + "[i+1" + t + "]");
            }
            if (m && (x0 == 3 || x1 == 3 || x2 == 3)) p.feasible = false;
            out.push_back(p);
          }
  }
  // statements of different dimensionality, no back edges: cuts by dimension
  for (int d0 = 0; d0 <= 2; d0++)
    for (int d1 = 0; d1 <= 2; d1++)
      for (int d2 = 0; d2 <= 2; d2++)
        for (int m = 1; m < 8; m++) {
          if (depth <= 1 && (d0 * 9 + d1 * 3 + d2 + m) % 3) continue;
          int d[3] = {d0, d1, d2};
          Prog p;
          p.id = "X" + std::to_string(d0) + std::to_string(d1) + std::to_string(d2) + ":" + std::to_string(m);
          p.params = "[N]";
          p.pvals = {{3}};
          vector<std::pair<int, int>> e = {{0, 1}, {0, 2}, {1, 2}};
          for (int s = 0; s < 3; s++)
            p.doms.push_back(its(s, d[s]) + (d[s] == 0 ? "" : d[s] == 1 ? " : 0 <= i < N" : " : 0 <= i < N and 0 <= j < N"));
          for (int q = 0; q < 3; q++)
            if (m >> q & 1) {
              int s = e[q].first, t = e[q].second;
              vector<string> te;
              for (int k = 0; k < d[t]; k++) te.push_back(k < d[s] ? IT[k] : IT[k]);
              p.deps.push_back(its(s, d[s]) + " -> " + tup(t, te));
            }
          out.push_back(p);
        }
}

// Unusual inputs: empty dependences, many parameters, strided domains, large
// constants, statements numbered out of order, 4 statements, 4-d loops.
void fam_shapes(vector<Prog> &out, int depth) {
  auto P = [&](string id, string params, vector<string> doms, vector<string> deps, vector<Vec> pv) {
    Prog p;
    p.id = "H:" + id;
    p.params = params;
    p.doms = doms;
    p.deps = deps;
    p.pvals = pv;
    out.push_back(p);
  };
  P("bigconst", "[N]", {"S_0[i,j] : 100 <= i < 100 + N and -50 <= j < N - 50"}, {"S_0[i,j] -> S_0[i+1,j]", "S_0[i,j] -> S_0[i,j+1]"}, {{4}});
  P("threepar", "[N,M,K]", {"S_0[i,j] : K <= i < N and 0 <= j < M"}, {"S_0[i,j] -> S_0[i+1,j-1]", "S_0[i,j]->S_0[i+1,j]"}, {{5, 4, 1}, {3, 3, -2}});
  P("d4", "[N]", {"S_0[i,j,k,l] : 0 <= i,j,k,l < N"}, {"S_0[i,j,k,l] -> S_0[i+1,j,k,l-1]", "S_0[i,j,k,l] -> S_0[i,j,k+1,l]"}, {{3}});
  P("matmul", "[N]", {"S_0[i,j,k] : 0 <= i,j,k < N"}, {"S_0[i,j,k] -> S_0[i,j,k+1]"}, {{4}});
  P("jac1d", "[T,N]", {"S_0[t,i] : 0 <= t < T and 1 <= i < N - 1"},
    {"S_0[t,i] -> S_0[t+1,i]", "S_0[t,i] -> S_0[t+1,i+1]", "S_0[t,i] -> S_0[t+1,i-1]"}, {{4, 7}, {6, 5}});
  P("jac2s", "[T,N]", {"S_0[t,i] : 0 <= t < T and 1 <= i < N - 1", "S_1[t,i] : 0 <= t < T and 1 <= i < N - 1"},
    {"S_0[t,i] -> S_1[t,i]", "S_0[t,i] -> S_1[t,i+1]", "S_0[t,i] -> S_1[t,i-1]", "S_1[t,i] -> S_0[t+1,i]",
     "S_1[t,i] -> S_0[t+1,i+1]", "S_1[t,i] -> S_0[t+1,i-1]"}, {{3, 6}});
  P("heat2d", "[T,N]", {"S_0[t,i,j] : 0 <= t < T and 1 <= i,j < N - 1"},
    {"S_0[t,i,j] -> S_0[t+1,i,j]", "S_0[t,i,j] -> S_0[t+1,i+1,j]", "S_0[t,i,j] -> S_0[t+1,i-1,j]",
     "S_0[t,i,j] -> S_0[t+1,i,j+1]", "S_0[t,i,j] -> S_0[t+1,i,j-1]"}, {{3, 6}});
  P("seidel", "[T,N]", {"S_0[t,i,j] : 0 <= t < T and 1 <= i,j < N - 1"},
    {"S_0[t,i,j] -> S_0[t,i,j+1]", "S_0[t,i,j] -> S_0[t,i+1,j]", "S_0[t,i,j] -> S_0[t,i+1,j-1]", "S_0[t,i,j] -> S_0[t,i+1,j+1]",
     "S_0[t,i,j] -> S_0[t+1,i,j-1]", "S_0[t,i,j] -> S_0[t+1,i-1,j]", "S_0[t,i,j] -> S_0[t+1,i-1,j-1]", "S_0[t,i,j] -> S_0[t+1,i,j]"}, {{3, 5}});
  P("lu", "[N]", {"S_0[k,j] : 0 <= k < N and k + 1 <= j < N", "S_1[k,i,j] : 0 <= k < N and k + 1 <= i,j < N"},
    {"S_0[k,j] -> S_1[k,i,j]", "S_1[k,i,j] -> S_1[k+1,i,j]", "S_1[k,i,j] -> S_0[k+1,j] : i = k + 1", "S_1[k,i,j] -> S_1[k',i,j'] : j = k' and k' > k and j' > k'"}, {{4}, {5}});
  P("fdtd", "[T,N]", {"S_0[t,i] : 0 <= t < T and 0 <= i < N", "S_1[t,i] : 0 <= t < T and 0 <= i < N", "S_2[t,i] : 0 <= t < T and 0 <= i < N"},
    {"S_0[t,i] -> S_2[t,i]", "S_0[t,i]->S_2[t,i-1]", "S_1[t,i] -> S_2[t,i]", "S_1[t,i] -> S_2[t,i-1]", "S_2[t,i] -> S_0[t+1,i]", "S_2[t,i]->S_0[t+1,i+1]", "S_2[t,i]->S_1[t+1,i]", "S_2[t,i]->S_1[t+1,i+1]"}, {{3, 4}});
  P("four", "[N]", {"S_0[i] : 0 <= i < N", "S_1[i,j] : 0 <= i,j < N", "S_2[i,j] : 0 <= i,j < N", "S_3[i] : 0 <= i < N"},
    {"S_0[i] -> S_1[i,j]", "S_1[i,j] -> S_1[i,j+1]", "S_1[i,j] -> S_2[j,i]", "S_2[i,j] -> S_2[i,j+1]", "S_2[i,j] -> S_3[i]"}, {{4}});
  P("order", "[N]", {"S_2[i] : 0 <= i < N", "S_0[i] : 0 <= i < N", "S_1[i,j] : 0 <= i,j < N"}, {"S_2[i] -> S_0[i]", "S_0[i] -> S_1[i,j]"}, {{4}});
  P("stride", "[N]", {"S_0[i,j] : 0 <= i < N and 0 <= j < N and exists e : i = 2e"}, {"S_0[i,j] -> S_0[i+2,j-1]"}, {{5}});
  P("strideeq", "[N]", {"S_0[i,j] : 0 <= i < N and j = 2i"}, {"S_0[i,j] -> S_0[i+1,j+2]"}, {{5}});
  P("diag", "[N]", {"S_0[i,j] : 0 <= i < N and i = j"}, {}, {{5}});
  P("fixed", "[N]", {"S_0[i,j] : i = 3 and 0 <= j < N"}, {"S_0[i,j] -> S_0[i,j+1]"}, {{5}});
  P("single", "[]", {"S_0[i,j] : i = 1 and j = 2"}, {}, {{}});
  P("unusedpar", "[N,M]", {"S_0[i] : 0 <= i < N"}, {"S_0[i] -> S_0[i+1]"}, {{4, 9}});
  P("thin", "[N]", {"S_0[i,j] : 0 <= i < N and 0 <= j <= 1"}, {"S_0[i,0] -> S_0[i,1]", "S_0[i,1] -> S_0[i+1,0]"}, {{5}});
  P("floorg", "[N]", {"S_0[i,j] : 0 <= i < N and 0 <= 2j <= i"}, {"S_0[i,j] -> S_0[i+1,j]", "S_0[i,j] -> S_0[i+2,j+1]"}, {{7}});
  P("frac", "[N]", {"S_0[i,j] : 0 <= 3i <= 2N and i <= 2j <= N + i"}, {"S_0[i,j] -> S_0[i+1,j+1]"}, {{5}});
  if (depth >= 1)
    for (int m = 0; m < 64; m++) { // 4 statements, all DAG edge subsets (identity)
      if (depth == 1 && m % 3 == 1) continue;
      vector<string> deps;
      int q = 0;
      for (int a = 0; a < 4; a++)
        for (int b = a + 1; b < 4; b++, q++)
          if (m >> q & 1) deps.push_back("S_" + std::to_string(a) + "[i] -> S_" + std::to_string(b) + (q % 2 ? "[i]" : "[N-1-i]"));
      P("dag4." + std::to_string(m), "[N]", {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N", "S_2[i] : 0 <= i < N", "S_3[i] : 0 <= i < N"}, deps, {{3}});
    }
}

// Programs with no legal schedule.
void fam_infeasible(vector<Prog> &out, int depth) {
  auto P = [&](string id, vector<string> doms, vector<string> deps) {
    Prog p;
    p.id = "I:" + id;
    p.params = "[N]";
    p.doms = doms;
    p.deps = deps;
    p.pvals = {{4}};
    p.feasible = false;
    out.push_back(p);
  };
  P("self", {"S_0[i] : 0 <= i < N"}, {"S_0[i] -> S_0[i]"});
  P("self2", {"S_0[i,j] : 0 <= i,j < N"}, {"S_0[i,j] -> S_0[i,j]"});
  P("cyc1", {"S_0[i] : 0 <= i < N"}, {"S_0[i] -> S_0[i+1]", "S_0[i] -> S_0[i-1]"});
  P("cyc2", {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N"}, {"S_0[i] -> S_1[i]", "S_1[i] -> S_0[i]"});
  P("cyc3", {"S_0[i,j] : 0 <= i,j < N"}, {"S_0[i,j] -> S_0[i,j+1]", "S_0[i,j] -> S_0[i,j-1]"});
  P("cyc4", {"S_0[i,j] : 0 <= i,j < N"}, {"S_0[i,j] -> S_0[i+1,j-1]", "S_0[i,j] -> S_0[i-1,j+1]"});
  P("cyc5", {"S_0[] : N >= 1", "S_1[i] : 0 <= i < N"}, {"S_0[] -> S_1[i]", "S_1[i] -> S_0[]"});
  P("rev", {"S_0[i] : 0 <= i < N"}, {"S_0[i] -> S_0[N-1-i]"});
  // Legal only by running a loop backwards: failure or a legal schedule.
  P("back", {"S_0[i] : 0 <= i < N"}, {"S_0[i] -> S_0[i-1]"});
  P("back2", {"S_0[i,j] : 0 <= i,j < N"}, {"S_0[i,j] -> S_0[i,j-1]"});
  P("nonaff", {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N"}, {"S_0[i] -> S_1[N-1-i]", "S_1[i] -> S_0[i+1]"});
  P("nonaff2", {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N"}, {"S_0[i] -> S_1[i']: i' > i", "S_1[i] -> S_0[i+1]"});
}

// A two-dimensional statement before a three-dimensional one in the same two
// loops; either may come first in the list of statements.
void fam_nested3(vector<Prog> &out, int depth) {
  auto mk = [&](const string &id, bool swap, const string &A, const string &B, vector<string> deps) {
    Prog p;
    p.id = id;
    p.params = "[N]";
    p.pvals = {{3}};
    auto R = [&](string s) {
      string r;
      for (char c : s) r += c == 'A' ? (swap ? "S_1" : "S_0") : c == 'B' ? (swap ? "S_0" : "S_1") : string(1, c);
      return r;
    };
    p.doms = {R(swap ? B : A), R(swap ? A : B)};
    for (auto &s : deps) {
      size_t a = 0;
      while (a < s.size()) { size_t b = s.find(';', a); if (b == string::npos) b = s.size(); p.deps.push_back(R(s.substr(a, b - a))); a = b + 1; }
    }
    out.push_back(p);
  };
  const char *fw[] = {"A[i,j] -> B[i,j,k]", "A[i,j] -> B[i,j,0]", "A[i,j] -> B[i,j+1,k]"};
  const char *bw[] = {"", "B[i,j,k] -> A[i,j+1]", "B[i,j,k] -> A[i+1,j]", "B[i,j,k] -> A[i+1,j-1]", "B[i,j,N-1] -> A[i,j+1]"};
  const char *sb[] = {"", "B[i,j,k] -> B[i,j,k+1]", "B[i,j,k] -> B[i,j+1,k-1]", "B[i,j,k] -> B[i+1,j,k-1]", "B[i,j,k] -> B[i+1,j-1,k]"};
  const char *sa[] = {"", "A[i,j] -> A[i,j+1]", "A[i,j] -> A[i+1,j-1]"};
  int n = 0;
  for (auto f : fw) for (auto b : bw) for (auto x : sb) for (auto y : sa) {
    n++;
    if (depth == 0 && n % 23) continue;
    if (depth == 1 && n % 3) continue;
    mk("N3:" + std::to_string(n), n % 2, "A[i,j] : 0 <= i,j < N", "B[i,j,k] : 0 <= i,j,k < N", {f, b, x, y});
  }
  // wavefronts over bands in which one statement has a scalar dimension
  n = 0;
  for (auto f : {"A[i,j] -> B[i,j,k]", "A[i,j] -> B[i,j,0]"})
    for (auto b : {"", "B[i,j,0] -> A[i+1,j]", "B[i,j,0] -> A[i,j+1]"})
      for (auto x : {"B[i,j,k] -> B[i+1,j,k];B[i,j,k] -> B[i,j+1,k];B[i,j,k] -> B[i,j,k+1]", "B[i,j,k] -> B[i+1,j,k+1];B[i,j,k] -> B[i,j+1,k]"})
        for (int sw = 0; sw < 2; sw++)
          mk("N3w:" + std::to_string(n++), sw, "A[i,j] : 0 <= i,j < N", "B[i,j,k] : 0 <= i,j,k < N", {f, b, x});
  // one-dimensional statement around a nest whose inner loops are not permutable
  n = 0;
  for (auto f : {"A[i] -> B[i,j,k]", "A[i] -> B[i,0,0]"})
    for (auto b : {"", "B[i,j,k] -> A[i+1]", "B[i,0,0] -> A[i+1]"})
      for (auto x : {"B[i,j,k] -> B[i,j+1,k']", "B[i,j,k] -> B[i,j+1,N-1-k]", "B[i,j,k] -> B[i+1,j',k];B[i,j,k] -> B[i,j,k+1]"})
        for (int sw = 0; sw < 2; sw++)
          mk("N1:" + std::to_string(n++), sw, "A[i] : 0 <= i < N", "B[i,j,k] : 0 <= i,j,k < N", {f, b, x});
}
// Chains of four and five statements whose dimensionality alternates, in either
// order of the statements' numbers; and many statements.
void fam_chains(vector<Prog> &out, int depth) {
  auto mk = [&](const vector<int> &d, bool rev, int kind) {
    int n = d.size();
    Prog p;
    p.id = "Q";
    for (int x : d) p.id += std::to_string(x);
    p.id += string(rev ? "r" : "") + ":" + std::to_string(kind);
    p.params = "[N]";
    p.pvals = {{3}};
    p.doms.resize(n);
    auto no = [&](int k) { return rev ? n - 1 - k : k; };
    for (int k = 0; k < n; k++) p.doms[no(k)] = its(no(k), d[k]) + (d[k] == 0 ? "" : d[k] == 1 ? " : 0 <= i < N" : " : 0 <= i < N and 0 <= j < N");
    for (int k = 0; k + 1 < n; k++) {
      vector<string> te;
      for (int q = 0; q < d[k + 1]; q++) te.push_back(string(1, "ij"[q]) + (kind && k % 2 == 0 ? "'" : ""));
      p.deps.push_back(its(no(k), d[k]) + " -> " + tup(no(k + 1), te));
    }
    for (int k = 0; k < n; k++)
      if (kind == 2 && d[k]) p.deps.push_back(its(no(k), d[k]) + " -> " + tup(no(k), d[k] == 1 ? vector<string>{"i+1"} : vector<string>{"i", "j+1"}));
    out.push_back(p);
  };
  int c = 0;
  for (int n = 4; n <= 5; n++) {
    vector<int> d(n, 0);
    for (;;) {
      int changes = 0;
      for (int k = 0; k + 1 < n; k++) changes += d[k] != d[k + 1];
      if (changes == n - 1 || (depth >= 2 && n == 4))
        for (int kind = 0; kind < 3; kind++) {
          c++;
          if (depth < 2 && n == 5 && c % 4) continue;
          if (depth == 0 && c % 9) continue;
          mk(d, c % 2, kind);
        }
      int k = 0;
      while (k < n && ++d[k] == 3) d[k++] = 0;
      if (k == n) break;
    }
  }
  Prog p;
  p.id = "Q:many";
  p.params = "[N]";
  p.pvals = {{2}};
  for (int k = 0; k < 12; k++) {
    p.doms.push_back(its(k, 1) + " : 0 <= i < N");
    if (k % 3) p.deps.push_back(its(k, 1) + " -> " + tup(k == 11 ? 0 : k + 1, {"i+1"}));
  }
  out.push_back(p);
}
// Extents beyond the default tile sizes (32, and 8 times that).
void fam_big(vector<Prog> &out, int depth) {
  auto P = [&](const string &id, vector<string> doms, vector<string> deps) {
    Prog p;
    p.id = "B:" + id;
    p.params = "[N]";
    p.pvals = {{1}, {40}, {300}};
    p.doms = doms;
    p.deps = deps;
    out.push_back(p);
  };
  P("strip", {"S_0[i,j] : 0 <= i < N and 0 <= j < 2"}, {"S_0[i,j] -> S_0[i+1,j]", "S_0[i,j] -> S_0[i,j+1]"});
  P("skew", {"S_0[i,j] : 0 <= i < 2 and -N < j < 3"}, {"S_0[i,j] -> S_0[i+1,j-1]", "S_0[i,j] -> S_0[i+1,j+1]"});
  P("two", {"S_0[i,j] : 0 <= i < N and 0 <= j < 2", "S_1[i,j] : 0 <= i < N and 0 <= j < 2"}, {"S_0[i,j] -> S_1[i+1,j]", "S_1[i,j] -> S_0[i,j+1]"});
}
vector<Conf> configs(int depth) {
  typedef vector<std::pair<string, long>> L;
  vector<Conf> c;
  auto C = [&](const string &id, L l, const string &ts = "") { c.push_back({id, l, ts, "", ""}); };
  const string T2 = "2\n3\n2\n3\n2\n2\n3\n2\n", T3 = "3\n2\n4\n2\n3\n3\n2\n2\n";
  L seq = {{"tile", 0}, {"parallel", 0}, {"diamondtile", 0}, {"intratileopt", 0}};
  auto W = [](L a, const L &b) { for (auto &x : b) a.push_back(x); return a; };
  C("seq", seq);
  C("seq-max", W(seq, {{"fuse", kMaximalFuse}}));
  C("seq-no", W(seq, {{"fuse", kNoFuse}}));
  C("par", W(seq, {{"parallel", 1}}));
  C("tile", {{"tile", 1}, {"parallel", 0}, {"diamondtile", 0}, {"intratileopt", 0}}, T2);
  C("tilepar", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}}, T2);
  C("tilepar-max", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 1}, {"fuse", kMaximalFuse}}, T3);
  C("diamond", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 1}, {"intratileopt", 1}}, T2);
  C("l2", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}, {"second_level_tile", 1}}, T2);
  C("glpk", W(seq, {{"glpk", 1}, {"islsolve", 0}}));
  C("dfp", W(seq, {{"glpk", 1}, {"islsolve", 0}, {"dfp", 1}, {"lp", 1}, {"lastwriter", 1}}));
  C("dfp-typed", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}, {"glpk", 1}, {"islsolve", 0}, {"dfp", 1}, {"lp", 1}, {"lastwriter", 1}, {"fuse", kTypedFuse}, {"scc_cluster", 1}}, T2);
  C("default", {});
  if (depth >= 1) {
    C("intra", W(seq, {{"intratileopt", 1}}));
    C("innerpar", W(seq, {{"parallel", 1}, {"innerpar", 1}}));
    C("multipar", {{"tile", 1}, {"parallel", 1}, {"multipar", 1}, {"diamondtile", 0}}, T2);
    C("tileinner", {{"tile", 1}, {"parallel", 1}, {"innerpar", 1}, {"diamondtile", 0}}, T2);
    C("fulldiam", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}, {"fulldiamondtile", 1}, {"intratileopt", 1}}, T2);
    C("l2short", {{"tile", 1}, {"parallel", 0}, {"diamondtile", 0}, {"second_level_tile", 1}}, "2\n3\n");
    C("l2default", {{"second_level_tile", 1}, {"parallel", 0}});
    C("multidiam", {{"tile", 1}, {"parallel", 1}, {"multipar", 1}, {"second_level_tile", 1}}, T3);
    C("rarlw", W(seq, {{"rar", 1}, {"lastwriter", 1}, {"parallel", 1}, {"intratileopt", 1}, {"fuse", kMaximalFuse}}));
    C("flic", W(seq, {{"flic", 1}}));
    C("nodepbound", W(seq, {{"nodepbound", 1}}));
    C("percc", W(seq, {{"per_cc_obj", 1}, {"fuse", kMaximalFuse}}));
    C("coeff", W(seq, {{"coeff_bound", 2}}));
    C("lp", W(seq, {{"glpk", 1}, {"islsolve", 0}, {"lp", 1}}));
    C("dfp-ilp", W(seq, {{"glpk", 1}, {"islsolve", 0}, {"dfp", 1}, {"ilp", 1}, {"lastwriter", 1}}));
    C("dfp-max", W(seq, {{"glpk", 1}, {"islsolve", 0}, {"dfp", 1}, {"lp", 1}, {"lastwriter", 1}, {"fuse", kMaximalFuse}}));
    C("dfp-col", W(seq, {{"glpk", 1}, {"islsolve", 0}, {"dfp", 1}, {"lp", 1}, {"lastwriter", 1}, {"lpcolour", 1}}));
    C("dfp-clus", W(seq, {{"glpk", 1}, {"islsolve", 0}, {"dfp", 1}, {"lp", 1}, {"lastwriter", 1}, {"scc_cluster", 1}}));
    C("dfp-hyb", {{"tile", 1}, {"parallel", 1}, {"diamondtile", 0}, {"glpk", 1}, {"islsolve", 0}, {"dfp", 1}, {"lp", 1}, {"lastwriter", 1}, {"fuse", kTypedFuse}, {"hybridcut", 1}, {"scc_cluster", 1}}, T2);
    C("dfp-delay", W(seq, {{"glpk", 1}, {"islsolve", 0}, {"dfp", 1}, {"lp", 1}, {"lastwriter", 1}, {"delayed_cut", 1}}));
  }
  return c;
}

// Programs for which the best hyperplane is not the obvious one: two statements
// with uniform offsets between them, self dependences, reversals and diagonals.
void fam_optimal(vector<Prog> &out, int depth) {
  auto mk = [&](const string &id, int dim, vector<string> deps, int ns) {
    Prog p;
    p.id = id;
    p.params = "[N]";
    p.pvals = {{2}, {4}};
    for (int s = 0; s < ns; s++) p.doms.push_back(its(s, dim) + (dim == 1 ? " : 0 <= i < N" : " : 0 <= i < N and 0 <= j < N"));
    p.deps = deps;
    out.push_back(p);
  };
  int n = 0;
  for (long a = -3; a <= 3; a++)
    for (long b = -3; b <= 3; b++) {
      mk("O1:" + std::to_string(n++), 1, {"S_0[i] -> S_1[" + off("i", a) + "]", "S_0[i] -> S_1[" + off("i", b) + "]"}, 2);
      if (a + b > 0) mk("O1:" + std::to_string(n++), 1, {"S_0[i] -> S_1[" + off("i", a) + "]", "S_1[i] -> S_0[" + off("i", b) + "]"}, 2);
    }
  n = 0;
  vector<Vec> v;
  for (long x = -1; x <= 1; x++) for (long y = -1; y <= 1; y++) v.push_back({x, y});
  auto T = [&](const Vec &d) { return "[" + off("i", d[0]) + "," + off("j", d[1]) + "]"; };
  for (auto &a : v) for (auto &b : v) {
    n++;
    if (depth < 2 && n % 2) continue;
    mk("O2:" + std::to_string(n), 2, {"S_0[i,j] -> S_1" + T(a), "S_0[i,j] -> S_1" + T(b)}, 2);
    if (a[0] + b[0] > 0) mk("O2c:" + std::to_string(n), 2, {"S_0[i,j] -> S_1" + T(a), "S_1[i,j] -> S_0" + T(b)}, 2);
    mk("O2s:" + std::to_string(n), 2, {"S_0[i,j] -> S_1[j,i]", "S_0[i,j] -> S_1" + T(a), "S_1[i,j] -> S_1[" + string(b[0] > 0 || b[1] > 0 ? "i+1,j" : "i,j+1") + "]"}, 2);
  }
  for (auto r : {"S_0[i,j] -> S_1[j,i]", "S_0[i,j] -> S_1[N-1-i,j]", "S_0[i,j] -> S_1[i,N-1-j]", "S_0[i,j] -> S_1[i,0]", "S_0[0,j] -> S_1[i,j]"})
    for (auto q : {"S_0[i,j] -> S_0[i+1,j]", "S_0[i,j] -> S_0[i,j+1]", "S_1[i,j] -> S_1[i+1,j]", "S_1[i,j] -> S_1[i,j+1]", "S_1[i,j] -> S_1[i+1,j-1]"})
      mk("O3:" + std::to_string(n++), 2, {r, q}, 2);
  // distances that only larger coefficients make zero, with constants in the domain
  for (auto dm : {"0 <= i <= N+1 and 0 <= j <= N+1", "1 <= i < N and 2 <= j <= N", "0 <= i < N and i <= j <= i+3", "0 <= i < N and 0 <= j <= N+11"})
    for (auto dv : {Vec{1, -2}, Vec{1, -3}, Vec{2, -1}, Vec{2, -3}, Vec{3, -1}, Vec{1, 2}, Vec{3, -2}}) {
      mk("O4:" + std::to_string(n++), 2, {"S_0[i,j] -> S_0" + T(dv)}, 1);
      out.back().doms[0] = string("S_0[i,j] : ") + dm;
      mk("O4:" + std::to_string(n++), 2, {"S_0[i,j] -> S_0" + T(dv), "S_0[i,j] -> S_0" + T({2 * dv[0], 2 * dv[1]})}, 1);
      out.back().doms[0] = string("S_0[i,j] : ") + dm;
      mk("O4:" + std::to_string(n++), 2, {"S_0[i,j] -> S_1" + T(dv), "S_1[i,j] -> S_0[i,j]"}, 2);
      out.back().doms[0] = string("S_0[i,j] : ") + dm;
      out.back().doms[1] = string("S_1[i,j] : ") + dm;
    }
}
