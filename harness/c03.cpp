// C03 parallel loops, C04 tiling, C07 remapping, C18 metadata.
#include "obs.h"
#include <algorithm>
#include <set>
#include <sstream>
using poly::Vec;
using std::string;
using std::vector;
extern "C" {
#include "constraints.h"
#include "pluto.h"
#include "pluto/matrix.h"
// Not in an installed header.
isl_union_map *pluto_parallel_schedule_with_remapping(isl_union_set *, isl_union_map *, Ploop ***, unsigned *, Remapping **, PlutoContext *);
}
static int k_runs = mc::counter_decl("runs"), k_loops = mc::counter_decl("parallel_loops_checked"), k_pairs = mc::counter_decl("dependence_instances_at_loops"),
           k_seqloops = mc::counter_decl("sequential_loops_checked"), k_tiles = mc::counter_decl("tile_coordinates_checked"),
           k_tiledeps = mc::counter_decl("inter_tile_dependences"), k_remap = mc::counter_decl("remapped_instances"), k_rows = mc::counter_decl("remap_rows_evaluated"),
           k_dd = mc::counter_decl("dependence_level_distances"), k_deps = mc::counter_decl("dependences_with_metadata"), k_bands = mc::counter_decl("bands_checked");
static string S(int s) { return "S_" + std::to_string(s); }
static string L(const SLoop &l) {
  string r = "t" + std::to_string(l.depth + 1) + "{";
  for (int s : l.stmts) r += S(s) + " ";
  return r + "}";
}
static bool has(const SLoop &l, int s) { return std::find(l.stmts.begin(), l.stmts.end(), s) != l.stmts.end(); }

struct Full { // one run with all results of the combined interface
  isl_union_map *sched = nullptr;
  Snap mid, end;
  vector<int> pdepth;
  vector<int> pn;
  Remapping *remap = nullptr;
};
static void run_full(Space &sp, const Inputs &in, const Conf &cf, Full &f) {
  PlutoContext *pc = pluto_context_alloc();
  apply(cf, pc->options);
  write_conf_files(cf);
  g_observe = [&](PlutoProg *p, const string &pt) { if (pt == "transformed") f.mid = snapshot(p, true); else f.end = snapshot(p, !p->context->options->tile); };
  Ploop **pl = nullptr;
  unsigned n = 0;
  // from the same text that the text interface gets: the order of the pieces may matter
  char *d = isl_union_set_to_str(in.dom);
  f.sched = pluto_parallel_schedule_with_remapping(isl_union_set_read_from_str(sp.ctx, d), isl_union_map_read_from_str(sp.ctx, umap_to_str(in.dep).c_str()), &pl, &n, &f.remap, pc);
  free(d);
  g_observe = nullptr;
  if (f.sched) {
    for (unsigned i = 0; i < n; i++) { f.pdepth.push_back(pl[i]->depth); f.pn.push_back(pl[i]->nstmts); }
    pluto_loops_free(pl, n);
  }
  pluto_context_free(pc);
}
static void done(Full &f) {
  isl_union_map_free(f.sched);
  if (f.remap) { pluto_remapping_free(*f.remap); free(f.remap); }
}

static std::set<std::pair<int, vector<int>>> as_set(const vector<SLoop> &v) {
  std::set<std::pair<int, vector<int>>> r;
  for (auto &l : v) { auto st = l.stmts; std::sort(st.begin(), st.end()); r.insert({l.depth, st}); }
  return r;
}
static bool check_loops(const Snap &s, const char *when) {
  vector<SLoop> want = loops_of(s);
  if (as_set(want) == as_set(s.all) && want.size() == s.all.size()) return true;
  string a, b;
  for (auto &l : want) a += L(l) + " ";
  for (auto &l : s.all) b += L(l) + " ";
  mc::fail("loops", "the loops are " + a + "but " + b + "are listed (" + when + ")");
  return false;
}
// ---- C03
static bool check_parallel(const Inputs &in, const Conc &c, const Times &t, const vector<SLoop> &loops) {
  for (auto &l : loops) {
    mc::count(k_loops);
    for (auto &d : c.deps) {
      if (!has(l, d.ss) || !has(l, d.ds)) continue;
      mc::count(k_pairs);
      const Vec &a = t.t[d.ss][d.si], &b = t.t[d.ds][d.di];
      if (!std::equal(a.begin(), a.begin() + l.depth, b.begin())) continue;
      if (a[l.depth] != b[l.depth]) {
        mc::fail("carried", "parallel loop " + L(l) + " carries " + S(d.ss) + poly::show(c.inst[d.ss][d.si]) + " at " + poly::show(a) + " -> " + S(d.ds) +
                                poly::show(c.inst[d.ds][d.di]) + " at " + poly::show(b) + ", parameters " + poly::show(c.par));
        return false;
      }
    }
  }
  return true;
}
static void run_c03(Space &sp, uint64_t i) {
  const Inputs &in = sp.inputs(i);
  const Conf &cf = sp.confs[sp.cases[i].second];
  mc::count(k_runs);
  Full f;
  run_full(sp, in, cf, f);
  if (!f.sched) return;
  bool par = cf.get("parallel", 1);
  string rep;
  for (auto &l : f.end.par) rep += L(l) + " ";
  mc::outcome(rep);
  if (mc::verbose()) fprintf(stderr, "%s\nparallel: %s\n", umap_to_str(f.sched).c_str(), rep.c_str());
  // The list handed out is that of the schedule's outermost parallel loops.
  vector<int> want;
  if (par) for (auto &l : f.end.dompar) want.push_back(l.depth);
  if (want != f.pdepth) mc::fail("list", "interface hands out " + poly::show(Vec(f.pdepth.begin(), f.pdepth.end())) + " for parallel loops at depths " + poly::show(Vec(want.begin(), want.end())));
  if (i % 2) { // the list in the text interface: number of loops, then their depths from 1
    TextRun tr = run_str(in, cf);
    string w = par ? std::to_string(want.size()) : "none";
    if (par) for (int d : want) w += "," + std::to_string(d + 1);
    if (tr.loops != w) mc::fail("text", "the text interface hands out loops '" + tr.loops + "' for '" + w + "'");
  }
  bool tiled = cf.get("tile", 1);
  const vector<SLoop> all = loops_of(f.end);
  vector<char> zero(all.size(), 1);
  vector<char> live(all.size(), 0);
  for (auto &c : in.conc) {
    Times t;
    if (!eval_schedule(in, c, f.sched, t)) break;
    if (!check_parallel(in, c, t, f.end.par)) break;
    // Loops without any dependence component must be reported.
    for (size_t k = 0; k < all.size(); k++)
      for (auto &d : c.deps) {
        const SLoop &l = all[k];
        if (!has(l, d.ss) || !has(l, d.ds)) continue;
        live[k] = 1;
        if (t.t[d.ss][d.si][l.depth] != t.t[d.ds][d.di][l.depth]) zero[k] = 0;
      }
  }
  // A dependence without an instance at the enumerated parameters has some at others.
  bool sampled = true;
  for (auto &d : f.mid.deps) {
    bool any = false;
    for (auto &c : in.conc) any |= !dep_points(d, f.mid, c.par).empty();
    sampled &= any;
  }
  if (!tiled && sampled && !mc::failed())
    for (size_t k = 0; k < all.size(); k++) {
      if (!zero[k]) continue;
      mc::count(k_seqloops);
      bool found = false;
      for (auto &l : f.end.par) found |= as_set({l}) == as_set({all[k]});
      if (!found) mc::fail("missed", "loop " + L(all[k]) + " carries nothing but is not reported parallel: " + umap_to_str(f.sched));
    }
  // Every outermost parallel loop is in the list: none is missing that no reported loop encloses.
  if (par && !mc::failed())
    for (auto &l : f.end.par) {
      bool ok = false;
      for (auto &m : f.end.dompar) {
        if (m.depth > l.depth) continue;
        bool sub = false;
        for (int s : l.stmts) sub |= has(m, s);
        ok |= sub;
      }
      if (!ok) mc::fail("notlisted", "no listed loop encloses parallel loop " + L(l));
    }
  if (i % 977 == 5) mc::sample(sp.describe(i) + "parallel loops: " + rep);
  done(f);
}
// ---- C07
static void run_c07(Space &sp, uint64_t i) {
  const Inputs &in = sp.inputs(i);
  const Conf &cf = sp.confs[sp.cases[i].second];
  mc::count(k_runs);
  Full f;
  run_full(sp, in, cf, f);
  if (!f.sched) {
    if (f.remap) mc::fail("failed", "remapping without a schedule");
    return;
  }
  if (!f.remap) { mc::fail("none", "no remapping"); return; }
  if ((int)f.remap->nstmts != in.nstmts) { mc::fail("count", "remapping for another number of statements"); return; }
  string rep;
  // The other interfaces hand out the same remapping.
  if (i % 2) {
    string want = show_remap(*f.remap), got = i % 4 == 1 ? run_str(in, cf).remap : run_remapping_str(in, cf);
    if (got != want) mc::fail("text", string(i % 4 == 1 ? "pluto_schedule_str" : "pluto_get_remapping_str") + " hands out" + got + " instead of" + want);
  }
  for (auto &c : in.conc) {
    Times t;
    if (!eval_schedule(in, c, f.sched, t)) break;
    for (int s = 0; s < in.nstmts && !mc::failed(); s++) {
      PlutoMatrix *m = f.remap->stmt_inv_matrices[s];
      int *div = f.remap->stmt_divs[s];
      int np = c.par.size();
      int d = c.inst[s].empty() ? 0 : c.inst[s][0].size();
      int dim = (int)m->nrows - np - 1; // tile iterators first, then the original ones
      for (size_t x = 0; x < c.inst[s].size() && !mc::failed(); x++) {
        Vec v = t.t[s][x];
        if ((int)m->ncols != (int)v.size() + np + 1 || dim < d) { mc::fail("shape", "remapping matrix of " + S(s) + " has the wrong shape"); break; }
        v.insert(v.end(), c.par.begin(), c.par.end());
        v.push_back(1);
        mc::count(k_remap);
        for (int r = 0; r < (int)m->nrows; r++) {
          long q = 0;
          for (size_t j = 0; j < v.size(); j++) q += m->val[r][j] * v[j];
          mc::count(k_rows);
          long want = r >= dim ? v[v.size() - np - 1 + (r - dim)] : r >= dim - d ? c.inst[s][x][r - (dim - d)] : 0;
          bool known = r >= dim - d;
          if (div[r] <= 0 || q % div[r] || (known && q / div[r] != want)) {
            mc::fail("inexact", S(s) + poly::show(c.inst[s][x]) + " at " + poly::show(t.t[s][x]) + ": row " + std::to_string(r) + " gives " + std::to_string(q) + "/" +
                                    std::to_string(div[r]) + " instead of " + std::to_string(want) + ", parameters " + poly::show(c.par));
            break;
          }
        }
      }
    }
    if (mc::failed()) break;
  }
  for (int s = 0; s < in.nstmts; s++)
    for (unsigned r = 0; r < f.remap->stmt_inv_matrices[s]->nrows; r++)
      for (unsigned j = 0; j < f.remap->stmt_inv_matrices[s]->ncols; j++) rep += std::to_string(f.remap->stmt_inv_matrices[s]->val[r][j]) + ",";
  mc::outcome(rep);
  if (i % 977 == 5) mc::sample(sp.describe(i) + "remapping entries: " + rep);
  done(f);
}
// ---- C18
static bool check_meta(const Inputs &in, const Snap &s, const char *when) {
  string w = string(" (") + when + ")";
  for (size_t k = 0; k < s.trans.size(); k++) {
    if ((int)s.trans[k].size() != s.nh) { mc::fail("levels", S(k) + " has " + std::to_string(s.trans[k].size()) + " levels, not " + std::to_string(s.nh) + w); return false; }
    for (int l = 0; l < s.nh; l++) {
      bool loop = false;
      for (int j = 0; j < s.dim[k]; j++) loop |= s.trans[k][l][j] != 0;
      if (loop != (s.htype[k][l] != 0)) { mc::fail("type", S(k) + " level " + std::to_string(l) + " is recorded as " + (loop ? "scalar but is a loop" : "a loop but is scalar") + w); return false; }
    }
  }
  for (int l = 0; l < s.nh; l++) {
    bool loop = false;
    for (size_t k = 0; k < s.trans.size(); k++)
      for (int j = 0; j < s.dim[k]; j++) loop |= s.trans[k][l][j] != 0;
    if (loop != (s.hprop[l] != 0)) { mc::fail("type", "level " + std::to_string(l) + " has the wrong type" + w); return false; }
  }
  vector<vector<long>> lo(s.deps.size(), vector<long>(s.nh, 0)), hi = lo;
  vector<char> any(s.deps.size(), 0);
  for (auto &c : in.conc)
    for (size_t k = 0; k < s.deps.size(); k++) {
      const SDep &d = s.deps[k];
      for (auto &p : dep_points(d, s, c.par))
        for (int l = 0; l < s.nh; l++) {
          long v = row_val(s.trans[d.dest][l], p.second, c.par) - row_val(s.trans[d.src][l], p.first, c.par);
          mc::count(k_dd);
          if (!any[k] && l == 0) { lo[k].assign(s.nh, 1L << 40); hi[k].assign(s.nh, -(1L << 40)); any[k] = 1; }
          lo[k][l] = std::min(lo[k][l], v);
          hi[k][l] = std::max(hi[k][l], v);
        }
    }
  auto dir = [&](size_t k, int l) { return lo[k][l] == 0 && hi[k][l] == 0 ? '0' : lo[k][l] >= 0 ? '+' : hi[k][l] <= 0 ? '-' : '*'; };
  // Some distances only occur at larger parameters: look for them before judging a direction as too wide.
  for (size_t k = 0; k < s.deps.size(); k++) {
    const SDep &d = s.deps[k];
    auto same = [&]() { for (int l = 0; l < s.nh; l++) if (d.dir[l] != dir(k, l)) return false; return true; };
    if (!any[k] || same()) continue;
    for (long more = 1; more <= 10 && !same(); more++) {
      poly::Vec par(s.npar, 0);
      for (auto &c : in.conc) for (int j = 0; j < s.npar; j++) par[j] = std::max(par[j], c.par[j] + more);
      for (auto &p : dep_points(d, s, par))
        for (int l = 0; l < s.nh; l++) {
          long v = row_val(s.trans[d.dest][l], p.second, par) - row_val(s.trans[d.src][l], p.first, par);
          lo[k][l] = std::min(lo[k][l], v);
          hi[k][l] = std::max(hi[k][l], v);
        }
    }
  }
  auto show = [&](size_t k) { return "dependence " + std::to_string(k) + " " + S(s.deps[k].src) + "->" + S(s.deps[k].dest); };
  for (size_t k = 0; k < s.deps.size(); k++) {
    if (!any[k]) continue;
    const SDep &d = s.deps[k];
    mc::count(k_deps);
    int first = -1;
    for (int l = 0; l < s.nh; l++) {
      char e = dir(k, l);
      if (d.dir[l] != e) {
        mc::fail("direction", show(k) + " has distances " + std::to_string(lo[k][l]) + ".." + std::to_string(hi[k][l]) + " at level " + std::to_string(l) + " recorded as " + char(d.dir[l]) + w);
        return false;
      }
      if (first < 0 && lo[k][l] >= 1) first = l;
    }
    if (d.satisfied ? d.level != first : first >= 0) {
      mc::fail("level", show(k) + " recorded as satisfied at level " + std::to_string(d.satisfied ? d.level : -1) + ", true " + std::to_string(first) + w);
      return false;
    }
    for (int l = 0; l < s.nh; l++) { // levels that may carry it
      bool e = (lo[k][l] != 0 || hi[k][l] != 0) && (first < 0 || l <= first);
      if ((d.satvec[l] != 0) != e) { mc::fail("satvec", show(k) + " level " + std::to_string(l) + " wrongly recorded as " + (e ? "not carrying" : "carrying") + " it" + w); return false; }
    }
  }
  auto bands = [&](const vector<SBand> &v) {
    for (auto &b : v) {
      mc::count(k_bands);
      for (size_t k = 0; k < s.deps.size(); k++) {
        const SDep &d = s.deps[k];
        if (!any[k] || !has(b.loop, d.src) || !has(b.loop, d.dest)) continue;
        int first = -1;
        for (int l = 0; l < s.nh && first < 0; l++) if (lo[k][l] >= 1) first = l;
        if (first < 0 || first < b.loop.depth) continue;
        bool scalar = true; // satisfied by a scalar dimension
        for (int st : b.loop.stmts) for (int j = 0; j < s.dim[st]; j++) scalar &= s.trans[st][first][j] == 0;
        for (int l = b.loop.depth; l < b.loop.depth + b.width; l++)
          if (lo[k][l] < 0 && !(scalar && l > first)) {
            mc::fail("band", "band of width " + std::to_string(b.width) + " at " + L(b.loop) + " is not permutable: " + show(k) + " has distance " + std::to_string(lo[k][l]) + " at level " + std::to_string(l) + w);
            return false;
          }
      }
    }
    return true;
  };
  return bands(s.outer) && bands(s.inner);
}
static void run_c18(Space &sp, uint64_t i) {
  const Inputs &in = sp.inputs(i);
  const Conf &cf = sp.confs[sp.cases[i].second];
  mc::count(k_runs);
  Full f;
  run_full(sp, in, cf, f);
  if (!f.sched) return;
  string rep;
  for (auto &d : f.mid.deps) { for (long c : d.dir) rep += char(c); rep += std::to_string(d.level) + " "; }
  mc::outcome(rep);
  if (mc::verbose()) fprintf(stderr, "%s\n%s\n", umap_to_str(f.sched).c_str(), rep.c_str());
  check_meta(in, f.mid, "after transformation");
  if (!mc::failed() && check_loops(f.mid, "after transformation")) check_loops(f.end, "final");
  if (!mc::failed() && !cf.get("parallel", 1) && !cf.get("tile", 1)) check_meta(in, f.end, "final");
  if (i % 977 == 5) mc::sample(sp.describe(i) + "directions and levels: " + rep);
  done(f);
}
// ---- C04
static long fdiv(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
static void run_c04(Space &sp, uint64_t i) {
  const Inputs &in = sp.inputs(i);
  const Prog &pr = sp.progs[sp.cases[i].first];
  const Conf &cf = sp.confs[sp.cases[i].second];
  mc::count(k_runs);
  Full f;
  run_full(sp, in, cf, f);
  if (!f.sched) return;
  Vec file;
  { std::istringstream is(cf.tile_sizes); long v; while (is >> v) file.push_back(v); }
  bool l2 = cf.get("second_level_tile", 0), par = cf.get("parallel", 1);
  int levels = l2 ? 2 : 1;
  string rep;
  // Wavefront terms per (band start): the set of tile dimensions added to the first.
  std::map<int, std::set<int>> dummy;
  for (int s = 0; s < in.nstmts; s++) rep += std::to_string(f.end.ntiled[s]) + "@" + std::to_string(f.end.tfirst[s]) + "-" + std::to_string(f.end.tlast[s]) + " ";
  mc::outcome(rep);
  if (mc::verbose()) fprintf(stderr, "%s\ntiled: %s\n", umap_to_str(f.sched).c_str(), rep.c_str());
  // A single statement whose two outermost hyperplanes are permutable loops is tiled in both.
  if (in.nstmts == 1 && f.mid.nh >= 2 && f.mid.htype[0][0] && f.mid.htype[0][1]) {
    bool perm = true;
    for (auto &c : in.conc)
      for (auto &d : c.deps)
        for (int l = 0; l < 2; l++)
          perm &= row_val(f.mid.trans[0][l], c.inst[0][d.di], c.par) >= row_val(f.mid.trans[0][l], c.inst[0][d.si], c.par);
    if (perm && (f.end.ntiled[0] < 2 * levels || f.end.tfirst[0] != 0)) mc::fail("untiled", "permutable outer band is not tiled: " + umap_to_str(f.sched));
  }
  std::map<std::pair<int, int>, std::set<string>> modes; // (first,last) -> skews seen possible
  for (auto &c : in.conc) {
    if (mc::failed()) break;
    Times t;
    if (!eval_schedule(in, c, f.sched, t)) break;
    vector<vector<Vec>> tile(in.nstmts); // outer prefix + unskewed tile coordinates
    for (int s = 0; s < in.nstmts && !mc::failed(); s++) {
      int a = f.end.tfirst[s], w = f.end.tlast[s] - a + 1;
      bool tiled = f.end.ntiled[s] > 0;
      if (!tiled) { tile[s].assign(c.inst[s].size(), {}); continue; }
      // Sizes: the file gives one per loop dimension of the band, then ratios.
      Vec ts(w, 32), ra(w, 8);
      vector<char> loopdim(w, 0);
      auto apart = [&](int q) { // separated by an outer scalar dimension
        for (int l = 0; l < a; l++)
          if (!f.mid.htype[q][l] && !f.mid.htype[s][l] && f.mid.trans[q][l].back() != f.mid.trans[s][l].back()) return true;
        return false;
      };
      for (int k = 0; k < w; k++)
        for (int q = 0; q < in.nstmts; q++)
          if (!apart(q) && f.end.ntiled[q] > 0 && f.end.tfirst[q] == a && f.end.tlast[q] == f.end.tlast[s] && f.mid.htype[q][a + k]) loopdim[k] = 1;
      // statements of the same band only
      size_t pos = 0;
      if (!file.empty()) {
        for (int k = 0; k < w; k++) if (loopdim[k]) ts[k] = pos < file.size() ? file[pos++] : 32;
        for (int k = 0; k < w; k++) ra[k] = pos < file.size() ? file[pos++] : 8;
      }
      for (size_t x = 0; x < c.inst[s].size(); x++) {
        const Vec &tv = t.t[s][x];
        Vec outer, t1(w), t2(w);
        for (int l = 0; l < a; l++) {
          outer.push_back(row_val(f.mid.trans[s][l], c.inst[s][x], c.par));
          if (tv[l] != outer.back()) { mc::fail("outer", "tiling changes dimension " + std::to_string(l) + " outside the band of " + S(s)); break; }
        }
        for (int k = 0; k < w; k++) {
          long h = row_val(f.mid.trans[s][a + k], c.inst[s][x], c.par);
          t1[k] = loopdim[k] ? fdiv(h, ts[k]) : h; // also of a constant where other statements have a loop
          t2[k] = loopdim[k] ? fdiv(t1[k], ra[k]) : t1[k];
          mc::count(k_tiles);
        }
        const Vec &o = l2 ? t2 : t1;
        // All but the first outermost tile dimension are as expected; the first may be a wavefront.
        bool ok = (int)tv.size() >= a + levels * w;
        string bad;
        for (int k = 1; k < w && ok; k++) if (tv[a + k] != o[k]) { ok = false; bad = std::to_string(a + k); }
        for (int k = 0; k < w && ok && l2; k++) if (tv[a + w + k] != t1[k]) { ok = false; bad = std::to_string(a + w + k); }
        long sum1 = o[0];
        bool first = false;
        if (ok) {
          long all = 0;
          for (int k = 0; k < w; k++) all += o[k];
          first = tv[a] == o[0];
          if (!first && par) {
            // sum with one further loop dimension, or all of them
            for (int k = 1; k < w; k++) if (loopdim[k] && tv[a] == o[0] + o[k]) first = true;
            if (tv[a] == all) first = true;
            // scalar dimensions do not take part
            long loops = 0;
            for (int k = 0; k < w; k++) if (f.mid.htype[s][a + k]) loops += o[k];
            if (tv[a] == loops) first = true;
          }
          (void)sum1;
          if (!first) { ok = false; bad = std::to_string(a); }
        }
        if (!ok) {
          mc::fail("tile", S(s) + poly::show(c.inst[s][x]) + " has time " + poly::show(tv) + ", tile coordinates " + poly::show(o) + (l2 ? " over " + poly::show(t1) : "") + " expected at dimension " +
                               std::to_string(a) + ", dimension " + bad + " differs; parameters " + poly::show(c.par));
          break;
        }
        Vec id = outer;
        id.push_back(1L << 30);
        id.insert(id.end(), o.begin(), o.end());
        tile[s].push_back(id);
      }
    }
    if (mc::failed()) break;
    // Atomicity: no two tiles depend on each other in both directions.
    std::set<std::pair<Vec, Vec>> arcs;
    for (auto &d : c.deps) {
      const Vec &p = tile[d.ss][d.si], &q = tile[d.ds][d.di];
      if (p.empty() || q.empty() || p.size() != q.size() || p == q || f.end.tfirst[d.ss] != f.end.tfirst[d.ds]) continue;
      int a = f.end.tfirst[d.ss];
      if (!std::equal(p.begin(), p.begin() + a, q.begin())) continue;
      mc::count(k_tiledeps);
      arcs.insert({p, q});
      if (arcs.count({q, p})) { mc::fail("cycle", "tiles " + poly::show(p) + " and " + poly::show(q) + " depend on each other, parameters " + poly::show(c.par)); break; }
    }
  }
  (void)pr;
  if (i % 977 == 5) mc::sample(sp.describe(i) + "tiled: " + rep + "\nschedule: " + umap_to_str(f.sched));
  done(f);
}

static std::shared_ptr<Space> space(const string &tier, std::function<bool(const Conf &)> keep) {
  int d = tier == "thorough" ? 2 : 1;
  auto sp = std::make_shared<Space>();
  fam_shapes(sp->progs, d);
  fam_uniform(sp->progs, d);
  fam_nonuniform(sp->progs, d);
  fam_multi(sp->progs, d);
  fam_triples(sp->progs, d);
  fam_big(sp->progs, d);
  fam_chains(sp->progs, d);
  fam_nested3(sp->progs, d);
  for (auto &c : configs(d)) if (keep(c)) sp->confs.push_back(c);
  sp->product();
  return sp;
}
mc::Check make_c03(const string &tier) { return make_space_check(space(tier, [](const Conf &) { return true; }), run_c03); }
mc::Check make_c04(const string &tier) { return make_space_check(space(tier, [](const Conf &c) { return c.get("tile", 1) != 0; }), run_c04); }
mc::Check make_c07(const string &tier) { return make_space_check(space(tier, [](const Conf &) { return true; }), run_c07); }
mc::Check make_c18(const string &tier) { return make_space_check(space(tier, [](const Conf &) { return true; }), run_c18); }
