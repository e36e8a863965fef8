// C11: decomposition of every dependence graph with few statements.
#include "unit.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <set>
using poly::Vec;
using std::string;
using std::vector;
#include <gmp.h>
extern "C" {
#include "constraints.h"
#include "ddg.h"
#include "math_support.h"
#include "pluto.h"
#include "pluto/matrix.h"
#include "pluto/pluto.h"
#include "program.h"
}
static int k_graphs = mc::counter_decl("graphs"), k_edges = mc::counter_decl("edges"), k_calls = mc::counter_decl("decompositions_compared");
struct World11 {
  int n;
  PlutoContext *pc;
  PlutoProg *prog;
  explicit World11(int n) : n(n) {
    pc = pluto_context_alloc();
    pc->options->silent = 1;
    prog = pluto_prog_alloc(pc);
    prog->stmts = (Stmt **)malloc(n * sizeof(Stmt *));
    for (int i = 0; i < n; i++) {
      int d = (i * 2 + 1) % 3;
      PlutoMatrix *t = pluto_matrix_alloc(0, d + 1, pc);
      PlutoConstraints *dom = pluto_constraints_alloc(1, d + 1, pc);
      dom->nrows = 0;
      dom->ncols = d + 1;
      Stmt *s = pluto_stmt_alloc(d, dom, t);
      s->id = i;
      s->intra_stmt_dep_cst = NULL;
      for (int k = 0; k < d; k++) { s->is_orig_loop[k] = true; s->iterators[k] = strdup("i"); }
      pluto_matrix_free(t);
      pluto_constraints_free(dom);
      prog->stmts[i] = s;
    }
    prog->nstmts = n;
    prog->nvar = 2;
    // One slot per ordered pair, plus a decoy that never counts.
    prog->ndeps = 2 * n * n;
    prog->deps = (Dep **)malloc(prog->ndeps * sizeof(Dep *));
    for (int k = 0; k < prog->ndeps; k++) {
      Dep *d = pluto_dep_alloc();
      int p = k % (n * n);
      d->id = k;
      d->src = p / n;
      d->dest = p % n;
      d->type = PLUTO_DEP_RAW;
      prog->deps[k] = d;
    }
  }
};
static string show(uint64_t g, int n) {
  string s;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (g >> (i * n + j) & 1) s += std::to_string(i) + "->" + std::to_string(j) + " ";
  return "graph on " + std::to_string(n) + " statements with edges " + s;
}
static bool one(World11 &w, uint64_t g) {
  int n = w.n;
  auto E = [&](int i, int j) { return (g >> (i * n + j)) & 1; };
  mc::count(k_graphs);
  for (int k = 0; k < n * n; k++) {
    bool e = g >> k & 1;
    mc::count(k_edges, e);
    w.prog->deps[k]->satisfied = !e;
    // The decoy of a pair is satisfied, or only an input dependence, or repeats a real edge.
    Dep *d = w.prog->deps[n * n + k];
    int m = (k + g) % 3;
    d->type = m == 0 ? PLUTO_DEP_RAR : PLUTO_DEP_WAW;
    d->satisfied = m == 0 ? false : m == 1 ? true : !e;
  }
  // Reference closure by repeated search.
  unsigned reach[8], und[8];
  for (int i = 0; i < n; i++) {
    for (int dir = 0; dir < 2; dir++) {
      unsigned seen = 0, front = 0;
      for (int j = 0; j < n; j++) if (E(i, j) || (dir && E(j, i))) front |= 1u << j;
      if (dir) front |= 1u << i;
      while (front & ~seen) {
        seen |= front;
        unsigned nx = 0;
        for (int u = 0; u < n; u++) if (seen >> u & 1) for (int v = 0; v < n; v++) if (E(u, v) || (dir && E(v, u))) nx |= 1u << v;
        front = nx;
      }
      (dir ? und : reach)[i] = seen;
    }
  }
  auto bad = [&](const char *k, const string &t) { mc::fail(k, show(g, n) + ": " + t); return false; };
  Graph *dd = ddg_create(w.prog);
  w.prog->ddg = dd;
  auto edges = [&](const char *who) {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((dd->adj->val[i][j] != 0) != E(i, j)) return bad("edges", string(who) + " gets edge " + std::to_string(i) + "->" + std::to_string(j) + " wrong");
    return true;
  };
  if (!edges("creation")) return false;
  if ((int)dd->nVertices != n) return bad("edges", "wrong number of vertices");
  // Update to the reverse graph and back.
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w.prog->deps[i * n + j]->satisfied = !E(j, i);
  for (int k = 0; k < n * n; k++) std::swap(w.prog->deps[n * n + k]->satisfied, w.prog->deps[n * n + k]->satisfied);
  ddg_update(dd, w.prog);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      Dep *d = w.prog->deps[n * n + i * n + j];
      bool want = E(j, i) || (d->type != PLUTO_DEP_RAR && !d->satisfied);
      if ((dd->adj->val[i][j] != 0) != want) return bad("edges", "an update leaves a stale graph");
    }
  for (int k = 0; k < n * n; k++) w.prog->deps[k]->satisfied = !(g >> k & 1);
  ddg_update(dd, w.prog);
  if (!edges("update")) return false;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (is_adjacent(dd, i, j) != (E(i, j) || E(j, i))) return bad("edges", "adjacency of " + std::to_string(i) + " and " + std::to_string(j) + " is wrong");
  for (int round = 0; round < 2; round++) { // twice: the second starts from used vertices
    mc::count(k_calls, 2);
    ddg_compute_scc(w.prog);
    std::set<int> ids;
    for (int i = 0; i < n; i++) {
      int a = dd->vertices[i].scc_id;
      if (w.prog->stmts[i]->scc_id != a) return bad("scc", "statement and vertex disagree on the component");
      if (a < 0 || a >= dd->num_sccs) return bad("scc", "component number out of range");
      ids.insert(a);
      for (int j = 0; j < n; j++) {
        int b = dd->vertices[j].scc_id;
        bool same = i == j || ((reach[i] >> j & 1) && (reach[j] >> i & 1));
        if (same != (a == b)) return bad("scc", "statements " + std::to_string(i) + " and " + std::to_string(j) + (same ? " are split" : " are merged"));
        if (E(i, j) && a > b) return bad("scc", "components are not in dependence order at " + std::to_string(i) + "->" + std::to_string(j));
      }
    }
    if ((int)ids.size() != dd->num_sccs) return bad("scc", "wrong number of components");
    for (int k = 0; k < dd->num_sccs; k++) {
      int size = 0, dim = -1;
      for (int i = 0; i < n; i++) if (dd->vertices[i].scc_id == k) { size++; dim = std::max(dim, (int)w.prog->stmts[i]->dim_orig); }
      if (dd->sccs[k].size != size || dd->sccs[k].max_dim != dim || dd->sccs[k].id != k) return bad("scc", "size or dimensionality of component " + std::to_string(k) + " is wrong");
    }
    compute_scc_vertices(dd);
    for (int k = 0; k < dd->num_sccs; k++) {
      std::set<int> a, b;
      for (int i = 0; i < dd->sccs[k].size; i++) a.insert(dd->sccs[k].vertices[i]);
      for (int i = 0; i < n; i++) if (dd->vertices[i].scc_id == k) b.insert(i);
      if (a != b) return bad("scc", "members of component " + std::to_string(k) + " are wrong");
    }
    free_scc_vertices(dd);
    ddg_compute_cc(w.prog);
    std::set<int> cs;
    for (int i = 0; i < n; i++) {
      cs.insert(w.prog->stmts[i]->cc_id);
      if (w.prog->stmts[i]->cc_id != dd->vertices[i].cc_id || dd->vertices[i].cc_id < 0 || dd->vertices[i].cc_id >= dd->num_ccs) return bad("cc", "component number wrong");
      for (int j = 0; j < n; j++)
        if (((und[i] >> j & 1) != 0) != (w.prog->stmts[i]->cc_id == w.prog->stmts[j]->cc_id)) return bad("cc", "statements " + std::to_string(i) + " and " + std::to_string(j) + " are wrongly " + ((und[i] >> j & 1) ? "split" : "merged"));
    }
    if ((int)cs.size() != dd->num_ccs) return bad("cc", "wrong number of connected components");
    if (!edges("decomposition")) return false;
  }
  Graph *t = graph_transpose(dd), *u = get_undirected_graph(dd);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      if ((t->adj->val[j][i] != 0) != E(i, j)) return bad("transpose", "transposed graph is wrong");
      if ((u->adj->val[i][j] != 0) != (E(i, j) || E(j, i))) return bad("undirected", "undirected graph is wrong");
    }
  graph_free(t);
  graph_free(u);
  mc::count(k_calls);
  compute_transitive_closure(dd);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if ((dd->adj->val[i][j] != 0) != ((reach[i] >> j & 1) != 0)) return bad("closure", "closure wrongly " + string(dd->adj->val[i][j] ? "relates " : "misses ") + std::to_string(i) + " and " + std::to_string(j));
  graph_free(dd);
  w.prog->ddg = NULL;
  return true;
}
mc::Check make_c11(const string &tier) {
  auto g = std::make_shared<Groups>();
  for (int n = 1; n <= 3; n++)
    g->add("graphs:" + std::to_string(n), [=]() { World11 w(n); for (uint64_t k = 0; k < (1ull << (n * n)); k++) if (!one(w, k)) return; });
  for (uint64_t hi = 0; hi < 64; hi++)
    g->add("graphs:4:" + std::to_string(hi), [=]() { World11 w(4); for (uint64_t k = 0; k < 1024; k++) if (!one(w, hi << 10 | k)) return; });
  if (tier == "thorough")
    for (uint64_t hi = 0; hi < 4096; hi++)
      g->add("graphs:5:" + std::to_string(hi), [=]() { World11 w(5); for (uint64_t k = 0; k < 8192; k++) if (!one(w, hi << 13 | k)) return; });
  else
    for (uint64_t hi = 0; hi < 256; hi++) // without self edges
      g->add("graphs:5n:" + std::to_string(hi), [=]() {
        World11 w(5);
        for (uint64_t k = 0; k < 4096; k++) {
          uint64_t m = hi << 12 | k, e = 0;
          for (int b = 0, p = 0; p < 25; p++) if (p / 5 != p % 5) { if (m >> b & 1) e |= 1ull << p; b++; }
          if (!one(w, e)) return;
        }
      });
  // larger graphs: few edges, or a path or cycle through all statements in any order with one more edge
  for (int n = 6; n <= 8; n++) {
    int m = n == 6 ? (tier == "thorough" ? 5 : 4) : n == 7 ? 3 : 2;
    for (int first = 0; first < n * n; first++)
      g->add("sparse:" + std::to_string(n) + ":" + std::to_string(first), [=]() {
        World11 w(n);
        std::function<bool(uint64_t, int, int)> go = [&](uint64_t e, int from, int left) {
          if (!one(w, e)) return false;
          if (left) for (int k = from; k < n * n; k++) if (!go(e | 1ull << k, k + 1, left - 1)) return false;
          return true;
        };
        go(1ull << first, first + 1, m - 1);
      });
  }
  for (int n = 6; n <= 8; n++)
    for (int a = 0; a < n; a++)
      for (int b = 0; b < n; b++)
        if (a != b)
          g->add("path:" + std::to_string(n) + ":" + std::to_string(a) + std::to_string(b), [=]() {
            World11 w(n);
            vector<int> rest;
            for (int i = 0; i < n; i++) if (i != a && i != b) rest.push_back(i);
            do {
              uint64_t e = 1ull << (a * n + b);
              int last = b;
              for (int v : rest) { e |= 1ull << (last * n + v); last = v; }
              if (!one(w, e)) return;
              for (int k = n > 6 && tier != "thorough" ? last * n : 0; k < (n > 6 && tier != "thorough" ? last * n + n : n * n); k++) if (!(e >> k & 1) && !one(w, e | 1ull << k)) return;
            } while (std::next_permutation(rest.begin(), rest.end()));
          });
  return make_groups(g, tier == "thorough" ? "all digraphs on at most 5 statements, self edges included; on 6, 7 and 8 statements all digraphs with up to 5, 3 and 2 edges and all paths through all statements with one more edge" : "all digraphs on at most 4 statements with self edges, and on 5 without; on 6, 7 and 8 statements all digraphs with up to 4, 3 and 2 edges and all paths through all statements with one more edge");
}
