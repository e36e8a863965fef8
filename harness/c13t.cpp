// C13, second part: two threads, each with contexts of its own, under the
// controlled scheduler.
#include "calls.h"
#include "ctl.h"
#include "unit.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using std::set;
using std::string;
using std::vector;
static int k_sched = mc::counter_decl("schedules"), k_pairs = mc::counter_decl("thread_pairs"), k_ev = mc::counter_decl("function_entries"), k_sw = mc::counter_decl("context_switches"),
           k_conf = mc::counter_decl("conflicting_words"), k_glob = mc::counter_decl("global_words_accessed"), k_pts = mc::counter_decl("preemption_points");
static string once(const Op &o, const Conf &c) {
  isl_ctx *ctx = isl_ctx_alloc();
  PlutoContext *pc = make_context(c);
  string r = call(o, pc, ctx);
  pluto_context_free(pc);
  isl_ctx_free(ctx);
  return r;
}
static void pair(const Op &o0, const Conf &c0, const Op &o1, const Conf &c1, bool th) {
  mc::count(k_pairs);
  string r0, r1, w0, w1;
  auto f0 = [&]() { r0 = once(o0, c0); };
  auto f1 = [&]() { r1 = once(o1, c1); };
  int occ = th ? 6 : 3;
  ctl::Trace t0 = ctl::record(f0, occ), t1 = ctl::record(f1, occ);
  w0 = r0;
  w1 = r1;
  mc::count(k_ev, t0.events + t1.events);
  set<uintptr_t> conf;
  for (auto &a : t0.access) {
    auto it = t1.access.find(a.first);
    if (it != t1.access.end() && ((a.second | it->second) & 2)) conf.insert(a.first);
  }
  mc::count(k_glob, t0.access.size() + t1.access.size());
  mc::count(k_conf, conf.size());
  auto points = [&](const ctl::Trace &t, bool entries) {
    vector<ctl::Point> p;
    set<ctl::Point> seen;
    if (entries) p = t.entries;
    for (auto &s : t.shared) if (conf.count(s.second) && seen.insert(s.first).second) p.push_back(s.first);
    return p;
  };
  auto one = [&](bool swap, const vector<ctl::Point> &pa, const vector<ctl::Point> &pb) {
    int sw = 0;
    r0 = r1 = "?";
    mc::count(k_sched);
    if (!swap) ctl::run(f0, f1, pa, pb, conf, sw); else ctl::run(f1, f0, pa, pb, conf, sw);
    mc::count(k_sw, sw);
    if (r0 == w0 && r1 == w1) return true;
    string at;
    for (auto &p : pa) at += " first thread at " + ctl::where(p.pc) + "#" + std::to_string(p.n);
    for (auto &p : pb) at += " second thread at " + ctl::where(p.pc) + "#" + std::to_string(p.n);
    bool a = r0 != w0;
    mc::fail("interleaving", "two threads, " + (swap ? o1.id + " then " + o0.id : o0.id + " then " + o1.id) + ", preempted:" + at + ": the result of " + (a ? o0.id : o1.id) + " is\n  " + (a ? r0 : r1).substr(0, 500) + "\nalone it is\n  " + (a ? w0 : w1).substr(0, 500));
    return false;
  };
  for (int swap = 0; swap < 2; swap++) {
    auto P = points(swap ? t1 : t0, true);
    mc::count(k_pts, P.size());
    if (!one(swap, {}, {})) return;
    for (auto &p : P) if (!one(swap, {p}, {})) return;
    auto A = points(swap ? t1 : t0, false), B = points(swap ? t0 : t1, false);
    for (auto &p : A) for (auto &q : B) if (p.n <= (th ? 3 : 1) && q.n <= (th ? 3 : 1)) if (!one(swap, {p}, {q})) return;
  }
  // two preemptions: out of the first thread and back, at function entries
  if (th) {
    for (size_t i = 0; i < t0.entries.size(); i += 1) for (size_t j = i % 7; j < t1.entries.size(); j += 7) if (!one(false, {t0.entries[i]}, {t1.entries[j]})) return;
  }
}
mc::Check make_c13t(const string &tier) {
  bool th = tier == "thorough";
  auto g = std::make_shared<Groups>();
  int no = ops().size(), nc = op_confs().size();
  for (int a = 0; a < nc; a++) for (int b = a; b < nc; b++) {
    if (!th && !(a == b || b == a + 1)) continue;
    for (int x = 0; x < no; x++) for (int y = 0; y < no; y++) {
      if (!op_valid(ops()[x], op_confs()[a]) || !op_valid(ops()[y], op_confs()[b])) continue;
      if (!th && !((x == y && ((x + a) % 4 == 0 || (a == 4 && b == 4))) || (y == (x + 3 + a) % no && (x + b) % 4 == 0))) continue;
      g->add("threads:" + op_confs()[a].id + "." + ops()[x].id + "||" + op_confs()[b].id + "." + ops()[y].id, [=]() { pair(ops()[x], op_confs()[a], ops()[y], op_confs()[b], th); });
    }
  }
  return make_groups(g, "two threads with contexts of their own, each making one call: every schedule with one preemption at the first entry of each library function and at each of the first accesses (per code location) "
                        "to a global word that the other thread uses in a conflicting way, in both orders; every schedule with two preemptions at conflicting accesses");
}
int main(int argc, char **argv) {
  return mc::run_main(argc, argv, [](const string &, const string &tier) { return make_c13t(tier); });
}
