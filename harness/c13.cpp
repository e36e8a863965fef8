// C13, first part: all call histories up to a bound on two contexts; every
// result against that of the same call alone in a fresh process.
#include "calls.h"
#include "unit.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using std::string;
using std::vector;
static int k_hist = mc::counter_decl("histories"), k_calls = mc::counter_decl("calls_compared");
// The result of the call in a process of its own.
static string alone(const Prog &q, char entry, const Conf &c) {
  int fd[2];
  if (pipe(fd)) abort();
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    isl_ctx *ctx = isl_ctx_alloc();
    PlutoContext *pc = make_context(c);
    string r = "=" + call(q, entry, pc, ctx);
    size_t off = 0;
    while (off < r.size()) { ssize_t n = write(fd[1], r.data() + off, r.size() - off); if (n <= 0) break; off += n; }
    _exit(0);
  }
  close(fd[1]);
  string r;
  char buf[4096];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) r.append(buf, n);
  close(fd[0]);
  int st;
  waitpid(p, &st, 0);
  if (r.empty() || r[0] != '=') return "crash";
  return r;
}
static string alone(const Op &o, const Conf &c) { return alone(op_progs()[o.prog], o.entry, c); }
// Programs of very different sizes, constants, shapes and results.
static const vector<Prog> &menu() {
  static vector<Prog> v;
  if (!v.empty()) return v;
  auto P = [&](const string &id, const string &par, vector<string> doms, vector<string> deps) {
    Prog p;
    p.id = id;
    p.params = par;
    p.doms = doms;
    p.deps = deps;
    v.push_back(p);
  };
  string sq = "[i,j] : 0 <= i,j < N", ln = "[i] : 0 <= i < N";
  P("const16", "[N]", {"S_0[i,j] : 0 <= i < N and 0 <= j < 16"}, {"S_0[i,j] -> S_0[i+1,j]"});
  P("const100", "[]", {"S_0[i,j] : 0 <= i,j < 100"}, {"S_0[i,j] -> S_0[i+1,j-1]", "S_0[i,j] -> S_0[i,j+1]"});
  P("const3", "[]", {"S_0[i] : 0 <= i <= 3", "S_1[i] : 0 <= i <= 3"}, {"S_0[i] -> S_1[3-i]"});
  P("skew20", "[N]", {"S_0" + sq}, {"S_0[i,j] -> S_0[i+1,j-20]", "S_0[i,j] -> S_0[i,j+1]"});
  P("skew3", "[N]", {"S_0" + sq}, {"S_0[i,j] -> S_0[i+1,j-3]", "S_0[i,j] -> S_0[i,j+1]"});
  P("shift30", "[N]", {"S_0" + ln, "S_1" + ln}, {"S_0[i] -> S_1[i-30]", "S_0[i] -> S_1[i]"});
  P("far", "[N]", {"S_0" + sq}, {"S_0[i,j] -> S_0[i,j+40]", "S_0[i,j] -> S_0[i+40,j]"});
  P("params3", "[N,M,P]", {"S_0[i,j] : 0 <= i < N and M <= j < P"}, {"S_0[i,j] -> S_0[i+1,j]"});
  P("params2", "[M,N]", {"S_0[i,j] : 0 <= i < N and 0 <= j < M"}, {"S_0[i,j] -> S_0[i+1,j]", "S_0[i,j] -> S_0[i,j+1]"});
  P("reverse", "[N]", {"S_0" + ln, "S_1" + ln}, {"S_0[i] -> S_1[j] : i + j = N - 1"});
  P("broadcast", "[N]", {"S_0" + sq}, {"S_0[i,j] -> S_0[k,j] : i = 0 and k > 0", "S_0[i,j] -> S_0[i,k] : j = 0 and k > 0"});
  P("cube", "[N]", {"S_0[i,j,k] : 0 <= i,j,k < N"}, {"S_0[i,j,k] -> S_0[i,j,k+1]"});
  P("heat", "[T,N]", {"S_0[t,i] : 0 <= t < T and 0 < i < N"}, {"S_0[t,i] -> S_0[t+1,i-1]", "S_0[t,i] -> S_0[t+1,i]", "S_0[t,i] -> S_0[t+1,i+1]"});
  P("four", "[N]", {"S_0" + ln, "S_1" + ln, "S_2" + ln, "S_3" + ln}, {"S_0[i] -> S_1[i]", "S_1[i] -> S_2[i+1]", "S_2[i] -> S_3[i]"});
  P("free", "[N]", {"S_0" + sq, "S_1" + sq}, {});
  P("cyclic2", "[N]", {"S_0" + ln, "S_1" + ln}, {"S_0[i] -> S_1[i]", "S_1[i] -> S_0[i+1]"});
  P("nosched", "[N]", {"S_0" + ln, "S_1" + ln}, {"S_0[i] -> S_1[i]", "S_1[i] -> S_0[i]"});
  v.back().feasible = false;
  P("deepmix", "[N]", {"S_0" + ln, "S_1" + sq, "S_2" + sq}, {"S_0[i] -> S_1[i,j]", "S_1[i,j] -> S_2[j,i]", "S_2[i,j] -> S_2[i,j+1]"});
  P("triangle", "[N]", {"S_0[i,j] : 0 <= i < N and 0 <= j <= i"}, {"S_0[i,j] -> S_0[i+1,j]", "S_0[i,j] -> S_0[i,j+2]"});
  P("stripes", "[N]", {"S_0[i] : 12 <= i < N", "S_1[i] : 0 <= i < N"}, {"S_0[i] -> S_1[i+15]", "S_1[i] -> S_1[i+1]"});
  return v;
}
mc::Check make_c13(const string &tier) {
  bool th = tier == "thorough";
  auto g = std::make_shared<Groups>();
  auto ref = std::make_shared<std::map<std::pair<int, int>, string>>();
  int no = th ? ops().size() : 7, nc = op_confs().size(), len = th ? 4 : 3;
  vector<std::pair<int, int>> pairs;
  for (int a = 0; a < nc; a++) for (int b = a; b < nc; b++) if (th || b == a + 1 || (a == 4 && b == 4) || (a == 0 && b == nc - 1)) pairs.push_back({a, b});
  // references first, from processes forked off this one, which has not called the library
  for (int c = 0; c < nc; c++) for (int o = 0; o < no; o++) if (op_valid(ops()[o], op_confs()[c])) (*ref)[{c, o}] = alone(ops()[o], op_confs()[c]);
  for (auto &pr : pairs)
    for (int first = 0; first < 2 * no; first++) {
      if (!op_valid(ops()[first % no], op_confs()[first < no ? pr.first : pr.second])) continue;
      g->add("hist:" + op_confs()[pr.first].id + "," + op_confs()[pr.second].id + ":" + (first < no ? "A." : "B.") + ops()[first % no].id, [=]() {
        const Conf &ca = op_confs()[pr.first], &cb = op_confs()[pr.second];
        auto want = [&](int c, int o) -> const string & { return ref->at({c, o}); };
        vector<int> seq = {first};
        std::function<bool()> rec = [&]() -> bool {
          {
            mc::count(k_hist);
            isl_ctx *ctx = isl_ctx_alloc();
            PlutoContext *pc[2] = {make_context(ca), make_context(cb)};
            string done;
            bool ok = true;
            for (int x : seq) {
              int slot = x >= no, o = x % no;
              done += string(slot ? " B." : " A.") + ops()[o].id;
              string got = "=" + call(ops()[o], pc[slot], ctx);
              const string &w = want(slot ? pr.second : pr.first, o);
              mc::count(k_calls);
              if (got != w) {
                mc::fail("history", "after the calls" + done + " with options A=" + ca.id + " B=" + cb.id + " the last result is\n  " + got.substr(0, 600) + "\nalone it is\n  " + w.substr(0, 600));
                ok = false;
                break;
              }
              if (x == seq.back()) mc::outcome(got);
            }
            pluto_context_free(pc[0]);
            pluto_context_free(pc[1]);
            isl_ctx_free(ctx);
            if (!ok) return false;
          }
          return true;
        };
        // only maximal sequences need running: their prefixes are compared on the way
        std::function<bool(int)> ext = [&](int left) -> bool {
          if (!left) return rec();
          for (int x = 0; x < 2 * no; x++) {
            if (!op_valid(ops()[x % no], x < no ? ca : cb)) continue;
            seq.push_back(x);
            bool ok = ext(left - 1);
            seq.pop_back();
            if (!ok) return false;
          }
          return true;
        };
        ext(len - 1);
      });
    }
  // all ordered pairs of calls in one context, on a wider menu of programs
  vector<int> pc;
  for (int k = 0; k < nc; k++) pc.push_back(k);
  auto pref = std::make_shared<std::map<std::pair<int, int>, string>>();
  auto fits = [](const Prog &q, const Conf &c) { return !(c.get("dfp", 0) && (!q.feasible || q.mixed_dims())); };
  for (int k : pc) for (size_t o = 0; o < menu().size(); o++) if (fits(menu()[o], op_confs()[k])) (*pref)[{k, (int)o}] = alone(menu()[o], 'T', op_confs()[k]);
  for (int k : pc) for (size_t a = 0; a < menu().size(); a++) {
    if (!fits(menu()[a], op_confs()[k])) continue;
    g->add("pair:" + op_confs()[k].id + ":" + menu()[a].id, [=]() {
      const Conf &cf = op_confs()[k];
      for (size_t b = 0; b < menu().size(); b++) {
        if (!fits(menu()[b], cf)) continue;
        mc::count(k_hist);
        isl_ctx *ctx = isl_ctx_alloc();
        PlutoContext *x = make_context(cf);
        int q[2] = {(int)a, (int)b};
        string got;
        for (int t = 0; t < 2; t++) {
          got = "=" + call(menu()[q[t]], 'T', x, ctx);
          mc::count(k_calls);
          const string &w = pref->at({k, q[t]});
          if (got != w) { mc::fail("history", string("with options ") + cf.id + (t ? " after scheduling " + menu()[a].id + " in the context" : " (first call in the context)") + " the result for " + menu()[q[t]].id + " is\n  " + got.substr(0, 600) + "\nalone it is\n  " + w.substr(0, 600)); return; }
        }
        mc::outcome(got);
        pluto_context_free(x);
        isl_ctx_free(ctx);
      }
    });
  }
  auto c = make_groups(g, "all sequences of " + std::to_string(len) + " calls over two contexts with different options: " + std::to_string(no) + " calls (six entry points, successful and failing) per context, " +
                              std::to_string(pairs.size()) + " pairs of option sets; all ordered pairs of calls in one context over " + std::to_string(menu().size()) + " programs x " + std::to_string(pc.size()) + " option sets");
  return c;
}
