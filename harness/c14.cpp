// C14: ownership and memory. Every call of the menu and of the program families
// runs with all heap memory accounted for.
#include "calls.h"
#include "mem.h"
#include "unit.h"
#include <algorithm>
using std::string;
using std::vector;
static int k_calls = mc::counter_decl("calls_accounted"), k_zero = mc::counter_decl("contexts_released"), k_fill = mc::counter_decl("fill_patterns_compared");
// Runs f (which must release everything) until lazily created state is there,
// then accounted, with different contents of fresh memory.
static bool accounted(const string &what, const std::function<string()> &f) {
  if (!mem::accounting()) { mc::count(k_calls); f(); return true; } // AddressSanitizer judges
  string r[3];
  const unsigned char fill[3] = {0x00, 0xa5, 0x5a};
  for (int k = 0; k < 3; k++) {
    mc::count(k_calls);
    mem::start(fill[k], false);
    string s = f();
    r[k].swap(s);
    { string().swap(s); }
    size_t own = r[k].capacity() > 15 ? 1 : 0;
    mem::Left l = mem::stop();
    if (k && l.blocks > own) {
      mem::start(0xa5, true);
      f();
      l = mem::stop();
      if (l.blocks) {
        mc::fail("leak", what + ": " + std::to_string(l.blocks) + " blocks, " + std::to_string(l.bytes) + " bytes are left:" + l.where);
        return false;
      }
    }
    if (k) mc::count(k_fill);
    if (k && r[0] != r[k]) { mc::fail("uninitialised", what + ": the result depends on what fresh memory contains:\n  " + r[0].substr(0, 400) + "\n  " + r[k].substr(0, 400)); return false; }
  }
  return true;
}
// Frees the caller's isl context; fails when something still refers to it.
static string drop(isl_ctx *ctx, const string &r) {
  isl_ctx_reset_error(ctx);
  isl_options_set_on_error(ctx, ISL_ON_ERROR_CONTINUE);
  isl_ctx_free(ctx);
  return r;
}
// One program under one configuration through one of the interfaces.
static string run_one(const Prog &p, const Conf &cf, char entry) {
  isl_ctx *ctx = isl_ctx_alloc();
  PlutoContext *pc = make_context(cf);
  string r = call(p, entry, pc, ctx);
  pluto_context_free(pc);
  mc::count(k_zero);
  return drop(ctx, r);
}
static void space(std::shared_ptr<Groups> g, std::shared_ptr<Space> sp, char entry, const string &pfx) {
  for (size_t i = 0; i < sp->cases.size(); i++)
    g->add(pfx + sp->id(i), [=]() {
      const Conf &cf = sp->confs[sp->cases[i].second];
      write_conf_files(cf);
      accounted(sp->describe(i), [&]() { return run_one(sp->progs[sp->cases[i].first], cf, entry); });
      write_conf_files(Conf());
    });
}
mc::Check make_c14(const string &tier) {
  int d = tier == "thorough" ? 1 : 0;
  auto g = std::make_shared<Groups>();
  for (auto &c : op_confs())
    for (auto &o : ops())
      if (op_valid(o, c))
        g->add("call:" + c.id + ":" + o.id, [=]() { accounted(o.id + " with " + show(c), [&]() { return run_one(op_progs()[o.prog], c, o.entry); }); });
  // domains and dependences under every configuration
  auto sp = std::make_shared<Space>();
  fam_shapes(sp->progs, 1);
  fam_uniform(sp->progs, d);
  fam_nonuniform(sp->progs, d);
  fam_multi(sp->progs, d);
  fam_triples(sp->progs, d);
  fam_infeasible(sp->progs, 1);
  sp->confs = configs(1);
  sp->product(false);
  if (!d) sp->cases.erase(std::remove_if(sp->cases.begin(), sp->cases.end(), [](auto &x) { return (x.first + x.second) % 2; }), sp->cases.end());
  space(g, sp, 'T', "");
  // the interfaces that also return loops and remappings
  auto rp = std::make_shared<Space>();
  fam_shapes(rp->progs, 0);
  fam_multi(rp->progs, 0);
  fam_infeasible(rp->progs, 0);
  typedef vector<std::pair<string, long>> L;
  const L seq = {{"tile", 0}, {"parallel", 0}, {"diamondtile", 0}, {"intratileopt", 0}};
  rp->confs = {{"seq", seq, "", "", ""}, {"tilepar", {{"tile", 1}, {"parallel", 1}}, "2\n", "", ""}, {"multipar", {{"tile", 1}, {"parallel", 1}, {"multipar", 1}, {"fuse", 0}}, "2\n", "", ""}};
  rp->product(true);
  for (char e : {'R', 'Z', 'M'}) space(g, rp, e, string(1, e) + "|");
  // programs given by schedule and accesses
  auto ap = std::make_shared<Space>();
  fam_access(ap->progs, d);
  ap->confs = confs_access(1);
  ap->product(true);
  auto &ac = ap->cases;
  ac.erase(std::remove_if(ac.begin(), ac.end(), [&](auto &x) { return ap->progs[x.first].id == "A5:seidel2d" && ap->confs[x.second].get("isldepcoalesce", 0); }), ac.end());
  if (!d) ac.erase(std::remove_if(ac.begin(), ac.end(), [](auto &x) { return (x.first + x.second) % 6; }), ac.end());
  space(g, ap, 'S', "S|");
  // access relations beyond functions: one to many, several pieces, divisions, empty
  auto bp = std::make_shared<Space>();
  auto B = [&](const string &id, vector<string> doms, vector<string> sched, vector<string> reads, vector<string> writes, vector<string> deps) {
    Prog p;
    p.id = id;
    p.params = "[N]";
    p.pvals = {{4}};
    p.doms = doms;
    p.sched = sched;
    p.reads = reads;
    p.writes = writes;
    p.deps = deps;
    bp->progs.push_back(p);
  };
  const char *acc[] = {"A[i]", "A[a] : i <= a <= i+1", "A[a,b] : a = i and 0 <= b < N", "A[b,a] : a = i and 0 <= b < N", "A[a] : a = i and i >= 2 or a = N and i < 2", "A[a] : 2a = i",
                       "A[a] : 2a <= i < 2a+2", "A[a] : exists e : a = 3e + i and 0 <= a < 3", "A[]", "A[N-i,2i,i] : i > 1", "A[0]", "A[i] : i > N"};
  int n = 0;
  for (auto a : acc) for (auto b : acc) B("X" + std::to_string(n++), {"S_0[i] : 0 <= i < N", "S_1[i] : 0 <= i < N"}, {"S_0[i] -> [0,i]", "S_1[i] -> [1,i]"}, {string("S_1[i] -> ") + a}, {string("S_0[i] -> ") + b}, {"S_0[i] -> S_1[i]"});
  bp->confs = {{"intra", {{"tile", 1}, {"parallel", 1}, {"intratileopt", 1}, {"prevector", 1}}, "2\n", "", ""}, {"lw", {{"tile", 0}, {"lastwriter", 1}, {"rar", 1}, {"intratileopt", 1}}, "", "", ""}};
  bp->product(true);
  for (char e : {'S', 'A'}) space(g, bp, e, string(1, e) + "|");
  // fusion structures and hyperplanes given in files, valid and rejected
  auto fp = std::make_shared<Space>();
  fp->progs = {op_progs()[6], op_progs()[1], op_progs()[3], op_progs()[2]};
  const char *fst[] = {"1\n2\n0\n1\n1\n", "2\n1\n0\n1\n1\n1\n1\n", "2\n1\n1\n1\n1\n0\n1\n", "3\n1\n0\n1\n1\n1\n1\n1\n2\n1\n", "9\n", "1\n3\n0\n1\n2\n0\n"};
  const char *pre[] = {"2\n1\n1 5\n0 1 0 0 0\n1\n0\n1 5\n0 1 0 0 0\n1\n0\n", "2\n1\n2 5\n0 0 0 0 0\n0 1 0 0 0\n1\n0\n2 5\n0 0 0 0 1\n0 0 1 0 0\n1\n0\n"};
  for (int i = 0; i < 6; i++) fp->confs.push_back({"fst" + std::to_string(i), i % 2 ? seq : L{{"tile", 1}, {"parallel", 1}}, "", fst[i], ""});
  for (int i = 0; i < 2; i++) fp->confs.push_back({"pre" + std::to_string(i), seq, "", "", pre[i]});
  for (int p = 0; p < 4; p++)
    for (int c = 0; c < 8; c++) {
      int ns = fp->progs[p].doms.size();
      static const int need[8] = {2, 2, 2, 3, 0, 3, 2, 2};
      if (c >= 6 ? p == 0 : !need[c] || need[c] == ns) fp->cases.push_back({p, c});
    }
  space(g, fp, 'T', "file|");
  auto c = make_groups(g, "every call of the menu (six entry points, successful and failing, eight option sets), the program families under every configuration (quick: every second one, alternating) and programs given by accesses (quick: every sixth configuration, rotating), "
                          "access relations that are no functions, fusion structures in files: all heap blocks of the process, "
                          "including those of the polyhedral library, released; three fill patterns for fresh memory; the same cases under AddressSanitizer");
  c.chunk = 16;
  return c;
}
int main(int argc, char **argv) {
  return mc::run_main(argc, argv, [](const string &, const string &tier) { return make_c14(tier); });
}
