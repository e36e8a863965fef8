#include "mc.h"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
static const int MAXC = 64, MAXW = 64;
static const size_t BITS = 1u << 22;
struct Slot {
  std::atomic<uint64_t> cur;
  std::atomic<double> start;
};
struct Shared {
  std::atomic<uint64_t> ctr[MAXC];
  std::atomic<uint64_t> distinct;
  std::atomic<uint64_t> nsamples;
  std::atomic<uint8_t> bits[BITS / 8];
  Slot slot[MAXW];
};
static Shared *sh;
static std::vector<std::string> cnames;
static std::string scratch;
static int viol_fd = -1, sample_fd = -1;
static uint64_t cur_case;
static bool cur_failed, is_verbose;
static std::string stderr_path;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static void init_shared() {
  if (sh) return;
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); exit(3); }
}
int counter_decl(const char *name) {
  for (size_t i = 0; i < cnames.size(); i++)
    if (cnames[i] == name) return i;
  cnames.push_back(name);
  return cnames.size() - 1;
}
void count(int c, uint64_t n) { sh->ctr[c].fetch_add(n, std::memory_order_relaxed); }
uint64_t counter_get(int c) { return sh->ctr[c].load(); }
void outcome(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 29;
  size_t b = h % BITS;
  uint8_t m = 1u << (b & 7);
  if (!(sh->bits[b >> 3].fetch_or(m) & m)) sh->distinct++;
}
static std::string esc(const std::string &s) {
  std::string o;
  for (char ch : s) {
    unsigned char c = ch;
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
void sample(const std::string &s) {
  if (sample_fd < 0 || sh->nsamples.load() >= 6) return;
  if (sh->nsamples.fetch_add(1) >= 6) return;
  std::string l = esc(s.substr(0, 1200)) + "\n";
  if (write(sample_fd, l.data(), l.size()) < 0) {}
}
void fail(const std::string &kind, const std::string &detail) {
  cur_failed = true;
  if (is_verbose) fprintf(stderr, "FAIL [%s] %s\n", kind.c_str(), detail.c_str());
  if (viol_fd >= 0) {
    std::string l = std::to_string(cur_case) + "\t" + kind + "\t" + esc(detail.substr(0, 1200)) + "\n";
    if (write(viol_fd, l.data(), l.size()) < 0) {}
  }
}
bool failed() { return cur_failed; }
bool verbose() { return is_verbose; }
const std::string &captured_stderr_path() { return stderr_path; }

struct Job { uint64_t a, b; bool retry; };
struct Viol { uint64_t idx; std::string kind, detail; uint64_t chunk_a; bool repro; std::string how; };

static std::string tail(const std::string &path) {
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("Assertion");
  if (p == std::string::npos) p = s.find("runtime error");
  if (p != std::string::npos) { size_t q = s.rfind('\n', p); p = q == std::string::npos ? 0 : q + 1; return s.substr(p, 900); }
  return s.size() > 500 ? s.substr(s.size() - 500) : s;
}

static pid_t spawn(Check &ck, uint64_t a, uint64_t b, int slot) {
  sh->slot[slot].cur = a;
  sh->slot[slot].start = now();
  fflush(nullptr);
  std::string ep = scratch + "/err." + std::to_string(slot);
  pid_t pid = fork();
  if (pid) return pid;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  stderr_path = ep;
  int efd = open(ep.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
  dup2(efd, 2);
  if (!ck.keep_stdout) {
    int nfd = open("/dev/null", O_WRONLY);
    dup2(nfd, 1);
  }
  std::string wd = scratch + "/w" + std::to_string(slot);
  mkdir(wd.c_str(), 0700);
  if (chdir(wd.c_str())) _exit(3);
  if (ck.worker_init) ck.worker_init();
  for (uint64_t i = a; i < b; i++) {
    cur_case = i;
    cur_failed = false;
    sh->slot[slot].start = now();
    sh->slot[slot].cur = i;
    if (ftruncate(2, 0)) {}
    ck.run(i);
  }
  _exit(0);
}

static std::vector<Viol> read_viol(const std::string &path, size_t &off) {
  std::vector<Viol> r;
  std::ifstream f(path);
  f.seekg(off);
  std::string l;
  while (std::getline(f, l)) {
    off += l.size() + 1;
    size_t p = l.find('\t'), q = l.find('\t', p + 1);
    if (p == std::string::npos || q == std::string::npos) continue;
    r.push_back({strtoull(l.c_str(), nullptr, 10), l.substr(p + 1, q - p - 1), l.substr(q + 1), 0, false, ""});
  }
  return r;
}

// Run [a, b] alone; did case b fail (or crash / hang)?
static bool replay(Check &ck, uint64_t a, uint64_t b, const std::string &vp, std::string &kind, std::string &detail) {
  int save = viol_fd;
  std::string p = scratch + "/replay";
  viol_fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
  pid_t pid = spawn(ck, a, b + 1, MAXW - 1);
  int st = 0;
  bool hung = false;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (now() - sh->slot[MAXW - 1].start > ck.retry_timeout_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      hung = true;
      break;
    }
    usleep(2000);
  }
  close(viol_fd);
  viol_fd = save;
  size_t off = 0;
  bool bad = false;
  for (auto &v : read_viol(p, off))
    if (v.idx == b) { bad = true; kind = v.kind; detail = v.detail; }
  if (hung && sh->slot[MAXW - 1].cur == b) { kind = "hang"; detail = "no answer within the limit, alone"; return true; }
  if (!bad && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !hung && sh->slot[MAXW - 1].cur == b) {
    kind = "crash";
    detail = esc((WIFSIGNALED(st) ? std::string("signal ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st))) +
             ": " + tail(scratch + "/err." + std::to_string(MAXW - 1)));
    bad = true;
  }
  return bad;
}

int run_main(int argc, char **argv, std::function<Check(const std::string &, const std::string &)> make) {
  std::string prop, tier = "quick", out, known, onecase;
  int jobs = sysconf(_SC_NPROCESSORS_ONLN);
  if (jobs > 16) jobs = 16;
  if (jobs < 2) jobs = 2;
  bool list = false;
  std::string only;
  uint64_t maxviol = 6, from = 0;
  double budget = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = val();
    else if (a == "--tier") tier = val();
    else if (a == "--out") out = val();
    else if (a == "--known") known = val();
    else if (a == "--case") onecase = val();
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--maxviol") maxviol = strtoull(val().c_str(), 0, 10);
    else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--list") list = true;
    else if (a == "--only") only = val();
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  init_shared();
  double t0 = now();
  Check ck = make(prop, tier);
  if (!only.empty()) { // development aid: restrict to matching case ids
    auto idx = std::make_shared<std::vector<uint64_t>>();
    for (uint64_t i = 0; i < ck.ncases; i++)
      if (ck.case_id(i).find(only) != std::string::npos) idx->push_back(i);
    Check c2 = ck;
    c2.ncases = idx->size();
    c2.case_id = [ck, idx](uint64_t i) { return ck.case_id((*idx)[i]); };
    c2.describe = [ck, idx](uint64_t i) { return ck.describe((*idx)[i]); };
    c2.run = [ck, idx](uint64_t i) { ck.run((*idx)[i]); };
    ck = c2;
  }
  if (list) {
    for (uint64_t i = 0; i < ck.ncases; i++) printf("%s\n", ck.case_id(i).c_str());
    return 0;
  }
  char tmpl[] = "/tmp/plutomc.XXXXXX";
  scratch = mkdtemp(tmpl);
  auto cleanup = [&]() { std::string c = "rm -rf '" + scratch + "'"; if (scratch.rfind("/tmp/plutomc.", 0) == 0) if (system(c.c_str())) {} };

  if (!onecase.empty()) { // verbose replay of one case
    for (uint64_t i = 0; i < ck.ncases; i++)
      if (ck.case_id(i) == onecase || std::to_string(i) == onecase) {
        printf("case %s\n%s\n", ck.case_id(i).c_str(), ck.describe(i).c_str());
        fflush(stdout);
        if (chdir(scratch.c_str())) return 2;
        is_verbose = true;
        if (ck.worker_init) ck.worker_init();
        cur_case = i;
        ck.run(i);
        printf("%s\n", cur_failed ? "FAILS" : "holds");
        fflush(stdout);
        if (chdir("/")) {}
        cleanup();
        return cur_failed;
      }
    fprintf(stderr, "no such case\n");
    cleanup();
    return 2;
  }

  std::set<std::string> known_ids;
  if (!known.empty()) {
    std::ifstream f(known);
    std::string l;
    while (std::getline(f, l)) if (!l.empty()) known_ids.insert(l);
  }
  std::string vp = scratch + "/viol", sp = scratch + "/samples";
  viol_fd = open(vp.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
  sample_fd = open(sp.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0600);
  uint64_t next = from, done = 0, crashes = 0, retried = 0;
  std::deque<Job> retry;
  struct Run { pid_t pid; uint64_t a, b; };
  std::vector<Run> running(jobs, {0, 0, 0});
  std::deque<Job> again;
  std::vector<Viol> viols;
  std::map<uint64_t, uint64_t> chunk_of;
  size_t off = 0;
  bool stop = false;
  auto unlisted = [&]() {
    uint64_t n = 0;
    std::set<uint64_t> seen;
    for (auto &v : viols)
      if (seen.insert(v.idx).second && !known_ids.count(ck.case_id(v.idx) + "\t" + v.kind)) n++;
    return n;
  };
  auto chunk_start = [&](uint64_t idx) { return from + (idx - from) / ck.chunk * ck.chunk; };
  for (;;) {
    bool any = false;
    for (int s = 0; s < jobs; s++) {
      Run &r = running[s];
      if (r.pid) {
        any = true;
        int st;
        pid_t w = waitpid(r.pid, &st, WNOHANG);
        if (w == r.pid) {
          uint64_t cur = sh->slot[s].cur;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            done += r.b - r.a;
          } else {
            crashes++;
            done += cur - r.a + 1;
            std::string how = WIFSIGNALED(st) ? std::string("signal ") + strsignal(WTERMSIG(st))
                                              : "exit status " + std::to_string(WEXITSTATUS(st));
            if (getenv("MC_PROGRESS")) fprintf(stderr, "crash %s\n", ck.case_id(cur).c_str());
            viols.push_back({cur, "crash", esc(how + ": " + tail(scratch + "/err." + std::to_string(s))), 0, false, ""});
            if (cur + 1 < r.b) again.push_back({cur + 1, r.b, false});
          }
          r.pid = 0;
        } else if (now() - sh->slot[s].start > ck.timeout_s) {
          uint64_t cur = sh->slot[s].cur;
          if (now() - sh->slot[s].start > ck.timeout_s) {
            kill(r.pid, SIGKILL);
            waitpid(r.pid, &st, 0);
            retry.push_back({cur, cur + 1, true});
            if (getenv("MC_PROGRESS")) fprintf(stderr, "timeout %s\n", ck.case_id(cur).c_str());
            done += cur - r.a;
            if (cur + 1 < r.b) again.push_back({cur + 1, r.b, false});
            r.pid = 0;
          }
        }
      }
      if (!r.pid && !stop) {
        Job j{0, 0, false};
        if (!again.empty()) { j = again.front(); again.pop_front(); }
        else if (next < ck.ncases) { j = {next, std::min(ck.ncases, next + ck.chunk), false}; next = j.b; }
        if (j.b > j.a) {
          r.a = j.a; r.b = j.b;
          r.pid = spawn(ck, j.a, j.b, s);
          any = true;
        }
      }
    }
    for (auto &v : read_viol(vp, off)) viols.push_back(v);
    if (!stop && unlisted() >= maxviol) stop = true;
    if (!stop && retry.size() >= 6) stop = true;
    if (!stop && budget > 0 && now() - t0 > budget) stop = true;
    if (!any && (stop || (again.empty() && next >= ck.ncases))) break;
    usleep(500);
  }
  for (auto &v : read_viol(vp, off)) viols.push_back(v);
  // Cases over the first limit: alone, with the longer limit.
  for (auto &j : retry) {
    if (unlisted() >= 1 || (budget > 0 && now() - t0 > budget + 60)) { stop = true; break; }
    retried++;
    std::string k, d;
    if (replay(ck, j.a, j.a, vp, k, d)) viols.push_back({j.a, k, d, 0, true, "alone"});
    done++;
  }
  // Replay before reporting: alone, and with the history of its chunk.
  std::vector<Viol> uniq;
  std::set<uint64_t> seen;
  uint64_t unrepro = 0, nnew = 0;
  for (auto &v : viols) {
    if (!seen.insert(v.idx).second) continue;
    bool isknown = known_ids.count(ck.case_id(v.idx) + "\t" + v.kind);
    if (!isknown && nnew++ >= std::max<uint64_t>(maxviol, 3)) continue;
    std::string k, d;
    if (v.repro) ;
    else if (replay(ck, v.idx, v.idx, vp, k, d)) { v.repro = true; v.kind = k; v.detail = d; v.how = "alone"; }
    else {
      for (int t = 0; t < 2 && !v.repro; t++)
        if (replay(ck, chunk_start(v.idx), v.idx, vp, k, d)) {
          v.repro = true; v.kind = k; v.detail = d;
          v.how = "after case " + ck.case_id(chunk_start(v.idx));
        }
    }
    if (!v.repro) unrepro++;
    uniq.push_back(v);
  }
  std::ostringstream o;
  o << "{\n \"cases\": " << ck.ncases - from << ",\n \"explored\": " << done << ",\n \"complete\": " << (stop ? "false" : "true")
    << ",\n \"crashed_workers\": " << crashes << ",\n \"retried_alone\": " << retried << ",\n \"unreproduced\": " << unrepro
    << ",\n \"distinct_outcomes\": " << sh->distinct.load() << ",\n \"bounds\": \"" << esc(ck.bounds) << "\",\n \"counters\": {";
  for (size_t i = 0; i < cnames.size(); i++)
    o << (i ? ", " : "") << "\"" << cnames[i] << "\": " << sh->ctr[i].load();
  o << "},\n \"samples\": [";
  {
    std::ifstream f(sp);
    std::string l;
    bool first = true;
    while (std::getline(f, l)) { o << (first ? "" : ",\n  ") << "\"" << l << "\""; first = false; }
  }
  o << "],\n \"violations\": [";
  bool first = true;
  for (auto &v : uniq) {
    o << (first ? "" : ",\n  ") << "{\"case\": \"" << esc(ck.case_id(v.idx)) << "\", \"kind\": \"" << esc(v.kind) << "\", \"detail\": \"" << v.detail
      << "\", \"reproduced\": " << (v.repro ? "true" : "false") << ", \"how\": \"" << esc(v.how) << "\", \"input\": \"" << esc(ck.describe(v.idx)) << "\"}";
    first = false;
  }
  o << "],\n \"wall_s\": " << now() - t0 << "\n}\n";
  if (out.empty()) printf("%s", o.str().c_str());
  else { std::ofstream f(out); f << o.str(); }
  cleanup();
  return 0;
}
} // namespace mc
