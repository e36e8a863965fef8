// A controlled scheduler for two threads that run instrumented library code.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace ctl {
struct Point { // an event of a thread: the n-th function entry / shared access at a code address
  uintptr_t pc = 0;
  int n = 0;
  bool entry = true;
  bool operator<(const Point &o) const { return std::tie(pc, n, entry) < std::tie(o.pc, o.n, o.entry); }
};
struct Trace { // of one thread running alone
  std::vector<Point> entries;                            // first entry of each function
  std::map<uintptr_t, int> access;                       // global words: 1 read, 2 written
  std::vector<std::pair<Point, uintptr_t>> shared;       // accesses to globals, in order
  uint64_t events = 0;
};
Trace record(const std::function<void()> &f, int occurrences);
// Runs both; thread 0 first. Thread 0 is preempted at each of its points in `p0`
// (in order), thread 1 at those in `p1`. `watch`: global words whose accesses are points.
void run(const std::function<void()> &f0, const std::function<void()> &f1, const std::vector<Point> &p0, const std::vector<Point> &p1, const std::set<uintptr_t> &watch, int &switches);
std::string where(uintptr_t pc);
} // namespace ctl
