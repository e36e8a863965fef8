// Exhaustive exploration driver: enumerates the cases of a check in forked
// worker processes, collects counters and violations, replays violations.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// Increment a named counter (registered on first use before forking, or from
// the static table: names must be declared with counter_decl).
int counter_decl(const char *name);
void count(int ctr, uint64_t n = 1);
uint64_t counter_get(int ctr);
// Record an observed outcome (hash) for the distinct-outcome estimate.
void outcome(const std::string &s);
// Add a written-out sample case (bounded number kept).
void sample(const std::string &s);

// Report that the property fails on the current case.
void fail(const std::string &kind, const std::string &detail);
bool failed(); // did the current case fail already?

struct Check {
  uint64_t ncases = 0;
  uint64_t chunk = 32;
  double timeout_s = 30;      // first limit, under load
  double retry_timeout_s = 100; // alone
  std::function<std::string(uint64_t)> case_id;   // stable identifier
  std::function<std::string(uint64_t)> describe;  // full input, for the replay
  std::function<void(uint64_t)> run;              // explores one case
  std::function<void()> worker_init;              // per worker process
  std::string bounds;                             // text: the explored space
  bool keep_stdout = false;
};

// Standard main: parses --tier --out --known --replay/--case --jobs, runs.
int run_main(int argc, char **argv, std::function<Check(const std::string &prop,
                                                        const std::string &tier)> make);
// Is this the process that replays one case verbosely?
bool verbose();
const std::string &captured_stderr_path();
} // namespace mc
