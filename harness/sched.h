#pragma once
#include "mc.h"
#include "poly.h"
#include "progs.h"
#include <isl/ctx.h>
#include <functional>
#include <memory>

typedef struct plutoProg PlutoProg;

// Observation callback (the guarded hook in the library).
extern std::function<void(PlutoProg *, const std::string &)> g_observe;

struct Times { // time vectors of all instances, per statement
  std::vector<std::vector<poly::Vec>> t;
  size_t len = 0;
};

// Runs the library on (program, configuration) and returns the schedule.
isl_union_map *run_transform(isl_ctx *ctx, const Inputs &in, const Conf &cf,
                             isl_union_map *reads = nullptr, isl_union_map *writes = nullptr);
// The same through the interface that takes and returns text.
struct TextRun { bool have = false; std::string sched, loops, remap; };
TextRun run_str(const Inputs &in, const Conf &cf);
std::string run_remapping_str(const Inputs &in, const Conf &cf);
// Remappings as text: all entries and divisors.
std::string show_remap(const Remapping &r);
void write_conf_files(const Conf &cf);
// Evaluates the schedule on every instance; reports through mc::fail.
bool eval_schedule(const Inputs &in, const Conc &c, isl_union_map *sched, Times &out);
bool check_legal(const Inputs &in, const Conc &c, const Times &t);
bool check_injective(const Inputs &in, const Conc &c, const Times &t);
std::string umap_to_str(isl_union_map *m);

// The product of programs and configurations, with per-program input caching.
struct Space {
  std::vector<Prog> progs;
  std::vector<Conf> confs;
  std::vector<std::pair<int, int>> cases;
  isl_ctx *ctx = nullptr;
  int loaded = -1;
  Inputs in;
  void product(bool all = false);
  std::string id(uint64_t i) const { return progs[cases[i].first].id + "/" + confs[cases[i].second].id; }
  std::string describe(uint64_t i) const;
  const Inputs &inputs(uint64_t i);
};
mc::Check make_space_check(std::shared_ptr<Space> sp, std::function<void(Space &, uint64_t)> run);

// Checks implemented in the other files.
mc::Check make_c01(const std::string &tier);
mc::Check make_c02(const std::string &tier);
mc::Check make_c03(const std::string &tier);
mc::Check make_c04(const std::string &tier);
mc::Check make_c07(const std::string &tier);
mc::Check make_c18(const std::string &tier);
mc::Check make_c05(const std::string &tier);
mc::Check make_c06(const std::string &tier);
mc::Check make_c16s(const std::string &tier);
mc::Check make_c09s(const std::string &tier);
mc::Check make_c15(const std::string &tier);
mc::Check make_c13(const std::string &tier);
mc::Check make_c17s(const std::string &tier);
bool product(const poly::Vec &vals, int n, const std::function<bool(const poly::Vec &)> &cb);

