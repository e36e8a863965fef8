// A menu of complete library calls, with their results as text.
#pragma once
#include "sched.h"
struct Op {
  std::string id;
  char entry; // T pluto_transform, A the same with accesses, S pluto_schedule,
              // R schedule with loops and remapping, Z pluto_schedule_str, M pluto_get_remapping_str
  int prog;
};
const std::vector<Prog> &op_progs();
const std::vector<Op> &ops();
const std::vector<Conf> &op_confs(); // configurations, without files
bool op_valid(const Op &o, const Conf &c);
std::string call(const Op &o, PlutoContext *pc, isl_ctx *ctx);
std::string call(const Prog &p, char entry, PlutoContext *pc, isl_ctx *ctx);
PlutoContext *make_context(const Conf &c);
