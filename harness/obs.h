// Snapshots of the library's program taken at the guarded observation points.
#pragma once
#include "sched.h"
struct SDep {
  int src, dest, level;
  bool satisfied;
  poly::Vec satvec, dir; // dir: characters
  poly::Sys sys;         // src iters, dest iters, params
};
struct SLoop { int depth; std::vector<int> stmts; };
struct SBand { SLoop loop; int width; };
struct Snap {
  bool set = false;
  int nh = 0, npar = 0, nvar = 0;
  bool diamond = false;
  std::vector<std::vector<poly::Vec>> trans; // per statement, rows
  std::vector<int> dim, dim_orig, ntiled, tfirst, tlast, scc;
  std::vector<poly::Vec> htype; // per statement: 1 loop, 0 scalar
  poly::Vec hprop;              // per level: 1 loop, 0 scalar
  std::vector<SDep> deps;
  std::vector<SLoop> par, dompar, all;
  std::vector<SBand> outer, inner;
};
// The loops of the transformed program: statements not separated by a scalar
// dimension, at every depth where one of them has a loop.
std::vector<SLoop> loops_of(const Snap &s);
Snap snapshot(PlutoProg *prog, bool bands);
// Pairs (src iters, dest iters) of a dependence polyhedron at the parameters.
std::vector<std::pair<poly::Vec, poly::Vec>> dep_points(const SDep &d, const Snap &s, const poly::Vec &par);
long row_val(const poly::Vec &row, const poly::Vec &iters, const poly::Vec &par);
