// Explicit enumeration of integer points: independent of the code under test.
#pragma once
#include <isl/map.h>
#include <isl/set.h>
#include <isl/options.h>
#include <isl/space.h>
#include <isl/local_space.h>
#include <isl/aff.h>
#include <isl/ctx.h>
#include <isl/union_map.h>
#include <isl/union_set.h>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace poly {
typedef std::vector<long> Vec;

// sum_j row[j] x_j + row[nv] (== | >=) 0
struct Sys {
  int nv = 0;
  std::vector<Vec> eq, ineq;
};
struct Unbounded : std::runtime_error {
  Unbounded() : std::runtime_error("unbounded") {}
};
// Enumerate all integer solutions extending the fixed values (fixed[j] set when
// isfixed[j]). The callback returns false to stop. Returns false if stopped.
// Throws Unbounded if a variable cannot be bounded by interval reasoning.
bool enumerate(const Sys &s, const std::vector<char> &isfixed, const Vec &vals,
               const std::function<bool(const Vec &)> &cb);
// Same with per-variable initial bounds.
bool enumerate_box(const Sys &s, const Vec &lo, const Vec &hi,
                   const std::function<bool(const Vec &)> &cb);

// Columns: params, in, out, div, const (sets have no in).
struct BasicRel {
  int npar, nin, nout, ndiv;
  Sys sys;
};
struct Rel { // union of basic relations
  int npar = 0, nin = 0, nout = 0;
  std::string in, out; // tuple names
  std::vector<BasicRel> parts;
};
Rel rel_from_map(__isl_keep isl_map *m);
Rel rel_from_set(__isl_keep isl_set *s); // as out dims
std::vector<Rel> rels_from_umap(__isl_keep isl_union_map *m);
std::vector<Rel> rels_from_uset(__isl_keep isl_union_set *m);

// All (in,out) points of the relation at the given parameters, duplicates removed.
std::vector<std::pair<Vec, Vec>> points(const Rel &r, const Vec &par);
// All outputs for a given input (at most `limit` distinct ones).
std::vector<Vec> image(const Rel &r, const Vec &par, const Vec &in, size_t limit);
std::string show(const Vec &v);
int lexcmp(const Vec &a, const Vec &b);
} // namespace poly
