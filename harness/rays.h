// Generators of a polyhedron by the double description method: independent of
// the code under test.
#pragma once
#include "poly.h"
struct Gens {
  std::vector<poly::Vec> rays, lines; // homogeneous: the last coordinate is that of the constant
};
// Generators of { (x,t) : s holds for x scaled by t, t >= 0 }.
Gens generators(const poly::Sys &s);
// Is the affine form f (f[nv] constant) non-negative on the rational polyhedron?
// (For an empty polyhedron: on its recession cone, as in the Farkas lemma.)
bool nonneg(const Gens &g, const poly::Vec &f);
