#include "rays.h"
#include <cstdlib>
#include <set>
using poly::Vec;
using std::vector;
typedef __int128 I;
static I dot(const Vec &a, const Vec &b) {
  I s = 0;
  for (size_t i = 0; i < a.size(); i++) s += (I)a[i] * b[i];
  return s;
}
static Vec norm(const vector<I> &v) {
  I g = 0;
  for (I x : v) { I a = g, b = x < 0 ? -x : x; while (b) { I t = a % b; a = b; b = t; } g = a; }
  Vec r;
  for (I x : v) {
    I y = g ? x / g : 0;
    if (y > ((I)1 << 60) || y < -((I)1 << 60)) abort();
    r.push_back((long)y);
  }
  return r;
}
static Vec comb(const Vec &a, I x, const Vec &b, I y) { // x a + y b
  vector<I> v;
  for (size_t i = 0; i < a.size(); i++) v.push_back(x * a[i] + y * b[i]);
  return norm(v);
}
Gens generators(const poly::Sys &s) {
  int n = s.nv + 1;
  Gens g;
  for (int i = 0; i < n; i++) { Vec e(n, 0); e[i] = 1; g.lines.push_back(e); }
  vector<std::pair<Vec, bool>> cs;
  for (auto &r : s.eq) cs.push_back({r, true});
  for (auto &r : s.ineq) cs.push_back({r, false});
  Vec t(n, 0);
  t[n - 1] = 1;
  cs.push_back({t, false});
  vector<vector<char>> sat; // per ray: saturated inequalities
  vector<Vec> done;         // processed inequalities
  auto resat = [&]() {
    sat.clear();
    for (auto &r : g.rays) {
      vector<char> z;
      for (auto &c : done) z.push_back(dot(c, r) == 0);
      sat.push_back(z);
    }
  };
  for (auto &c : cs) {
    const Vec &a = c.first;
    int l = -1;
    for (size_t i = 0; i < g.lines.size(); i++) if (dot(a, g.lines[i]) != 0) { l = i; break; }
    if (l >= 0) {
      Vec L = g.lines[l];
      g.lines.erase(g.lines.begin() + l);
      if (dot(a, L) < 0) for (auto &x : L) x = -x;
      I al = dot(a, L);
      for (auto &x : g.lines) x = comb(x, al, L, -dot(a, x));
      for (auto &x : g.rays) x = comb(x, al, L, -dot(a, x));
      if (!c.second) g.rays.push_back(L);
    } else {
      resat();
      vector<int> P, N;
      std::set<Vec> out;
      for (size_t i = 0; i < g.rays.size(); i++) {
        I v = dot(a, g.rays[i]);
        if (v > 0) P.push_back(i);
        else if (v < 0) N.push_back(i);
        else out.insert(g.rays[i]);
        if (v > 0 && !c.second) out.insert(g.rays[i]);
      }
      for (int p : P) for (int q : N) {
        bool adj = true;
        for (size_t k = 0; k < g.rays.size() && adj; k++) {
          if ((int)k == p || (int)k == q) continue;
          bool sup = true;
          for (size_t z = 0; z < done.size() && sup; z++) if (sat[p][z] && sat[q][z] && !sat[k][z]) sup = false;
          if (sup) adj = false;
        }
        if (adj) out.insert(comb(g.rays[p], -dot(a, g.rays[q]), g.rays[q], dot(a, g.rays[p])));
      }
      g.rays.assign(out.begin(), out.end());
    }
    done.push_back(a);
  }
  return g;
}
bool nonneg(const Gens &g, const Vec &f) {
  for (auto &r : g.rays) if (dot(f, r) < 0) return false;
  for (auto &l : g.lines) if (dot(f, l) != 0) return false;
  return true;
}
