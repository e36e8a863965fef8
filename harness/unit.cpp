#include "unit.h"
#include <cstdlib>
using poly::Vec;
mc::Check make_groups(std::shared_ptr<Groups> g, const std::string &bounds) {
  mc::Check c;
  c.ncases = g->g.size();
  c.chunk = 1;
  c.timeout_s = 200;
  c.retry_timeout_s = 300;
  c.case_id = [g](uint64_t i) { return g->g[i].first; };
  c.describe = c.case_id;
  c.run = [g](uint64_t i) { g->g[i].second(); };
  c.bounds = bounds;
  return c;
}
bool product(const Vec &vals, int n, const std::function<bool(const Vec &)> &cb) {
  Vec v(n, vals.empty() ? 0 : vals[0]);
  std::vector<size_t> ix(n, 0);
  while (true) {
    if (!cb(v)) return false;
    int k = n - 1;
    while (k >= 0 && ix[k] + 1 == vals.size()) { ix[k] = 0; v[k] = vals[0]; k--; }
    if (k < 0) return true;
    v[k] = vals[++ix[k]];
  }
}
int true_rank(const Mat &m) {
  std::vector<std::vector<__int128>> a;
  for (auto &r : m) a.emplace_back(r.begin(), r.end());
  size_t r = 0, nc = m.empty() ? 0 : m[0].size();
  for (size_t c = 0; c < nc && r < a.size(); c++) {
    size_t p = r;
    while (p < a.size() && a[p][c] == 0) p++;
    if (p == a.size()) continue;
    std::swap(a[p], a[r]);
    for (size_t k = r + 1; k < a.size(); k++) {
      __int128 f = a[k][c], h = a[r][c];
      if (f == 0) continue;
      __int128 g = 0;
      for (size_t j = 0; j < nc; j++) {
        a[k][j] = a[k][j] * h - a[r][j] * f;
        __int128 x = a[k][j] < 0 ? -a[k][j] : a[k][j];
        while (x) { __int128 t = g % x; g = x; x = t; }
      }
      if (g > 1) for (size_t j = 0; j < nc; j++) a[k][j] /= g;
    }
    r++;
  }
  return r;
}
std::string show(const Mat &m) {
  std::string s = "[";
  for (auto &r : m) s += poly::show(r);
  return s + "]";
}
