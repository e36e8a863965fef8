#include "poly.h"
#include <algorithm>
#include <climits>
#include <isl/constraint.h>
#include <isl/mat.h>
#include <isl/val.h>
#include <set>

namespace poly {
static const long NINF = LONG_MIN / 4, PINF = LONG_MAX / 4;

static long fdiv(long a, long b) { // floor
  long q = a / b;
  if ((a % b != 0) && ((a < 0) != (b < 0))) q--;
  return q;
}
static long cdiv(long a, long b) { return -fdiv(-a, b); }

struct Search {
  const Sys &s;
  const std::function<bool(const Vec &)> &cb;
  // row . x + c >= 0
  bool prop_row(const Vec &r, int sign, Vec &lo, Vec &hi, bool &changed) {
    // max of the whole sum
    int ninf = 0, infj = -1;
    long mx = sign * r[s.nv];
    for (int j = 0; j < s.nv; j++) {
      long a = sign * r[j];
      if (!a) continue;
      long b = a > 0 ? hi[j] : lo[j];
      if (b == (a > 0 ? PINF : NINF)) { ninf++; infj = j; if (ninf > 1) return true; continue; }
      mx += a * b;
    }
    if (ninf == 0 && mx < 0) return false;
    for (int j = 0; j < s.nv; j++) {
      long a = sign * r[j];
      if (!a) continue;
      if (ninf == 1 && j != infj) continue;
      long rest = ninf == 1 ? mx : mx - a * (a > 0 ? hi[j] : lo[j]);
      // a x >= -rest
      if (a > 0) {
        long nb = cdiv(-rest, a);
        if (nb > lo[j]) { lo[j] = nb; changed = true; if (lo[j] > hi[j]) return false; }
      } else {
        long nb = fdiv(rest, -a);
        if (nb < hi[j]) { hi[j] = nb; changed = true; if (lo[j] > hi[j]) return false; }
      }
    }
    return true;
  }
  bool propagate(Vec &lo, Vec &hi) {
    for (int it = 0; it < 60; it++) {
      bool ch = false;
      for (auto &r : s.eq) {
        if (!prop_row(r, 1, lo, hi, ch)) return false;
        if (!prop_row(r, -1, lo, hi, ch)) return false;
      }
      for (auto &r : s.ineq)
        if (!prop_row(r, 1, lo, hi, ch)) return false;
      if (!ch) break;
    }
    return true;
  }
  bool go(Vec lo, Vec hi) {
    if (!propagate(lo, hi)) return true;
    int best = -1;
    long bl = PINF;
    for (int j = 0; j < s.nv; j++) {
      if (lo[j] == hi[j]) continue;
      if (lo[j] == NINF || hi[j] == PINF) { if (best < 0) best = -2; continue; }
      long len = hi[j] - lo[j];
      if (len < bl) { bl = len; best = j; }
    }
    if (best == -1) {
      for (auto &r : s.eq) { long v = r[s.nv]; for (int j = 0; j < s.nv; j++) v += r[j] * lo[j]; if (v != 0) return true; }
      for (auto &r : s.ineq) { long v = r[s.nv]; for (int j = 0; j < s.nv; j++) v += r[j] * lo[j]; if (v < 0) return true; }
      return cb(lo);
    }
    if (best == -2) throw Unbounded();
    long a = lo[best], b = hi[best];
    for (long v = a; v <= b; v++) {
      Vec l2 = lo, h2 = hi;
      l2[best] = h2[best] = v;
      if (!go(std::move(l2), std::move(h2))) return false;
    }
    return true;
  }
};

bool enumerate(const Sys &s, const std::vector<char> &isfixed, const Vec &vals,
               const std::function<bool(const Vec &)> &cb) {
  Vec lo(s.nv, NINF), hi(s.nv, PINF);
  for (int j = 0; j < s.nv; j++)
    if (j < (int)isfixed.size() && isfixed[j]) lo[j] = hi[j] = vals[j];
  Search se{s, cb};
  return se.go(lo, hi);
}
bool enumerate_box(const Sys &s, const Vec &lo, const Vec &hi, const std::function<bool(const Vec &)> &cb) {
  Search se{s, cb};
  return se.go(lo, hi);
}

static Vec row_of(isl_mat *m, int r, int n) {
  Vec v(n);
  for (int j = 0; j < n; j++) {
    isl_val *x = isl_mat_get_element_val(m, r, j);
    v[j] = isl_val_get_num_si(x);
    isl_val_free(x);
  }
  return v;
}
static isl_stat add_bmap(isl_basic_map *b, void *u) {
  Rel *r = (Rel *)u;
  BasicRel p;
  p.npar = isl_basic_map_dim(b, isl_dim_param);
  p.nin = isl_basic_map_dim(b, isl_dim_in);
  p.nout = isl_basic_map_dim(b, isl_dim_out);
  p.ndiv = isl_basic_map_dim(b, isl_dim_div);
  p.sys.nv = p.npar + p.nin + p.nout + p.ndiv;
  isl_mat *e = isl_basic_map_equalities_matrix(b, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_div, isl_dim_cst);
  isl_mat *i = isl_basic_map_inequalities_matrix(b, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_div, isl_dim_cst);
  for (int k = 0; k < isl_mat_rows(e); k++) p.sys.eq.push_back(row_of(e, k, p.sys.nv + 1));
  for (int k = 0; k < isl_mat_rows(i); k++) p.sys.ineq.push_back(row_of(i, k, p.sys.nv + 1));
  isl_mat_free(e);
  isl_mat_free(i);
  // known divs: d = floor(e/m) => 0 <= e - m d <= m-1
  isl_local_space *ls = isl_basic_map_get_local_space(b);
  for (int d = 0; d < p.ndiv; d++) {
    isl_aff *a = isl_local_space_get_div(ls, d);
    if (!a) continue;
    bool known = isl_aff_is_nan(a) == isl_bool_false;
    isl_val *den = isl_aff_get_denominator_val(a);
    long m = isl_val_get_num_si(den);
    isl_val_free(den);
    if (known && m > 0) {
      Vec row(p.sys.nv + 1, 0);
      auto co = [&](isl_dim_type t, int pos) {
        isl_val *v = isl_aff_get_coefficient_val(a, t, pos);
        v = isl_val_mul_ui(v, m);
        long x = isl_val_get_num_si(v);
        isl_val_free(v);
        return x;
      };
      for (int j = 0; j < p.npar; j++) row[j] = co(isl_dim_param, j);
      // a wrapped local space: in+out appear as isl_dim_in
      int nset = isl_aff_dim(a, isl_dim_in);
      for (int j = 0; j < nset && j < p.nin + p.nout; j++) row[p.npar + j] = co(isl_dim_in, j);
      for (int j = 0; j < p.ndiv && j < isl_aff_dim(a, isl_dim_div); j++) row[p.npar + p.nin + p.nout + j] = co(isl_dim_div, j);
      isl_val *cv = isl_val_mul_ui(isl_aff_get_constant_val(a), m);
      row[p.sys.nv] = isl_val_get_num_si(cv);
      isl_val_free(cv);
      int dc = p.npar + p.nin + p.nout + d;
      if (nset == p.nin + p.nout && row[dc] == 0) {
        Vec lo = row, hi = row;
        lo[dc] -= m;
        p.sys.ineq.push_back(lo);
        for (auto &x : hi) x = -x;
        hi[dc] += m;
        hi[p.sys.nv] += m - 1;
        p.sys.ineq.push_back(hi);
      }
    }
    isl_aff_free(a);
  }
  isl_local_space_free(ls);
  r->parts.push_back(std::move(p));
  isl_basic_map_free(b);
  return isl_stat_ok;
}
Rel rel_from_map(isl_map *m) {
  Rel r;
  r.npar = isl_map_dim(m, isl_dim_param);
  r.nin = isl_map_dim(m, isl_dim_in);
  r.nout = isl_map_dim(m, isl_dim_out);
  if (isl_map_has_tuple_name(m, isl_dim_in)) r.in = isl_map_get_tuple_name(m, isl_dim_in);
  if (isl_map_has_tuple_name(m, isl_dim_out)) r.out = isl_map_get_tuple_name(m, isl_dim_out);
  isl_map_foreach_basic_map(m, add_bmap, &r);
  return r;
}
Rel rel_from_set(isl_set *s) {
  isl_map *m = isl_map_from_range(isl_set_copy(s));
  Rel r = rel_from_map(m);
  isl_map_free(m);
  return r;
}
static isl_stat add_map(isl_map *m, void *u) {
  ((std::vector<Rel> *)u)->push_back(rel_from_map(m));
  isl_map_free(m);
  return isl_stat_ok;
}
static isl_stat add_set(isl_set *s, void *u) {
  ((std::vector<Rel> *)u)->push_back(rel_from_set(s));
  isl_set_free(s);
  return isl_stat_ok;
}
std::vector<Rel> rels_from_umap(isl_union_map *m) {
  std::vector<Rel> v;
  isl_union_map_foreach_map(m, add_map, &v);
  return v;
}
std::vector<Rel> rels_from_uset(isl_union_set *m) {
  std::vector<Rel> v;
  isl_union_set_foreach_set(m, add_set, &v);
  return v;
}
std::vector<std::pair<Vec, Vec>> points(const Rel &r, const Vec &par) {
  std::set<std::pair<Vec, Vec>> out;
  for (auto &p : r.parts) {
    std::vector<char> f(p.sys.nv, 0);
    Vec v(p.sys.nv, 0);
    for (int j = 0; j < p.npar; j++) { f[j] = 1; v[j] = par[j]; }
    enumerate(p.sys, f, v, [&](const Vec &x) {
      out.insert({Vec(x.begin() + p.npar, x.begin() + p.npar + p.nin),
                  Vec(x.begin() + p.npar + p.nin, x.begin() + p.npar + p.nin + p.nout)});
      return true;
    });
  }
  return {out.begin(), out.end()};
}
std::vector<Vec> image(const Rel &r, const Vec &par, const Vec &in, size_t limit) {
  std::set<Vec> out;
  for (auto &p : r.parts) {
    std::vector<char> f(p.sys.nv, 0);
    Vec v(p.sys.nv, 0);
    for (int j = 0; j < p.npar; j++) { f[j] = 1; v[j] = par[j]; }
    for (int j = 0; j < p.nin; j++) { f[p.npar + j] = 1; v[p.npar + j] = in[j]; }
    enumerate(p.sys, f, v, [&](const Vec &x) {
      out.insert(Vec(x.begin() + p.npar + p.nin, x.begin() + p.npar + p.nin + p.nout));
      return out.size() < limit;
    });
    if (out.size() >= limit) break;
  }
  return {out.begin(), out.end()};
}
std::string show(const Vec &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
int lexcmp(const Vec &a, const Vec &b) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
    if (a[i] < b[i]) return -1;
    if (a[i] > b[i]) return 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
} // namespace poly
