/* Stand-ins for what this sandbox lacks: piplib's exact integer solver and
 * three functions of pluto's isl fork, written with upstream isl. They are not
 * part of the code under test. */
#include <stdlib.h>
#include <stdint.h>
#include <isl/aff.h>
#include <isl/map.h>
#include <isl/set.h>
#include <isl/point.h>
#include <isl/mat.h>
#include <isl/space.h>
#include <isl/val.h>
#include "constraints.h"
#include "pluto/pluto.h"

isl_bool isl_map_dim_is_single_valued(isl_map *map, unsigned pos) {
  isl_map *m = isl_map_copy(map);
  unsigned n = isl_map_dim(m, isl_dim_out);
  m = isl_map_project_out(m, isl_dim_out, pos + 1, n - pos - 1);
  m = isl_map_project_out(m, isl_dim_out, 0, pos);
  isl_bool r = isl_map_is_single_valued(m);
  isl_map_free(m);
  return r;
}

isl_pw_aff *isl_pw_aff_from_map_dim(isl_map *map, int pos) {
  isl_map *m = isl_map_copy(map);
  unsigned n = isl_map_dim(m, isl_dim_out);
  m = isl_map_project_out(m, isl_dim_out, pos + 1, n - pos - 1);
  m = isl_map_project_out(m, isl_dim_out, 0, pos);
  m = isl_map_reset_tuple_id(m, isl_dim_out);
  isl_pw_multi_aff *pma = isl_pw_multi_aff_from_map(m);
  isl_pw_aff *pa = isl_pw_multi_aff_get_pw_aff(pma, 0);
  isl_pw_multi_aff_free(pma);
  return pa;
}

isl_basic_map *isl_basic_map_range_factor_domain(isl_basic_map *bmap) {
  isl_map *m = isl_map_range_factor_domain(isl_map_from_basic_map(bmap));
  isl_basic_map_list *l = isl_map_get_basic_map_list(m);
  isl_basic_map *r = isl_basic_map_list_get_basic_map(l, 0);
  isl_basic_map_list_free(l);
  isl_map_free(m);
  return r;
}

/* Exact integer lexmin (unknowns non-negative unless negvar), as piplib. */
int64_t *pluto_constraints_lexmin_pip(const PlutoConstraints *cst, int negvar) {
  isl_ctx *ctx = isl_ctx_alloc();
  unsigned nv = cst->ncols - 1, neq = 0, e = 0, f = 0;
  for (unsigned r = 0; r < cst->nrows; r++)
    neq += cst->is_eq[r] != 0;
  isl_mat *eq = isl_mat_alloc(ctx, neq, nv + 1);
  isl_mat *ineq = isl_mat_alloc(ctx, cst->nrows - neq, nv + 1);
  for (unsigned r = 0; r < cst->nrows; r++) {
    isl_mat **m = cst->is_eq[r] ? &eq : &ineq;
    unsigned row = cst->is_eq[r] ? e++ : f++;
    for (unsigned c = 0; c <= nv; c++)
      *m = isl_mat_set_element_val(*m, row, c,
                                   isl_val_int_from_si(ctx, cst->val[r][c]));
  }
  isl_set *set = isl_set_from_basic_set(isl_basic_set_from_constraint_matrices(
      isl_space_set_alloc(ctx, 0, nv), eq, ineq, isl_dim_set, isl_dim_div,
      isl_dim_param, isl_dim_cst));
  int n = isl_set_dim(set, isl_dim_set);
  int64_t *sol = NULL;
  if (!negvar)
    for (int i = 0; i < n; i++)
      set = isl_set_lower_bound_si(set, isl_dim_set, i, 0);
  if (isl_set_is_empty(set) == isl_bool_false) {
    if (!negvar || isl_set_is_bounded(set) == isl_bool_true)
      set = isl_set_lexmin(set);
    isl_point *p = isl_set_sample_point(set);
    sol = (int64_t *)malloc((n ? n : 1) * sizeof(int64_t));
    for (int i = 0; i < n; i++) {
      isl_val *v = isl_point_get_coordinate_val(p, isl_dim_set, i);
      sol[i] = isl_val_get_num_si(v);
      isl_val_free(v);
    }
    isl_point_free(p);
  } else
    isl_set_free(set);
  isl_ctx_free(ctx);
  return sol;
}
