// Families of input programs and option configurations.
#pragma once
#include "poly.h"
#include "pluto/pluto.h"
#include <string>
#include <vector>

struct Prog {
  std::string id;
  std::string params;              // "[N]", "[N,M]" or "[]"
  std::vector<std::string> doms;   // "S_0[i,j] : 0 <= i < N"
  std::vector<std::string> deps;   // "S_0[i,j] -> S_0[i+1,j]"; intersected with domains
  std::vector<poly::Vec> pvals;    // parameter valuations to enumerate
  // access programs (C05): schedule and accesses
  std::vector<std::string> sched, reads, writes;
  bool mixed_dims() const;
  bool feasible = true; // a legal schedule certainly exists (original order)
};

struct Conf {
  std::string id;
  std::vector<std::pair<std::string, long>> set; // option name -> value
  std::string tile_sizes;                        // contents of tile.sizes ("" = no file)
  std::string fst, precut;                       // contents of .fst / .precut
  long get(const std::string &k, long d) const {
    for (auto &p : set) if (p.first == k) d = p.second; // the last one counts
    return d;
  }
};

// Library defaults plus these options.
void apply(const Conf &c, PlutoOptions *o);
std::string show(const Conf &c);
std::string domains_str(const Prog &p);
std::string deps_str(const Prog &p);
std::string umap_str(const Prog &p, const std::vector<std::string> &v);

// Concrete instances at one parameter valuation.
struct Conc {
  poly::Vec par;
  std::vector<std::vector<poly::Vec>> inst;        // per statement
  std::vector<std::map<poly::Vec, int>> index;     // per statement
  struct D { int ss, si, ds, di; };
  std::vector<D> deps;
};
struct Inputs { // parsed program
  isl_union_set *dom = nullptr;
  isl_union_map *dep = nullptr;
  std::vector<std::string> pnames;
  std::vector<Conc> conc;
  int nstmts = 0;
  long ndep_inst = 0, ninst = 0;
};
// Parse and enumerate (deps intersected with domains, empty maps dropped).
Inputs load(isl_ctx *ctx, const Prog &p);
void unload(Inputs &in);
int stmt_no(const std::string &tuple);

// Families (depth: 0 small, 1 quick, 2 thorough).
void fam_nested3(std::vector<Prog> &v, int depth);
void fam_chains(std::vector<Prog> &v, int depth);
void fam_big(std::vector<Prog> &v, int depth);
void fam_uniform(std::vector<Prog> &v, int depth);
void fam_nonuniform(std::vector<Prog> &v, int depth);
void fam_multi(std::vector<Prog> &v, int depth);
void fam_triples(std::vector<Prog> &v, int depth);
void fam_shapes(std::vector<Prog> &v, int depth);
void fam_infeasible(std::vector<Prog> &v, int depth);
void fam_optimal(std::vector<Prog> &v, int depth);
void fam_access(std::vector<Prog> &v, int depth);
std::vector<Conf> confs_access(int depth); // option sets for programs given by accesses
std::vector<Conf> configs(int depth);
