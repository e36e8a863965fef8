// Checks of internal operations: named groups of exhaustively enumerated inputs.
#pragma once
#include "mc.h"
#include "poly.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>
struct Groups {
  std::vector<std::pair<std::string, std::function<void()>>> g;
  void add(const std::string &id, std::function<void()> f) { g.push_back({id, f}); }
};
mc::Check make_groups(std::shared_ptr<Groups> g, const std::string &bounds);
// All vectors of length n over vals; the callback returns false to stop.
bool product(const poly::Vec &vals, int n, const std::function<bool(const poly::Vec &)> &cb);
// Exact rational linear algebra by minors / Bareiss on 128-bit integers.
typedef std::vector<poly::Vec> Mat;
int true_rank(const Mat &m);
std::string show(const Mat &m);

mc::Check make_c08(const std::string &tier);
mc::Check make_c09(const std::string &tier);
mc::Check make_c10(const std::string &tier);
mc::Check make_c11(const std::string &tier);
mc::Check make_c12(const std::string &tier);
mc::Check make_c16(const std::string &tier);
mc::Check make_c17(const std::string &tier);
mc::Check make_c19(const std::string &tier);
