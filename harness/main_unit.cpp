#include "unit.h"
int main(int argc, char **argv) {
  return mc::run_main(argc, argv, [](const std::string &p, const std::string &tier) {
    if (p == "C08") return make_c08(tier);
    if (p == "C09") return make_c09(tier);
    if (p == "C10") return make_c10(tier);
    if (p == "C11") return make_c11(tier);
    if (p == "C12") return make_c12(tier);
    if (p == "C17") return make_c17(tier);
    if (p == "C16") return make_c16(tier);
    if (p == "C19") return make_c19(tier);
    fprintf(stderr, "unknown property\n");
    exit(2);
  });
}
