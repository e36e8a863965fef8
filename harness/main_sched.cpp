#include "sched.h"
int main(int argc, char **argv) {
  return mc::run_main(argc, argv, [](const std::string &p, const std::string &tier) {
    if (p == "C01") return make_c01(tier);
    if (p == "C02") return make_c02(tier);
    if (p == "C03") return make_c03(tier);
    if (p == "C04") return make_c04(tier);
    if (p == "C07") return make_c07(tier);
    if (p == "C05") return make_c05(tier);
    if (p == "C06") return make_c06(tier);
    if (p == "C09") return make_c09s(tier);
    if (p == "C13") return make_c13(tier);
    if (p == "C15") return make_c15(tier);
    if (p == "C16") return make_c16s(tier);
    if (p == "C17") return make_c17s(tier);
    if (p == "C18") return make_c18(tier);
    fprintf(stderr, "unknown property\n");
    exit(2);
  });
}
