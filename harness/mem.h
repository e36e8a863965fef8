// Accounting of all heap memory of the process (the libraries' included).
#pragma once
#include <cstddef>
#include <string>
namespace mem {
bool accounting();                          // false in the build with AddressSanitizer, which has its own allocator
void start(unsigned char fill, bool trace); // count blocks from here on; fresh memory is filled
struct Left { size_t blocks = 0, bytes = 0; std::string where; };
Left stop(); // blocks allocated since start() and still live
} // namespace mem
