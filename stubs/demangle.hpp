#ifndef VERIF_STUB_DEMANGLE
#define VERIF_STUB_DEMANGLE 1
#include <cxxabi.h>
#include <cstdlib>
#include <string>
namespace raft {
inline std::string demangle(const char *n) {
    int st = 0;
    char *p = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r(st == 0 && p ? p : n);
    std::free(p);
    return r;
}
}
#endif
