// Entry points of the text output. FPTC_GCC_BRANCH selects the branch that GCC builds use: the standard headers come first,
// so that only the library sees the change.
#include <algorithm>
#include <bitset>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <utility>
#include <string>
#include <array>
#ifdef FPTC_GCC_BRANCH
#undef __clang__
#endif
#include "fp_to_chars/fp_to_chars.cpp"

template <class F, class U>
static inline F val(U bits) { F x; std::memcpy(&x, &bits, sizeof(x)); return x; }
#ifdef MODE
#define ARGS , jkj::grisu_exact_rounding_modes::MODE{}, jkj::grisu_exact_correct_rounding::CRS{}
#else
#define ARGS
#endif
extern "C" char* tz_d(std::uint64_t bits, char* buffer) { return jkj::fp_to_chars(val<double>(bits), buffer ARGS); }
extern "C" char* tz_f(std::uint32_t bits, char* buffer) { return jkj::fp_to_chars(val<float>(bits), buffer ARGS); }
extern "C" char* tn_d(std::uint64_t bits, char* buffer) { return jkj::fp_to_chars_n(val<double>(bits), buffer ARGS); }
extern "C" char* tn_f(std::uint32_t bits, char* buffer) { return jkj::fp_to_chars_n(val<float>(bits), buffer ARGS); }
