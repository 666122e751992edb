// The arithmetic helpers by themselves. One of them per compilation (H_...), so that the others stand when one is gone.
#include <cstdint>
#include "grisu_exact.h"
namespace d = jkj::grisu_exact_detail;
#ifdef H_UMUL128
extern "C" void mul(std::uint64_t x, std::uint64_t y, std::uint64_t* o) { auto r = d::umul128(x, y); o[0] = r.high(); o[1] = r.low(); }
#endif
#ifdef H_UMUL128_UPPER64
extern "C" void mul(std::uint64_t x, std::uint64_t y, std::uint64_t* o) { o[0] = d::umul128_upper64(x, y); }
#endif
#ifdef H_UMUL192_UPPER64
extern "C" void mul(std::uint64_t x, std::uint64_t yh, std::uint64_t yl, std::uint64_t* o) { o[0] = d::umul192_upper64(x, d::uint128{ yh, yl }); }
#endif
#ifdef H_UMUL96_UPPER32
extern "C" void mul(std::uint32_t x, std::uint64_t y, std::uint64_t* o) { o[0] = d::umul96_upper32(x, y); }
#endif
#ifdef H_DIV2
extern "C" void dv_d(std::uint64_t x, int e, std::uint64_t* o) { o[0] = d::divisible_by_power_of_2(x, e) ? 1 : 0; }
extern "C" void dv_f(std::uint32_t x, int e, std::uint64_t* o) { o[0] = d::divisible_by_power_of_2(x, e) ? 1 : 0; }
#endif
#ifdef H_DIV5
extern "C" void dv_d(std::uint64_t x, int e, std::uint64_t* o) { o[0] = d::divisible_by_power_of_5(x, (unsigned)e) ? 1 : 0; }
extern "C" void dv_f(std::uint32_t x, int e, std::uint64_t* o) { o[0] = d::divisible_by_power_of_5(x, (unsigned)e) ? 1 : 0; }
#endif
#ifdef H_LOG10_POW2
extern "C" void lg(int e, std::int32_t* o) { o[0] = d::floor_log10_pow2(e); }
#endif
#ifdef H_LOG2_POW10
extern "C" void lg(int e, std::int32_t* o) { o[0] = d::floor_log2_pow10(e); }
#endif
#ifdef H_LOG5_POW2
extern "C" void lg(int e, std::int32_t* o) { o[0] = d::floor_log5_pow2(e); }
#endif
#ifdef H_CACHE
extern "C" void ca_f(int k, std::uint64_t* o) { o[0] = d::get_cache<float>(k); }
extern "C" void ca_d(int k, std::uint64_t* o) { auto const& c = d::get_cache<double>(k); o[0] = c.high(); o[1] = c.low(); }
extern "C" int kmin_f() { return d::common_info<float>::min_k; }
extern "C" int kmax_f() { return d::common_info<float>::max_k; }
extern "C" int kmin_d() { return d::common_info<double>::min_k; }
extern "C" int kmax_d() { return d::common_info<double>::max_k; }
#endif
