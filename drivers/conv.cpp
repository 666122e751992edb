// Entry points of the converter, one per rounding mode (MODE, given on the command line), tie rule, format and
// result flavour. Only the public interface is named here.
#include <cstdint>
#include <cstring>
#include "grisu_exact.h"

template <bool S, class F, class U, class C>
static inline void cv(U bits, std::uint64_t* sig, std::int32_t* exp, std::uint8_t* neg) {
	F x;
	std::memcpy(&x, &bits, sizeof(x));
	auto v = jkj::grisu_exact<S>(x, jkj::grisu_exact_rounding_modes::MODE{}, C{});
	*sig = v.significand;
	*exp = v.exponent;
	if constexpr (S) *neg = v.is_negative ? 1 : 0; else *neg = 2;
}
#define W(name, S, F, U, C) extern "C" void name(U bits, std::uint64_t* sig, std::int32_t* exp, std::uint8_t* neg) { cv<S, F, U, jkj::grisu_exact_correct_rounding::C>(bits, sig, exp, neg); }
#define ALL(C) W(cv_d_s_##C, true, double, std::uint64_t, C) W(cv_d_u_##C, false, double, std::uint64_t, C) W(cv_f_s_##C, true, float, std::uint32_t, C) W(cv_f_u_##C, false, float, std::uint32_t, C)
ALL(do_not_care) ALL(tie_to_even) ALL(tie_to_odd) ALL(tie_to_up) ALL(tie_to_down)
