// The inspectors of the bit representation.
#include <cstdint>
#include <cstring>
#include "grisu_exact.h"

template <class F, class U>
static inline void inspect(U bits, std::uint64_t* out) {
	F x;
	std::memcpy(&x, &bits, sizeof(x));
	auto br = jkj::get_bit_representation(x);
	out[0] = br.is_finite() ? 1 : 0;
	out[1] = br.is_nonzero() ? 1 : 0;
	out[2] = br.is_subnormal() ? 1 : 0;
	out[3] = br.is_negative() ? 1 : 0;
	out[4] = br.is_positive() ? 1 : 0;
	out[5] = br.is_positive_infinity() ? 1 : 0;
	out[6] = br.is_negative_infinity() ? 1 : 0;
	out[7] = br.is_infinity() ? 1 : 0;
	out[8] = br.is_nan() ? 1 : 0;
	out[9] = br.is_quiet_nan() ? 1 : 0;
	out[10] = br.is_signaling_nan() ? 1 : 0;
	out[11] = br.extract_significand_bits();
	out[12] = br.extract_exponent_bits();
	F y = br.as_ieee754();
	U back;
	std::memcpy(&back, &y, sizeof(y));
	out[13] = back;
	out[14] = br.get_nan_payload().to_ullong();
}
extern "C" void bi_d(std::uint64_t bits, std::uint64_t* out) { inspect<double>(bits, out); }
extern "C" void bi_f(std::uint32_t bits, std::uint64_t* out) { inspect<float>(bits, out); }
