// The text of an arbitrary decimal, through the public interface: a rounding mode of our own that returns the given decimal.
#include <algorithm>
#include <bitset>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <utility>
#include <string>
#include <array>
#ifdef FPTC_GCC_BRANCH
#undef __clang__
#endif
#include "fp_to_chars/fp_to_chars.cpp"

template <class UInt>
struct given {
	UInt significand; std::int32_t exponent;
	template <bool return_sign, class Float, class CorrectRoundingSearch>
	auto delegate(jkj::bit_representation_t<Float>, CorrectRoundingSearch&&) const {
		jkj::fp_t<Float, return_sign> r{};
		r.significand = significand;
		r.exponent = exponent;
		return r;
	}
};
template <class F, class U>
static inline F val(U bits) { F x; std::memcpy(&x, &bits, sizeof(x)); return x; }
extern "C" char* gz_d(std::uint64_t bits, std::uint64_t s, std::int32_t e, char* buffer) { return jkj::fp_to_chars(val<double>(bits), buffer, given<std::uint64_t>{ s, e }); }
extern "C" char* gz_f(std::uint32_t bits, std::uint32_t s, std::int32_t e, char* buffer) { return jkj::fp_to_chars(val<float>(bits), buffer, given<std::uint32_t>{ s, e }); }
extern "C" char* gn_d(std::uint64_t bits, std::uint64_t s, std::int32_t e, char* buffer) { return jkj::fp_to_chars_n(val<double>(bits), buffer, given<std::uint64_t>{ s, e }); }
extern "C" char* gn_f(std::uint32_t bits, std::uint32_t s, std::int32_t e, char* buffer) { return jkj::fp_to_chars_n(val<float>(bits), buffer, given<std::uint32_t>{ s, e }); }
