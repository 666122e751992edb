// Two runs of the public interface on related inputs or policies, side by side; the analysis shows that the two
// halves of out are equal. MODE and MODE2 are rounding modes.
#include <cstdint>
#include <cstring>
#include "grisu_exact.h"
#include "fp_to_chars.h"

namespace rm = jkj::grisu_exact_rounding_modes;
namespace cr = jkj::grisu_exact_correct_rounding;
namespace ch = jkj::grisu_exact_case_handlers;

template <class F, class U>
static inline F val(U bits) { F x; std::memcpy(&x, &bits, sizeof(x)); return x; }
template <class V>
static inline void put(std::uint64_t* o, V const& v) { o[0] = v.significand; o[1] = (std::uint32_t)v.exponent; }
template <class F> static constexpr int top = sizeof(F) * 8 - 1;

#ifdef MODE
#ifdef MODE2
// with the sign, without it, and the negated input in the mirrored mode MODE2
template <class C, class F, class U>
static inline void sg(U bits, std::uint64_t* o) {
	auto a = jkj::grisu_exact<true>(val<F>(bits), rm::MODE{}, C{});
	auto u = jkj::grisu_exact<false>(val<F>(bits), rm::MODE{}, C{});
	auto m = jkj::grisu_exact<true>(val<F>((U)(bits ^ (U(1) << top<F>))), rm::MODE2{}, C{});
	std::uint64_t s = bits >> top<F>;
	put(o, a); put(o + 2, a); o[4] = a.is_negative ? 1 : 0; o[5] = m.is_negative ? 1 : 0;
	put(o + 6, u); put(o + 8, m); o[10] = s; o[11] = s ^ 1;
}
#endif
#ifdef MODE2
// x in MODE against x in MODE2
template <class C, class F, class U>
static inline void mm(U bits, std::uint64_t* o) {
	auto a = jkj::grisu_exact<true>(val<F>(bits), rm::MODE{}, C{});
	auto b = jkj::grisu_exact<true>(val<F>(bits), rm::MODE2{}, C{});
	put(o, a); o[2] = a.is_negative ? 1 : 0;
	put(o + 3, b); o[5] = b.is_negative ? 1 : 0;
}
#endif
// the asserting handler against the ignoring one
template <class C, class F, class U>
static inline void hi(U bits, std::uint64_t* o) {
	auto a = jkj::grisu_exact<true>(val<F>(bits), rm::MODE{}, C{});
	auto b = jkj::grisu_exact<true>(val<F>(bits), rm::MODE{}, C{}, ch::ignore_special_cases{});
	put(o, a); o[2] = a.is_negative ? 1 : 0;
	put(o + 3, b); o[5] = b.is_negative ? 1 : 0;
}
// a handler of the user: called once, with the representation, before the rounding mode
template <class F, class U>
struct recorder2 {
	std::uint64_t* seen; std::uint64_t* calls;
	void operator()(jkj::bit_representation_t<F> br) const { F y = br.as_ieee754(); U b; std::memcpy(&b, &y, sizeof(y)); *seen = b; ++*calls; }
};
template <class F, class U>
struct later {
	std::uint64_t* calls; std::uint64_t* before;
	template <bool S, class Float, class C>
	auto delegate(jkj::bit_representation_t<Float> br, C&& c) const { *before = *calls; return rm::MODE{}.template delegate<S>(br, static_cast<C&&>(c)); }
};
template <class F, class U>
static inline void hu(U bits, std::uint64_t* o) {
	auto a = jkj::grisu_exact<true>(val<F>(bits), rm::MODE{}, cr::tie_to_even{});
	put(o, a); o[2] = a.is_negative ? 1 : 0; o[3] = bits; o[4] = 1; o[5] = 1;
	o[9] = 0; o[10] = 0; o[11] = 0;
	auto b = jkj::grisu_exact<true>(val<F>(bits), later<F, U>{ o + 10, o + 11 }, cr::tie_to_even{}, recorder2<F, U>{ o + 9, o + 10 });
	put(o + 6, b); o[8] = b.is_negative ? 1 : 0;
}
#define BOTH(n, C) extern "C" void n##_d_##C(std::uint64_t b, std::uint64_t* o) { n<cr::C, double>(b, o); } extern "C" void n##_f_##C(std::uint32_t b, std::uint64_t* o) { n<cr::C, float>(b, o); }
#define ALL(n) BOTH(n, do_not_care) BOTH(n, tie_to_even) BOTH(n, tie_to_odd) BOTH(n, tie_to_up) BOTH(n, tie_to_down)
#ifdef P_HI
ALL(hi)
#endif
#ifdef P_HU
extern "C" void hu_d(std::uint64_t b, std::uint64_t* o) { hu<double>(b, o); }
extern "C" void hu_f(std::uint32_t b, std::uint64_t* o) { hu<float>(b, o); }
#endif
#ifdef MODE2
#ifdef P_SG
ALL(sg)
#endif
#ifdef P_MM
ALL(mm)
#endif
#endif
#endif

#ifdef HANDLERS
// the handlers by themselves: 1 when they return
template <class H, class F, class U>
static inline void hd(U bits, std::uint64_t* o) { o[0] = 0; o[1] = 1; H h{}; h(jkj::get_bit_representation(val<F>(bits))); o[0] = 1; }
extern "C" void hi_d(std::uint64_t b, std::uint64_t* o) { hd<ch::ignore_special_cases, double>(b, o); }
extern "C" void hi_f(std::uint32_t b, std::uint64_t* o) { hd<ch::ignore_special_cases, float>(b, o); }
extern "C" void ha_d(std::uint64_t b, std::uint64_t* o) { hd<ch::assert_finite, double>(b, o); }
extern "C" void ha_f(std::uint32_t b, std::uint64_t* o) { hd<ch::assert_finite, float>(b, o); }
#endif

#ifdef DEFAULTS
template <class F, class U, class A, class B>
static inline void two(std::uint64_t* o, A const& a, B const& b) {
	put(o, a); o[2] = a.is_negative ? 1 : 0;
	put(o + 3, b); o[5] = b.is_negative ? 1 : 0;
}
#define DF(n, EXPR) template <class F, class U> static inline void n##_(U bits, std::uint64_t* o) { F x = val<F>(bits); auto a = jkj::grisu_exact<true>(x, rm::nearest_to_even{}, cr::tie_to_even{}, ch::assert_finite{}); auto b = EXPR; two<F, U>(o, a, b); } \
	extern "C" void n##_d(std::uint64_t b, std::uint64_t* o) { n##_<double>(b, o); } extern "C" void n##_f(std::uint32_t b, std::uint64_t* o) { n##_<float>(b, o); }
DF(df0, jkj::grisu_exact(x))
DF(df1, jkj::grisu_exact<true>(x))
DF(df2, jkj::grisu_exact(x, rm::nearest_to_even{}))
DF(df3, jkj::grisu_exact(x, rm::nearest_to_even{}, cr::tie_to_even{}))
// a policy given without the ones behind it, as object and as variable
template <class M, class F, class U>
static inline void pm_(U bits, std::uint64_t* o) { F x = val<F>(bits); M m; cr::tie_to_even const c{}; auto a = jkj::grisu_exact(x, m, c); auto b = jkj::grisu_exact(x, M{}); two<F, U>(o, a, b); }
extern "C" void pm_d(std::uint64_t b, std::uint64_t* o) { pm_<rm::toward_zero, double>(b, o); }
extern "C" void pm_f(std::uint32_t b, std::uint64_t* o) { pm_<rm::toward_zero, float>(b, o); }
extern "C" void pn_d(std::uint64_t b, std::uint64_t* o) { pm_<rm::nearest_to_odd, double>(b, o); }
extern "C" void pn_f(std::uint32_t b, std::uint64_t* o) { pm_<rm::nearest_to_odd, float>(b, o); }
#endif

#ifdef STUB
// in place of the conversion: what happens before it
template <class U>
struct stub {
	std::uint64_t* calls; std::uint64_t* before; std::uint64_t* seen;
	template <bool S, class Float, class C>
	jkj::fp_t<Float, S> delegate(jkj::bit_representation_t<Float> br, C&&) const {
		F_bits(br); *before = *calls;
		jkj::fp_t<Float, S> r{}; r.significand = 7; r.exponent = 3; if constexpr (S) r.is_negative = true; return r;
	}
	template <class Float> void F_bits(jkj::bit_representation_t<Float> br) const { Float y = br.as_ieee754(); U b; std::memcpy(&b, &y, sizeof(y)); *seen = b; }
};
template <class F, class U>
struct rec3 {
	std::uint64_t* seen; std::uint64_t* calls;
	void operator()(jkj::bit_representation_t<F> br) const { F y = br.as_ieee754(); U b; std::memcpy(&b, &y, sizeof(y)); *seen = b; ++*calls; }
};
// a handler which keeps its record in the caller's object
template <class F, class U>
struct keeper {
	std::uint64_t seen = 0, calls = 0;
	void operator()(jkj::bit_representation_t<F> br) { F y = br.as_ieee754(); U b; std::memcpy(&b, &y, sizeof(y)); seen = b; ++calls; }
};
template <bool S, class C, class F, class U>
static inline void su(U bits, std::uint64_t* o) {
	o[0] = bits; o[1] = 1; o[2] = 1; o[3] = bits; o[4] = 7; o[5] = 3; o[6] = 0; o[7] = 0; o[8] = 0; o[9] = 0;
	auto r = jkj::grisu_exact<S>(val<F>(bits), stub<U>{ o + 7, o + 8, o + 9 }, C{}, rec3<F, U>{ o + 6, o + 7 });
	o[10] = r.significand; o[11] = (std::uint32_t)r.exponent;
}
template <bool S, class C, class F, class U>
static inline void sk(U bits, std::uint64_t* o) {
	o[0] = bits; o[1] = 1; o[2] = 1; o[3] = bits; o[4] = 7; o[5] = 3; o[8] = 0; o[9] = 0;
	keeper<F, U> h;
	auto r = jkj::grisu_exact<S>(val<F>(bits), stub<U>{ &h.calls, o + 8, o + 9 }, C{}, h);
	o[6] = h.seen; o[7] = h.calls;
	o[10] = r.significand; o[11] = (std::uint32_t)r.exponent;
}
template <bool S, class C, class F, class U>
static inline void sf(U bits, std::uint64_t* sig, std::int32_t* exp, std::uint8_t* neg) {
	std::uint64_t c = 0, b = 0, s = 0;
	auto r = jkj::grisu_exact<S>(val<F>(bits), stub<U>{ &c, &b, &s }, C{});
	*sig = r.significand; *exp = r.exponent; *neg = 0;
}
template <bool S, class C, class F, class U, class... H>
static inline void sr(U bits, std::uint64_t* o, H&&... h) {
	std::uint64_t c = 0, b = 0, s = 0; o[0] = 0; o[1] = 1;
	(void)jkj::grisu_exact<S>(val<F>(bits), stub<U>{ &c, &b, &s }, C{}, static_cast<H&&>(h)...);
	o[0] = 1;
}
#ifdef KEEPER
#define SB(S, n, C) \
	extern "C" void sk##n##_d_##C(std::uint64_t b, std::uint64_t* o) { sk<S, cr::C, double>(b, o); } extern "C" void sk##n##_f_##C(std::uint32_t b, std::uint64_t* o) { sk<S, cr::C, float>(b, o); }
#else
#define SB(S, n, C) \
	extern "C" void su##n##_d_##C(std::uint64_t b, std::uint64_t* o) { su<S, cr::C, double>(b, o); } extern "C" void su##n##_f_##C(std::uint32_t b, std::uint64_t* o) { su<S, cr::C, float>(b, o); } \
	extern "C" void sf##n##_d_##C(std::uint64_t b, std::uint64_t* s, std::int32_t* e, std::uint8_t* g) { sf<S, cr::C, double>(b, s, e, g); } extern "C" void sf##n##_f_##C(std::uint32_t b, std::uint64_t* s, std::int32_t* e, std::uint8_t* g) { sf<S, cr::C, float>(b, s, e, g); } \
	extern "C" void sd##n##_d_##C(std::uint64_t b, std::uint64_t* o) { sr<S, cr::C, double>(b, o); } extern "C" void sd##n##_f_##C(std::uint32_t b, std::uint64_t* o) { sr<S, cr::C, float>(b, o); } \
	extern "C" void si##n##_d_##C(std::uint64_t b, std::uint64_t* o) { sr<S, cr::C, double>(b, o, ch::ignore_special_cases{}); } extern "C" void si##n##_f_##C(std::uint32_t b, std::uint64_t* o) { sr<S, cr::C, float>(b, o, ch::ignore_special_cases{}); }
#endif
SB(true, s, tie_to_even) SB(false, u, tie_to_even) SB(true, s, do_not_care) SB(false, u, tie_to_down)
#endif
