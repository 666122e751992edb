// Exact arithmetic helpers (GMP).
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <string>
#include <vector>
#include <stdexcept>
#include <cmath>
typedef mpz_class Z;
typedef mpq_class Q;

static inline Z fdiv(const Z& a, const Z& b) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static inline Z cdiv(const Z& a, const Z& b) { Z r; mpz_cdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static inline Z fmod_(const Z& a, const Z& b) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static inline Z zgcd(const Z& a, const Z& b) { Z r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static inline bool divides(const Z& d, const Z& a) { return mpz_divisible_p(a.get_mpz_t(), d.get_mpz_t()) != 0; }
static inline Z pow2(unsigned long k) { Z r = 1; r <<= k; return r; }
static inline Z zpow(unsigned long b, unsigned long k) { Z r; mpz_ui_pow_ui(r.get_mpz_t(), b, k); return r; }
static inline Z qfloor(const Q& q) { return fdiv(q.get_num(), q.get_den()); }
static inline Z qceil(const Q& q) { return cdiv(q.get_num(), q.get_den()); }
static inline Q mkq(const Z& a, const Z& b) { Q q(a, b); q.canonicalize(); return q; }
// 2^i * 5^j
static inline Q pow25(long i, long j) {
	Z n = 1, d = 1;
	if (i >= 0) n <<= i; else d <<= -i;
	if (j >= 0) n *= zpow(5, j); else d *= zpow(5, -j);
	Q q; q.get_num() = n; q.get_den() = d; q.canonicalize(); return q;
}
// log2 of a positive integer, error ~1e-12
static inline double zlog2(const Z& a) {
	long e; double m = mpz_get_d_2exp(&e, a.get_mpz_t()); return double(e) + std::log2(m);
}
// sum_{i=0}^{n-1} floor((a*i+b)/m), m>0
static inline Z floor_sum(Z n, Z m, Z a, Z b) {
	Z ans = 0;
	if (n <= 0) return ans;
	if (a < 0) { Z a2 = fmod_(a, m); Z q = (a2 - a) / m; ans -= n * (n - 1) / 2 * q; a = a2; }
	if (b < 0) { Z b2 = fmod_(b, m); ans -= n * ((b2 - b) / m); b = b2; }
	int sgn = 1; (void)sgn;
	while (true) {
		if (a >= m) { Z q = a / m; ans += n * (n - 1) / 2 * q; a -= q * m; }
		if (b >= m) { Z q = b / m; ans += n * q; b -= q * m; }
		Z ymax = a * n + b;
		if (ymax < m) break;
		n = ymax / m; b = ymax - n * m;
		std::swap(m, a);
	}
	return ans;
}
// number of i in [0,n) with lo <= (a*i+b) mod m <= hi  (0<=lo<=hi<m)
static inline Z mod_count(const Z& n, const Z& m, const Z& a, const Z& b, const Z& lo, const Z& hi) {
	// [x mod m <= hi] = floor(x/m) - floor((x-hi-1)/m)
	Z c1 = floor_sum(n, m, a, b - lo);          // floor((x-lo)/m)
	Z c2 = floor_sum(n, m, a, b - hi - 1);      // floor((x-hi-1)/m)
	return c1 - c2;
}
// smallest i in [from,n) with (a*i+b) mod m in [lo,hi], or -1
static inline Z mod_first(const Z& from, const Z& n, const Z& m, const Z& a, const Z& b, const Z& lo, const Z& hi) {
	if (from >= n) return -1;
	Z b2 = b + a * from, len = n - from;
	if (mod_count(len, m, a, b2, lo, hi) == 0) return -1;
	Z l = 1, h = len; // smallest prefix length with count>0
	// gallop first
	Z g = 1;
	while (g < len && mod_count(g, m, a, b2, lo, hi) == 0) { l = g + 1; g *= 2; }
	if (g < h) h = g;
	while (l < h) { Z mid = (l + h) / 2; if (mod_count(mid, m, a, b2, lo, hi) > 0) h = mid; else l = mid + 1; }
	return from + l - 1;
}
static inline Z modinv(const Z& a, const Z& m) {
	if (m == 1) return 0;
	Z r; if (!mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t())) throw std::runtime_error("modinv"); return r;
}
// combine n = r1 mod m1, n = r2 mod m2; false if empty
static inline bool crt(const Z& m1, const Z& r1, const Z& m2, const Z& r2, Z& m, Z& r) {
	Z g = zgcd(m1, m2);
	if (!divides(g, r1 - r2)) return false;
	Z l = m1 / g * m2;
	Z t = fmod_((r2 - r1) / g * (m2 / g == 1 ? Z(0) : modinv(fmod_(m1 / g, m2 / g), m2 / g)), m2 / g);
	r = fmod_(r1 + m1 * t, l); m = l; return true;
}
