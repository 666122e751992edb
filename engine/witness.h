// Concrete members of a box.
#pragma once
#include "dom.h"
struct Witness {
	const Box& b; std::vector<Z> out; size_t want; int budget = 400; bool cut = false;
	Z cm, cr, nlo, len; // n = first + cm*i
	Witness(const Box& bx, size_t w) : b(bx), want(w) {}
	bool okExcl(const Z& n) { for (auto& e : b.excl) if (fmod_(n - e.second, e.first) == 0) return false; return true; }
	void run() {
		nlo = b.v[0].first; Z nhi = b.v[0].second; if (nlo > nhi) return;
		nlo += fmod_(b.cr - nlo, b.cm); if (nlo > nhi) return; len = (nhi - nlo) / b.cm + 1;
		if (!b.hasBase) { cut = len > 64; for (int k = 0; k < 64 && out.size() < want; k++) { Z i = k < 8 ? Z(k) : Z(len * k / 64); if (i < len) { Z n = nlo + i * b.cm; if (okExcl(n)) out.push_back(n); } } return; }
		// zeta = (a i + c)/den
		Q s = b.S * Q(b.cm), c = b.S * Q(nlo) + b.O; Z den = s.get_den(); { Z g = zgcd(den, c.get_den()); den = den / g * c.get_den(); }
		Q sa = s * Q(den), ca = c * Q(den);
		// few members of the fractional interval: enumerate them
		{
			Z lo, hi; Dom::zLattice(b, den, lo, hi); if (lo > hi) return;
			Z cnt = mod_count(len, den, sa.get_num(), ca.get_num(), lo, hi);
			if (cnt == 0) return;
			if (cnt <= 64) { Z from = 0; while (out.size() < want) { Z i = mod_first(from, len, den, sa.get_num(), ca.get_num(), lo, hi); if (i < 0) return; Z n = nlo + i * b.cm; if (okExcl(n) && Dom::member(b, n)) out.push_back(n); from = i + 1; } return; }
		}
		Z M = den; for (auto& x : b.d) if (!x.top()) M *= x.radix;
		int top = (int)b.d.size() - 2;
		rec(top, 0, sa.get_num(), ca.get_num(), den, M);
		// the low digits by themselves may exclude each other: then the box is empty whatever the higher ones are
		if (out.empty() && cut) { Z Mk = den; for (int k = 0; k < top; k++) { Mk *= b.d[k].radix; int left = 60; if (!low(k, 0, sa.get_num(), ca.get_num(), den, Mk, left)) { cut = false; return; } } }
	}
	// false: no member has digits up to idx as the box wants them
	bool low(int idx, const Z& acc, const Z& a, const Z& c, const Z& den, const Z& M, int& left) {
		if (left-- <= 0) return true;
		if (idx < 0) {
			Z lo = acc * den + qceil(b.zlo * Q(den)), hi = acc * den + qfloor(b.zhi * Q(den));
			if (b.zlo_open && Q(lo) == (Q(acc) + b.zlo) * Q(den)) lo += 1; if (b.zhi_open && Q(hi) == (Q(acc) + b.zhi) * Q(den)) hi -= 1;
			if (hi > acc * den + den - 1) hi = acc * den + den - 1;
			return lo <= hi && mod_count(len, M, a, c, lo, hi) != 0;
		}
		Z p = 1; for (int i = 0; i < idx; i++) p *= b.d[i].radix;
		const Dig& x = b.d[idx]; Z from = x.lo, hi = (acc + (x.hi + 1) * p) * den - 1;
		while (from <= x.hi) {
			Z l = (acc + from * p) * den;
			if (mod_count(len, M, a, c, l, hi) == 0) return false;
			Z dl = from, dh = x.hi;
			while (dl < dh) { Z mid = (dl + dh) / 2; if (mod_count(len, M, a, c, l, (acc + (mid + 1) * p) * den - 1) > 0) dh = mid; else dl = mid + 1; }
			if (low(idx - 1, acc + dl * p, a, c, den, M, left)) return true;
			from = dl + 1;
		}
		return false;
	}
	// digits above idx fixed, giving the partial value acc (of floor zeta mod M/den)
	void rec(int idx, const Z& acc, const Z& a, const Z& c, const Z& den, const Z& M) {
		if (budget-- <= 0) { cut = true; return; } if (out.size() >= want) return;
		if (idx < 0) {
			Z lo = acc * den + qceil(b.zlo * Q(den)), hi = acc * den + qfloor(b.zhi * Q(den));
			if (b.zlo_open && Q(lo) == (Q(acc) + b.zlo) * Q(den)) lo += 1; if (b.zhi_open && Q(hi) == (Q(acc) + b.zhi) * Q(den)) hi -= 1;
			if (hi > acc * den + den - 1) hi = acc * den + den - 1;
			if (lo > hi) return;
			Z from = 0;
			for (int k = 0; k < 4 && out.size() < want; k++) { Z i = mod_first(from, len, M, a, c, lo, hi); if (i < 0) return; Z n = nlo + i * b.cm; if (okExcl(n)) { out.push_back(n); } else k--; from = i + 1; if (budget-- <= 0) { cut = true; return; } }
			return;
		}
		Z p = 1; for (int i = 0; i < idx; i++) p *= b.d[i].radix;
		const Dig& x = b.d[idx];
		// lower digits all free? then one query for the whole digit range
		bool free_ = b.zlo == 0 && !b.zlo_open && b.zhi == 1; for (int i = 0; i < idx; i++) free_ &= b.d[i].lo == 0 && b.d[i].hi == b.d[i].radix - 1;
		if (free_) {
			Z lo = (acc + x.lo * p) * den, hi = (acc + (x.hi + 1) * p) * den - 1, from = 0;
			for (int k = 0; k < 4 && out.size() < want; k++) { Z i = mod_first(from, len, M, a, c, lo, hi); if (i < 0) return; Z n = nlo + i * b.cm; if (okExcl(n)) out.push_back(n); else k--; from = i + 1; if (budget-- <= 0) { cut = true; return; } }
			return;
		}
		Z lo = (acc + x.lo * p) * den, hi = (acc + (x.hi + 1) * p) * den - 1;
		// walk over the digit values that occur
		Z from = x.lo;
		while (from <= x.hi && out.size() < want) {
			if (budget <= 0) { cut = true; return; }
			Z l = (acc + from * p) * den;
			// binary search for the first digit value >= from with a member
			if (mod_count(len, M, a, c, l, hi) == 0) return;
			Z dl = from, dh = x.hi;
			while (dl < dh) { Z mid = (dl + dh) / 2; if (mod_count(len, M, a, c, l, (acc + (mid + 1) * p) * den - 1) > 0) dh = mid; else dl = mid + 1; }
			rec(idx - 1, acc + dl * p, a, c, den, M);
			from = dl + 1;
		}
	}
};
