// What the converter must deliver, evaluated on an abstract leaf.
#pragma once
#include "interp.h"

enum Mode { NTE, NTO, NTPI, NTMI, NTZ, NAZ, NTE_SB, NTO_SB, NTPI_SB, NTMI_SB, TPI, TMI, TZ, AZ };
static const char* modeNames[] = { "nearest_to_even", "nearest_to_odd", "nearest_toward_plus_infinity", "nearest_toward_minus_infinity", "nearest_toward_zero", "nearest_away_from_zero", "nearest_to_even_static_boundary", "nearest_to_odd_static_boundary", "nearest_toward_plus_infinity_static_boundary", "nearest_toward_minus_infinity_static_boundary", "toward_plus_infinity", "toward_minus_infinity", "toward_zero", "away_from_zero" };
enum Crs { DNC, EVEN, ODD, UP, DOWN };
static const char* crsNames[] = { "do_not_care", "tie_to_even", "tie_to_odd", "tie_to_up", "tie_to_down" };
static Mode plainMode(Mode m) { switch (m) { case NTE_SB: return NTE; case NTO_SB: return NTO; case NTPI_SB: return NTPI; case NTMI_SB: return NTMI; default: return m; } }

struct Fmt { int p, w, bias, emax; }; // significand bits, total bits, bias, largest biased exponent of a finite number
static const Fmt F32{ 23, 32, 127, 254 }, F64{ 52, 64, 1023, 2046 };

// a set of inputs: one biased exponent, mantissa field n in [nlo,nhi] and a multiple of step, sign s in [slo,shi]
struct Part { const Fmt* f; int E; Z nlo, nhi; int slo, shi; Z step = 1; };

struct Finding { std::string rule, what; };

struct ConvSpec {
	Dom& D; const Fmt& F; int E; Mode mode; Crs crs; bool isSigned;
	// true: point analysis with a fixed n
	bool point = false; Z n0; int s0 = 0;
	Box* b = nullptr;
	const Form* sig = nullptr; long ex = 0; const Form* sgnF = nullptr; // sign of the input as a form

	Z h() const { return E >= 1 ? pow2(F.p) : Z(0); }
	long q() const { return E >= 1 ? long(E) - F.bias - F.p : 1l - F.bias - F.p; }

	int sign() { // of the input
		if (point) return s0;
		if (sgnF->isConst()) return (int)sgnF->c.get_si();
		return D.decEQ(sgnF, *b) ? 0 : 1;
	}
	bool even() { if (point) return fmod_(n0, 2) == 0; Dom::Cls c{ 2, 2, 0 }; return D.decClass(*b, c); }
	// sign of  (kf*sig + c)*10^e10 - (m' + t)*2^q
	int cmpTo(const Form* f, const Q& k, const Q& add, long e10, const Q& t) {
		if (point) { Q v = (k * Q(f->c) + add) * pow25(e10 - q(), e10) - Q(n0 + h()) - t; return sgn(v); }
		if (b->v[0].first == b->v[0].second) { Z val; Q v; val = evalAt(f, b->v[0].first); v = (k * Q(val) + add) * pow25(e10 - q(), e10) - Q(b->v[0].first + h()) - t; return sgn(v); }
		if (!b->hasBase) { // let the form set the base
			LinDTry(f);
		}
		if (!b->hasBase) throw Undecided{ "no base" };
		// (k f + add) 10^e10 2^-q - n - h - t  >= 0   times S:  mu f - (zeta + t')
		Q T = pow25(e10 - q(), e10); Q mu = k * T * b->S; Q tp = b->S * (Q(h()) + t - add * T) - b->O;
		return D.signVsZeta(f, mu, tp, *b);
	}
	void LinDTry(const Form* f) { D.toDigits(f, *b); }
	Z evalAt(const Form* f, const Z& n) {
		Z r = f->c;
		for (auto& x : f->m) { Term& t = D.terms[x.t]; if (t.isVar) { if (t.var == 0) r += x.c * n; else { if (b->v[t.var].first != b->v[t.var].second) D.splitOther(*b, t.var); r += x.c * b->v[t.var].first; } } else r += x.c * fdiv(evalAt(t.p, n), t.D); }
		return r;
	}
	bool edge() const { return false; }
	// interval of the mode: offsets and closedness
	void interval(Q& dl, Q& dr, bool& lc, bool& rc, int& kind) { // kind 0 nearest, 1 left-closed, 2 right-closed
		Mode m = plainMode(mode); bool n0edge = E > 1 && (point ? n0 == 0 : (b->v[0].second == 0));
		kind = 0; lc = rc = false;
		switch (m) {
		case NTE: lc = rc = even(); break; case NTO: lc = rc = !even(); break;
		case NTPI: if (sign()) rc = true; else lc = true; break;
		case NTMI: if (sign()) lc = true; else rc = true; break;
		case NTZ: rc = true; break; case NAZ: lc = true; break;
		case TPI: kind = sign() ? 1 : 2; break; case TMI: kind = sign() ? 2 : 1; break;
		case TZ: kind = 1; break; case AZ: kind = 2; break; default: break;
		}
		if (kind == 0) { dl = n0edge ? Q(1, 4) : Q(1, 2); dr = Q(1, 2); }
		else if (kind == 1) { dl = 0; dr = 1; lc = true; rc = false; }
		else { dl = n0edge ? Q(1, 2) : Q(1); dr = 0; lc = false; rc = true; }
	}
	bool inI(int l, int r, bool lc, bool rc) { return (l > 0 || (l == 0 && lc)) && (r < 0 || (r == 0 && rc)); }
	typedef std::function<void(const char*, const std::function<bool(std::string&)>&)> Run;
	// each obligation: rule name and a predicate
	void check(const Run& run) {
		// the obligations may split the box; a split restarts the whole leaf
		run("interval", [&](std::string& w) {
			if (point ? sgn(sig->c) <= 0 : D.decLE(sig, *b)) { w = "the significand is not positive"; return false; }
			Q dl, dr; bool lc, rc; int kind; interval(dl, dr, lc, rc, kind);
			int l = cmpTo(sig, 1, 0, ex, -dl); if (!(l > 0 || (l == 0 && lc))) { w = l == 0 ? "the output equals the excluded lower endpoint of the rounding interval" : "the output is below the rounding interval"; return false; }
			int r = cmpTo(sig, 1, 0, ex, dr); if (!(r < 0 || (r == 0 && rc))) { w = r == 0 ? "the output equals the excluded upper endpoint of the rounding interval" : "the output is above the rounding interval"; return false; }
			return true;
		});
		run("shortest", [&](std::string& w) {
			Q dl, dr; bool lc, rc; int kind; interval(dl, dr, lc, rc, kind);
			const Form* g = D.floorDiv(sig, 10); const Form* rem = D.lin(sig, 1, g, -10, 0);
			if (point ? sgn(rem->c) == 0 : D.decEQ(rem, *b)) { w = "the significand ends in a zero digit"; return false; }
			int l = cmpTo(g, 10, 0, ex, -dl); if (l > 0 || (l == 0 && lc)) { w = "a shorter decimal (below the output) lies in the rounding interval"; return false; }
			int r = cmpTo(g, 10, 10, ex, dr); if (r < 0 || (r == 0 && rc)) { w = "a shorter decimal (above the output) lies in the rounding interval"; return false; }
			return true;
		});
		if (crs != DNC) run("closest", [&](std::string& w) {
			Q dl, dr; bool lc, rc; int kind; interval(dl, dr, lc, rc, kind);
			if (kind == 1) { int l = cmpTo(sig, 1, -1, ex, 0); if (l >= 0) { w = "a smaller decimal of the same length is not below the value"; return false; } return true; }
			if (kind == 2) { int r = cmpTo(sig, 1, 1, ex, 0); if (r <= 0) { w = "a larger decimal of the same length does not exceed the value"; return false; } return true; }
			int up = cmpTo(sig, 1, Q(1, 2), ex, 0); // midpoint to the next one, against the value
			bool hiIn = false; if (up <= 0) { int r = cmpTo(sig, 1, 1, ex, dr); hiIn = r < 0 || (r == 0 && rc); }
			if (up < 0 && hiIn) { w = "the next larger decimal of the same length is closer"; return false; }
			if (up == 0 && hiIn) { // tie between sig and sig+1
				bool ok = crs == UP ? false : crs == DOWN ? true : (parity() == (crs == ODD));
				if (!ok) { w = "the tie is resolved against the requested rule (the larger candidate was required)"; return false; }
			}
			int dn = cmpTo(sig, 1, Q(-1, 2), ex, 0);
			bool loIn = false; if (dn >= 0) { int l = cmpTo(sig, 1, -1, ex, -dl); loIn = l > 0 || (l == 0 && lc); }
			if (dn > 0 && loIn) { w = "the next smaller decimal of the same length is closer"; return false; }
			if (dn == 0 && loIn) {
				bool ok = crs == UP ? true : crs == DOWN ? false : (parity() == (crs == ODD));
				if (!ok) { w = "the tie is resolved against the requested rule (the smaller candidate was required)"; return false; }
			}
			return true;
		});
	}
	bool parity() { // is sig odd
		const Form* g = D.floorDiv(sig, 2); const Form* r = D.lin(sig, 1, g, -2, 0);
		return !(point ? sgn(r->c) == 0 : D.decEQ(r, *b));
	}
};
