// The abstract domain.
//
// A value is an exact integer-linear form over variables and floor terms floor(p/D), p itself a form.
// A state is restricted by a Box: an interval per variable, a residue class of the main variable n, and a
// mixed-radix digit box for one designated affine real function  zeta(n) = S*n + O  of n ("base"):
// floor(zeta) is the sum of its digits, each in an interval, and frac(zeta) lies in an interval.
// A comparison that the box does not decide raises Split with boxes that cover the current one.
#pragma once
#include "num.h"
#include <deque>
#include <unordered_map>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <optional>
#include <cstring>

struct Form;
struct Mono { int t; Z c; };
struct Relax { std::vector<std::pair<int, Q>> l; Q a, z; }; // every floor replaced by its argument: affine bounds
struct Form {
	std::shared_ptr<Relax> rx; long sgen = -1; const Form* sres = nullptr;
	std::vector<Mono> m; Z c; Z lo, hi; bool relaxed = false; size_t h = 0; int id = 0;
	bool isConst() const { return m.empty(); }
};
struct RootMatch {
	bool done = false, ok = false; Z nlo, nhi, cm = 1, cr = 0; long i = 0, j = 0; Q off; std::vector<Z> bad; std::string why;
};
struct Term {
	bool isVar = false; int var = 0; const Form* p = nullptr; Z D; Z lo, hi;
	int root = -1; Z rc, rQ; // value = floor((root + rc)/rQ) when root >= 0
	long mgen = -1; Z mlo, mhi; // memo of the range in the current intervals
	bool merged = false;     // p has been obtained by swallowing another floor term
	std::vector<std::shared_ptr<RootMatch>> okm; std::map<std::tuple<Z, Z, Z, Z>, std::shared_ptr<RootMatch>> match;
};

struct Dig { Z radix; Z lo, hi; bool top() const { return radix == 0; } };
struct Box {
	std::vector<std::pair<Z, Z>> v; // intervals of the variables; v[0] is n
	Z cm = 1, cr = 0;               // n = cr mod cm
	std::vector<std::pair<Z, Z>> excl;
	bool hasBase = false; long bi = 0, bj = 0; Q S, O;
	std::vector<Dig> d;
	Q zlo = 0, zhi = 1; bool zlo_open = false, zhi_open = true;
	int depth = 0;
	std::string str() const {
		std::string s;
		for (size_t i = 0; i < v.size(); i++) s += "v" + std::to_string(i) + "=[" + v[i].first.get_str() + "," + v[i].second.get_str() + "] ";
		if (cm != 1) s += "n=" + cr.get_str() + " mod " + cm.get_str() + " ";
		for (auto& e : excl) s += "n!=" + e.second.get_str() + " mod " + e.first.get_str() + " ";
		if (hasBase) {
			s += "zeta=2^" + std::to_string(bi) + "*5^" + std::to_string(bj) + "*n+" + O.get_str().substr(0, 40) + " digits";
			for (auto& x : d) s += " (" + x.radix.get_str() + ")[" + x.lo.get_str() + "," + x.hi.get_str() + "]";
			s += std::string(" zf=") + (zlo_open ? "(" : "[") + std::to_string(zlo.get_d()) + "," + std::to_string(zhi.get_d()) + (zhi_open ? ")" : "]");
		}
		return s;
	}
};
struct Split { std::vector<Box> boxes; };
struct Undecided { std::string why; std::vector<Z> cand; };

struct LinD { std::vector<Z> k; Z c; }; // over the digits of the box

struct Dom {
	std::deque<Form> forms; std::deque<Term> terms;
	std::unordered_multimap<size_t, const Form*> ftab;
	std::unordered_multimap<size_t, int> ttab;
	std::vector<std::pair<Z, Z>> vinit;
	std::vector<const Form*> carries;
	std::vector<std::pair<Z, Z>> memoKey; long memoGen = 0;
	struct Stats { long decisions = 0, splits = 0, roots = 0, rootProofs = 0, classes = 0; } st;

	void reset() { forms.clear(); terms.clear(); ftab.clear(); ttab.clear(); vinit.clear(); carries.clear(); clsmemo.clear(); }

	// ---------------------------------------------------------------- forms
	static size_t hz(const Z& z) { size_t h = z.get_mpz_t()->_mp_size * 0x9e3779b97f4a7c15ull; size_t n = mpz_size(z.get_mpz_t()); for (size_t i = 0; i < n; i++) h = (h ^ mpz_getlimbn(z.get_mpz_t(), i)) * 0x100000001b3ull + (h >> 29); return h; }
	const Form* mk(std::vector<Mono>&& m, const Z& c, const Z* hlo = nullptr, const Z* hhi = nullptr) {
		size_t h = hz(c);
		for (auto& x : m) h = h * 1000003 + hz(x.c) + x.t * 7919;
		auto rg = ftab.equal_range(h);
		for (auto it = rg.first; it != rg.second; ++it) {
			const Form* f = it->second;
			if (f->c == c && f->m.size() == m.size()) {
				bool eq = true;
				for (size_t i = 0; i < m.size() && eq; i++) eq = f->m[i].t == m[i].t && f->m[i].c == m[i].c;
				if (eq) { if (hlo) { Form* g = const_cast<Form*>(f); if (*hlo > g->lo) g->lo = *hlo; if (*hhi < g->hi) g->hi = *hhi; } return f; }
			}
		}
		forms.emplace_back(); Form& f = forms.back(); f.m = std::move(m); f.c = c; f.h = h; f.id = (int)forms.size();
		f.lo = f.hi = c;
		for (auto& x : f.m) { const Term& t = terms[x.t]; if (sgn(x.c) > 0) { f.lo += x.c * t.lo; f.hi += x.c * t.hi; } else { f.lo += x.c * t.hi; f.hi += x.c * t.lo; } }
		if (hlo) { if (*hlo > f.lo) f.lo = *hlo; if (*hhi < f.hi) f.hi = *hhi; }
		ftab.emplace(h, &f); return &f;
	}
	const Form* cst(const Z& c) { return mk({}, c); }
	const Form* lin(const Form* a, const Z& ka, const Form* b, const Z& kb, const Z& c) {
		std::vector<Mono> m; m.reserve(a->m.size() + b->m.size());
		size_t i = 0, j = 0;
		while (i < a->m.size() || j < b->m.size()) {
			if (j >= b->m.size() || (i < a->m.size() && a->m[i].t < b->m[j].t)) { if (sgn(ka)) m.push_back({ a->m[i].t, a->m[i].c * ka }); i++; }
			else if (i >= a->m.size() || b->m[j].t < a->m[i].t) { if (sgn(kb)) m.push_back({ b->m[j].t, b->m[j].c * kb }); j++; }
			else { Z k = a->m[i].c * ka + b->m[j].c * kb; if (sgn(k)) m.push_back({ a->m[i].t, k }); i++; j++; }
		}
		return mk(std::move(m), a->c * ka + b->c * kb + c);
	}
	const Form* add(const Form* a, const Form* b) { return lin(a, 1, b, 1, 0); }
	const Form* sub(const Form* a, const Form* b) { return lin(a, 1, b, -1, 0); }
	const Form* addc(const Form* a, const Z& c) { if (!sgn(c)) return a; std::vector<Mono> m = a->m; Z lo = a->lo + c, hi = a->hi + c; return mk(std::move(m), a->c + c, &lo, &hi); }
	const Form* scale(const Form* a, const Z& k) { if (k == 1) return a; if (!sgn(k)) return cst(0); std::vector<Mono> m = a->m; for (auto& x : m) x.c *= k; Z lo = a->lo * k, hi = a->hi * k; if (sgn(k) < 0) std::swap(lo, hi); return mk(std::move(m), a->c * k, &lo, &hi); }
	int var(const Z& lo, const Z& hi) { terms.emplace_back(); Term& t = terms.back(); t.isVar = true; t.var = (int)vinit.size(); t.lo = lo; t.hi = hi; vinit.push_back({ lo, hi }); return (int)terms.size() - 1; }
	const Form* tf(int t) { std::vector<Mono> m{ { t, 1 } }; return mk(std::move(m), 0); }

	// tightened range: every floor term replaced by p/D - eps
	void relaxAcc(const Form* f, const Q& k, std::map<int, Q>& lin_, Q& c, Q& elo, Q& ehi) {
		c += k * f->c;
		for (auto& x : f->m) {
			const Term& t = terms[x.t]; Q kk = k * x.c;
			if (t.isVar) lin_[x.t] += kk;
			else {
				Q e = kk * mkq(t.D - 1, t.D);
				if (sgn(e) > 0) elo -= e; else ehi -= e;
				relaxAcc(t.p, kk / Q(t.D), lin_, c, elo, ehi);
			}
		}
	}
	void relax(const Form* f0) {
		Form* f = const_cast<Form*>(f0);
		if (f->relaxed) return; f->relaxed = true;
		if (f->m.empty()) return;
		Z lo, hi; relaxRange(f, nullptr, lo, hi);
		if (lo > f->lo) f->lo = lo;
		if (hi < f->hi) f->hi = hi;
	}
	void relaxRange(const Form* f, const Box* b, Z& lo, Z& hi) {
		if (!f->rx) {
			auto r = std::make_shared<Relax>(); std::map<int, Q> l; r->a = 0; Q elo = 0, ehi = 0;
			relaxAcc(f, 1, l, r->a, elo, ehi); r->z = r->a + ehi; r->a += elo;
			for (auto& x : l) if (sgn(x.second)) r->l.push_back({ terms[x.first].var, x.second });
			const_cast<Form*>(f)->rx = r;
		}
		Q a = f->rx->a, z = f->rx->z;
		for (auto& x : f->rx->l) {
			int v = x.first; const Z& vl = b ? b->v[v].first : vinit[v].first; const Z& vh = b ? b->v[v].second : vinit[v].second;
			if (sgn(x.second) > 0) { a += x.second * vl; z += x.second * vh; } else { a += x.second * vh; z += x.second * vl; }
		}
		lo = qceil(a); hi = qfloor(z);
	}

	// n next to a quotient of a proper multiple of n
	bool mixed(const Form* f) {
		bool v = false, q = false;
		for (auto& x : f->m) { const Term& t = terms[x.t]; if (t.isVar) v = true; else { bool light = true; for (auto& y : t.p->m) light &= terms[y.t].isVar && y.c == 1; q |= !light; } }
		return v && q;
	}
	// floor(f / D)
	const Form* floorDiv(const Form* f, Z D) {
		if (D == 1) return f;
		if (f->m.empty()) return cst(fdiv(f->c, D));
		// pull out exact multiples
		std::vector<Mono> out, rest;
		for (auto& x : f->m) { if (divides(D, x.c)) out.push_back({ x.t, x.c / D }); else rest.push_back(x); }
		if (rest.empty()) return mk(std::move(out), fdiv(f->c, D));
		Z g = D; for (auto& x : rest) g = zgcd(g, x.c);
		Z c = f->c;
		if (g != 1) { for (auto& x : rest) x.c /= g; D /= g; c = fdiv(c, g); }
		const Form* o = out.empty() ? cst(0) : mk(std::move(out), 0);
		const Form* r = mk(std::move(rest), c);
		if (D == 1) return add(o, r);
		Z ql = fdiv(r->lo, D), qh = fdiv(r->hi, D);
		if (ql == qh) return addc(o, ql);
		if (!r->relaxed && (r->m.size() > 1)) { relax(r); ql = fdiv(r->lo, D); qh = fdiv(r->hi, D); if (ql == qh) return addc(o, ql); }
		// merge a floor term of coefficient one
		for (auto& x : r->m) {
			if (terms[x.t].isVar || x.c != 1) continue;
			int ti = x.t; Z D1 = terms[ti].D; const Form* p1 = terms[ti].p;
			const Form* X = sub(r, tf(ti));
			const Form* np = lin(X, D1, p1, 1, 0);
			if (!X->isConst() && mixed(np)) continue;
			const Form* res = floorDivRep(np, D1 * D, X->isConst() ? ti : -1, X->c, D);
			return add(o, res);
		}
		// floor((R + k F)/D) with R affine and g = gcd(k, D) > 1:  floor((floor(R/g) + (k/g) F)/(D/g))
		{
			std::vector<Mono> rv, rf; Z g2 = D; for (auto& x : r->m) { if (terms[x.t].isVar) rv.push_back(x); else { rf.push_back(x); g2 = zgcd(g2, x.c); } }
			if (rv.size() == 1 && rf.size() == 1 && g2 > 1 && pureN(rf[0].t) && terms[rf[0].t].D == -rf[0].c && terms[rf[0].t].p->m[0].c == rv[0].c) { // X mod D' over D
				const Form* q = floorDiv(mk(std::move(rv), r->c), g2);
				for (auto& x : rf) x.c /= g2;
				return add(o, mkFloor(add(q, mk(std::move(rf), 0)), D / g2, -1, 0, 0));
			}
		}
		return add(o, mkFloor(r, D, -1, 0, 0));
	}
	const Form* floorDivRep(const Form* f, const Z& D, int inner, const Z& X, const Z& Dq) {
		// as floorDiv, remembering that the result is floor((inner + X)/Dq)
		if (inner < 0) return floorDiv(f, D);
		std::vector<Mono> rest = f->m; Z g = D; for (auto& x : rest) g = zgcd(g, x.c);
		// keep it simple: only when the result is a plain term
		for (auto& x : f->m) if (divides(D, x.c)) return floorDiv(f, D);
		Z DD = D / g; Z c = fdiv(f->c, g); for (auto& x : rest) x.c /= g;
		const Form* r = mk(std::move(rest), c);
		if (DD == 1) return r;
		Z ql = fdiv(r->lo, DD), qh = fdiv(r->hi, DD);
		if (ql == qh) return cst(ql);
		for (auto& x : r->m) if (!terms[x.t].isVar && x.c == 1) return floorDiv(r, DD);
		const Term& ti = terms[inner];
		if (ti.root >= 0) return mkFloor(r, DD, ti.root, ti.rc + X * ti.rQ, ti.rQ * Dq);
		return mkFloor(r, DD, inner, X, Dq);
	}
	const Form* mkFloor(const Form* p, const Z& D, int root, const Z& rc, const Z& rQ) {
		size_t h = p->h * 31 + hz(D);
		auto rg = ttab.equal_range(h);
		for (auto it = rg.first; it != rg.second; ++it) { Term& t = terms[it->second]; if (t.p == p && t.D == D) return tf(it->second); }
		terms.emplace_back(); Term& t = terms.back(); int id = (int)terms.size() - 1;
		t.p = p; t.D = D; t.lo = fdiv(p->lo, D); t.hi = fdiv(p->hi, D); t.root = root; t.rc = rc; t.rQ = rQ;
		ttab.emplace(h, id);
		return tf(id);
	}

	// ---------------------------------------------------------------- ranges in a box
	bool narrowed(const Box& b) const { for (size_t i = 0; i < vinit.size(); i++) if (b.v[i] != vinit[i]) return true; return false; }
	void rangeTerm(int ti, const Box& b, Z& lo, Z& hi) {
		const Term& t = terms[ti];
		if (t.isVar) { lo = b.v[t.var].first; hi = b.v[t.var].second; return; }
		if (memoKey != b.v) { memoKey = b.v; memoGen++; }
		if (t.mgen == memoGen) { lo = t.mlo; hi = t.mhi; return; }
		rangeNaive(t.p, b, lo, hi); lo = fdiv(lo, t.D); hi = fdiv(hi, t.D);
		if (t.lo > lo) lo = t.lo; if (t.hi < hi) hi = t.hi;
		Term& w = const_cast<Term&>(t); w.mgen = memoGen; w.mlo = lo; w.mhi = hi;
	}
	void rangeNaive(const Form* f, const Box& b, Z& lo, Z& hi) {
		lo = hi = f->c; Z a, z;
		for (auto& x : f->m) { rangeTerm(x.t, b, a, z); if (sgn(x.c) > 0) { lo += x.c * a; hi += x.c * z; } else { lo += x.c * z; hi += x.c * a; } }
		if (f->lo > lo) lo = f->lo; if (f->hi < hi) hi = f->hi;
	}
	void range(const Form* f, const Box& b, Z& lo, Z& hi) {
		if (f->m.empty()) { lo = hi = f->c; return; }
		if (!narrowed(b)) { lo = f->lo; hi = f->hi; return; }
		rangeNaive(f, b, lo, hi);
	}
	void rangeTight(const Form* f, const Box& b, Z& lo, Z& hi) {
		relax(f);
		range(f, b, lo, hi);
		if (lo != hi && narrowed(b)) { Z l2, h2; relaxRange(f, &b, l2, h2); if (l2 > lo) lo = l2; if (h2 < hi) hi = h2; }
	}
	bool allConst(const Form* f, const Box& b) { for (auto& x : f->m) { const Term& t = terms[x.t]; if (t.isVar ? b.v[t.var].first != b.v[t.var].second : !allConst(t.p, b)) return false; } return true; }
	// the constant value of f in b, if it has one that intervals show
	bool constVal(const Form* f, const Box& b, Z& out) { if (f->m.empty()) { out = f->c; return true; } Z lo, hi; range(f, b, lo, hi); if (lo == hi) { out = lo; return true; } return false; }

	// ---------------------------------------------------------------- box operations; each returns false for the empty box
	Z nCount(const Box& b) { const Z& lo = b.v[0].first; const Z& hi = b.v[0].second; if (lo > hi) return 0; if (b.cm == 1) return hi - lo + 1; Z f = lo + fmod_(b.cr - lo, b.cm); return f > hi ? Z(0) : (hi - f) / b.cm + 1; }
	bool normN(Box& b, bool tighten = true) {
		Z& lo = b.v[0].first; Z& hi = b.v[0].second;
		if (lo > hi) return false;
		if (b.cm != 1) { lo += fmod_(b.cr - lo, b.cm); if (lo > hi) return false; hi -= fmod_(hi - b.cr, b.cm); }
		if (lo == hi) for (auto& e : b.excl) if (fmod_(lo - e.second, e.first) == 0) return false;
		for (size_t q = 0; q < b.excl.size(); q++) {
			auto& e = b.excl[q]; if (divides(e.first, b.cm)) { if (fmod_(b.cr - e.second, e.first) == 0) return false; continue; }
			if (e.first == b.cm * 2 && fmod_(b.cr - e.second, b.cm) == 0) { Z M = e.first, r = fmod_(e.second + b.cm, M); return addClass(b, M, r); }
		}
		if (b.hasBase && lo == hi && !member(b, lo)) return false;
		if (b.hasBase) {
			Q a = b.S * Q(lo) + b.O, z = b.S * Q(hi) + b.O; Z M = 1; for (auto& x : b.d) if (!x.top()) M *= x.radix;
			Z tl = fdiv(qfloor(a), M), th = fdiv(qfloor(z), M); Dig& t = b.d.back();
			if (tl > t.hi || th < t.lo) return false;
			if (tighten) { if (tl > t.lo) t.lo = tl; if (th < t.hi) t.hi = th; if (t.lo > t.hi) return false; }
		}
		return true;
	}
	bool setN(Box& b, const Z& lo, const Z& hi) { if (lo > b.v[0].first) b.v[0].first = lo; if (hi < b.v[0].second) b.v[0].second = hi; return normN(b); }
	bool setDig(Box& b, size_t i, const Z& lo, const Z& hi) { Dig& x = b.d[i]; if (lo > x.lo) x.lo = lo; if (hi < x.hi) x.hi = hi; if (x.lo > x.hi) return false; if (x.top()) { 
			Z M = 1; for (auto& y : b.d) if (!y.top()) M *= y.radix;
			// S>0: n range from floor(zeta) in [lo*M, hi*M+M-1]
			Z nl = qceil((Q(x.lo * M) - b.O) / b.S), nh = qceil((Q(x.hi * M + M) - b.O) / b.S) - 1;
			if (nl > b.v[0].first || nh < b.v[0].second) { if (nl > b.v[0].first) b.v[0].first = nl; if (nh < b.v[0].second) b.v[0].second = nh; return normN(b, false); } // the digit keeps its aligned ends
		} return true; }
	// the multiples of 1/den inside the fractional interval
	static void zLattice(const Box& b, const Z& den, Z& lo, Z& hi) {
		Q l = b.zlo * Q(den), h = b.zhi * Q(den); lo = qceil(l); hi = qfloor(h);
		if (b.zlo_open && Q(lo) == l) lo += 1; if (b.zhi_open && Q(hi) == h) hi -= 1; if (lo < 0) lo = 0; if (hi > den - 1) hi = den - 1;
	}
	static bool member(const Box& b, const Z& n) { // n against digits and fraction
		if (n < b.v[0].first || n > b.v[0].second || fmod_(n - b.cr, b.cm) != 0) return false;
		for (auto& e : b.excl) if (fmod_(n - e.second, e.first) == 0) return false;
		if (!b.hasBase) return true;
		Q y = b.S * Q(n) + b.O; Z f = qfloor(y); Q z = y - Q(f);
		if (z < b.zlo || (z == b.zlo && b.zlo_open) || z > b.zhi || (z == b.zhi && b.zhi_open)) return false;
		for (auto& x : b.d) { Z v = x.top() ? f : fmod_(f, x.radix); if (v < x.lo || v > x.hi) return false; if (!x.top()) f = fdiv(f, x.radix); }
		return true;
	}
	// a narrow fractional interval may have no member at all
	bool zVoid(const Box& b) {
		if (b.zlo == b.zhi) return false;
		{ // frac(zeta) runs through a coset of (g/den)Z
			Q s = b.S * Q(b.cm), c = b.S * Q(b.cr) + b.O; Z den = s.get_den(); { Z g = zgcd(den, c.get_den()); den = den / g * c.get_den(); }
			if (den < 4096) { Q sa = s * Q(den), ca = c * Q(den); Z g = zgcd(sa.get_num(), den), lo, hi; zLattice(b, den, lo, hi); if (lo > hi || lo + fmod_(ca.get_num() - lo, g) > hi) return true; }
		}
		Q wq = b.zhi - b.zlo; double w = wq.get_d();
		Z len = b.v[0].second - b.v[0].first + 1; if (w * len.get_d() > 64) return false;
		if (b.cm != 1) len = nCount(b);
		Q s = b.S * Q(b.cm), c = b.S * Q(b.cm == 1 ? b.v[0].first : Z(b.v[0].first + fmod_(b.cr - b.v[0].first, b.cm))) + b.O;
		Z den = s.get_den(); { Z g = zgcd(den, c.get_den()); den = den / g * c.get_den(); }
		Z lo, hi; zLattice(b, den, lo, hi); if (lo > hi) return true;
		Q sa = s * Q(den), ca = c * Q(den);
		return mod_count(len, den, sa.get_num(), ca.get_num(), lo, hi) == 0;
	}
	bool zEmpty(const Box& b) { return b.zlo > b.zhi || (b.zlo == b.zhi && (b.zlo_open || b.zhi_open)); }
	bool zIn(const Box& b, const Q& z) { if (z < b.zlo || (z == b.zlo && b.zlo_open)) return false; if (z > b.zhi || (z == b.zhi && b.zhi_open)) return false; return true; }
	// the residue class of { n : frac(zeta) == z0 }
	bool pointClass(const Box& b, const Q& z0, Z& M, Z& r) {
		const Z& a = b.S.get_num(); const Z& den = b.S.get_den();
		Q t = (z0 - b.O) * Q(den);
		if (t.get_den() != 1) return false;
		M = den; r = M == 1 ? Z(0) : fmod_(modinv(fmod_(a, den), den) * t.get_num(), den);
		return true;
	}
	bool addClass(Box& b, const Z& M, const Z& r) {
		if (M == 1) return true;
		Z m, x; if (!crt(b.cm, b.cr, M, r, m, x)) return false;
		b.cm = m; b.cr = x;
		if (!normN(b)) return false;
		if (b.hasBase && divides(b.S.get_den(), b.cm)) { Q y = b.S * Q(b.cr) + b.O; Q z = y - Q(qfloor(y)); if (!zIn(b, z)) return false; b.zlo = b.zhi = z; b.zlo_open = b.zhi_open = false; if (!fixDigits(b)) return false; }
		return true;
	}
	bool setPoint(Box& b, const Q& z0) {
		if (!zIn(b, z0)) return false;
		Z M, r; if (!pointClass(b, z0, M, r)) return false;
		b.zlo = b.zhi = z0; b.zlo_open = b.zhi_open = false;
		return addClass(b, M, r);
	}
	bool zBelow(Box& b, const Q& z0, bool strict) { if (z0 < b.zhi) { b.zhi = z0; b.zhi_open = strict; } else if (z0 == b.zhi && strict) b.zhi_open = true; return !zEmpty(b) && !zVoid(b) && pt(b); }
	bool zAbove(Box& b, const Q& z0, bool strict) { if (z0 > b.zlo) { b.zlo = z0; b.zlo_open = strict; } else if (z0 == b.zlo && strict) b.zlo_open = true; return !zEmpty(b) && !zVoid(b) && pt(b); }
	bool pt(Box& b) {
		if (b.zlo != b.zhi) { // a single value left in the coset?
			Q s = b.S * Q(b.cm), c = b.S * Q(b.cr) + b.O; Z den = s.get_den(); { Z g = zgcd(den, c.get_den()); den = den / g * c.get_den(); }
			if (den >= 4096) return true;
			Q sa = s * Q(den), ca = c * Q(den); Z g = zgcd(sa.get_num(), den), lo, hi; zLattice(b, den, lo, hi); lo += fmod_(ca.get_num() - lo, g);
			if (lo > hi) return false; if (lo + g <= hi) return true;
			return setPoint(b, mkq(lo, den));
		}
		Q z = b.zlo; return setPoint(b, z);
	}
	bool exclude(Box& b, const Z& M, const Z& r) {
		for (auto& e : b.excl) if (e.first == M && e.second == r) return true;
		if (M == 1) return false;
		b.excl.push_back({ M, r });
		if (b.hasBase && divides(b.S.get_den(), M) ) {
			// this class is contained in one value of frac(zeta); when it is exactly that point, drop the point
			Q y = b.S * Q(r) + b.O; Q z = y - Q(qfloor(y)); Z pm, pr;
			if (pointClass(b, z, pm, pr) && pm == M) { if (z == b.zlo && !b.zlo_open) { if (!zAbove(b, z, true)) return false; } else if (z == b.zhi && !b.zhi_open) { if (!zBelow(b, z, true)) return false; } }
		}
		return normN(b);
	}
	void setBase(Box& b, long i, long j, const Q& off) {
		b.hasBase = true; b.bi = i; b.bj = j; b.S = pow25(i, j); b.O = b.S * off;
		Z lo = qfloor(b.S * Q(b.v[0].first) + b.O), hi = qfloor(b.S * Q(b.v[0].second) + b.O);
		b.d.clear(); b.d.push_back({ 0, lo, hi }); b.zlo = 0; b.zhi = 1; b.zlo_open = false; b.zhi_open = true;
		if (divides(b.S.get_den(), b.cm)) { Q y = b.S * Q(b.cr) + b.O; b.zlo = b.zhi = y - Q(qfloor(y)); b.zhi_open = false; }
		else {
			Z M, r; // frac == 0 impossible?
			bool zero = pointClass(b, 0, M, r);
			if (zero) { Z m, x; if (!crt(b.cm, b.cr, M, r, m, x)) zero = false; else { Z f = b.v[0].first + fmod_(x - b.v[0].first, m); if (f > b.v[0].second) zero = false; for (auto& e : b.excl) if (divides(e.first, m) && fmod_(x - e.second, e.first) == 0) zero = false; } }
			if (!zero) b.zlo_open = true;
		}
	}
	// when frac(zeta) is one point, floor(zeta) runs through an arithmetic progression: its residues fix low digits
	// residues fix low digits, which are then divided out of the base
	bool fixDigits(Box& b, bool* changed = nullptr) {
		if (!b.hasBase || b.zlo != b.zhi) return true;
		while (!b.d[0].top()) {
			Q A_ = b.S * Q(b.cm); if (A_.get_den() != 1) return true;
			Q y = b.S * Q(b.cr) + b.O; Z B = qfloor(y); Q zf = y - Q(B);
			Dig& x = b.d[0]; Z g = zgcd(A_.get_num(), x.radix);
			if (g != x.radix && x.lo == x.hi) { // A_*t + B = lo mod radix, n = cr + cm*t: a residue class
				Z w = fmod_(x.lo - B, x.radix); if (!divides(g, w)) return false;
				Z r = x.radix / g, t = fmod_(modinv(fmod_(A_.get_num() / g, r), r) * (w / g), r);
				Z cr = b.cr + b.cm * t; b.cm *= r; b.cr = fmod_(cr, b.cm); if (!normN(b)) return false;
				continue;
			}
			if (g == 1) return true;
			Z v = fmod_(B, g), lo = x.lo + fmod_(v - x.lo, g), hi = x.hi - fmod_(x.hi - v, g);
			if (lo > hi) return false;
			Z ql = fdiv(lo, g), qh = fdiv(hi, g);
			if (g == x.radix) b.d.erase(b.d.begin()); else { x.radix /= g; x.lo = ql; x.hi = qh; }
			b.S /= Q(g); b.O = (b.O - Q(v) - zf) / Q(g); b.zlo = b.zhi = 0;
			Z t = g; while (divides(2, t)) { t /= 2; b.bi--; } while (divides(5, t)) { t /= 5; b.bj--; }
			if (changed) *changed = true;
		}
		return true;
	}
	[[noreturn]] void split(std::vector<Box>&& bs) {
		st.splits++;
		for (auto& x : bs) { x.depth++; if (x.depth > 400) throw Undecided{ "split depth" }; }
		throw Split{ std::move(bs) };
	}
	// ---------------------------------------------------------------- digits
	void splitDigit(Box& b, size_t i, const Z& m) {
		Dig x = b.d[i]; Z ql = fdiv(x.lo, m), qh = fdiv(x.hi, m), rl = fmod_(x.lo, m), rh = fmod_(x.hi, m);
		if (ql != qh && (rl != 0 || rh != m - 1)) {
			std::vector<Box> bs; Z from = x.lo, to = x.hi;
			if (rl != 0) { Box c = b; if (setDig(c, i, x.lo, ql * m + m - 1)) bs.push_back(c); from = (ql + 1) * m; }
			if (rh != m - 1) { Box c = b; if (setDig(c, i, qh * m, x.hi)) bs.push_back(c); to = qh * m - 1; }
			if (from <= to) { Box c = b; if (setDig(c, i, from, to)) bs.push_back(c); }
			split(std::move(bs));
		}
		Dig l{ m, 0, m - 1 }, h{ x.top() ? Z(0) : Z(x.radix / m), ql, qh };
		if (ql == qh) { l.lo = rl; l.hi = rh; }
		b.d[i] = l; b.d.insert(b.d.begin() + i + 1, h);
	}
	// before giving up: over a point of frac(zeta) the factors of the progression can be divided out of the base
	[[noreturn]] void radixFail(Box& b) {
		if (b.hasBase && b.zlo == b.zhi) { Box c = b; bool ch = false; if (!fixDigits(c, &ch)) split({}); if (ch) split({ c }); }
		throw Undecided{ "incompatible radix" };
	}
	// make N a partial product of the radices; returns the number of digits below
	size_t refine(Box& b, const Z& N) {
		Z prod = 1;
		for (size_t i = 0;; i++) {
			if (prod == N) return i;
			Z m = N / prod;
			if (!divides(prod, N)) radixFail(b);
			if (b.d[i].top()) { splitDigit(b, i, m); return i + 1; }
			if (b.d[i].radix != m && divides(m, b.d[i].radix)) { splitDigit(b, i, m); return i + 1; }
			if (!divides(b.d[i].radix, m)) { splitLow(b); if (b.d[i + 1].top() && b.d[i].lo == 0 && b.d[i].hi == b.d[i].radix - 1 && b.d[i].radix <= 4096) { mergeDigit(b, i); return refine(b, N); } if (b.d[i].radix <= 64 && (b.d[i + 1].lo == b.d[i + 1].hi || (b.d[i].lo == 0 && b.d[i].hi == b.d[i].radix - 1)) && !b.d[i + 1].top()) { mergeDigit(b, i); return refine(b, N); } radixFail(b); }
			prod *= b.d[i].radix;
		}
	}
	// a low digit with few values, over a point of frac(zeta): each value is a residue class of n
	void splitLow(Box& b) {
		if (b.zlo != b.zhi || b.d[0].top() || b.d[0].hi - b.d[0].lo > 64) return;
		std::vector<Box> bs; for (Z v = b.d[0].lo; v <= b.d[0].hi; v += 1) { Box c = b; if (setDig(c, 0, v, v) && fixDigits(c)) bs.push_back(std::move(c)); }
		if (bs.size() == 1 && bs[0].d.size() == b.d.size() && bs[0].d[0].radix == b.d[0].radix) return;
		split(std::move(bs));
	}
	// join digits i and i+1
	void mergeDigit(Box& b, size_t i) {
		Dig &x = b.d[i], &y = b.d[i + 1];
		if (x.radix > 4096) throw Undecided{ "incompatible radix" };
		bool full = x.lo == 0 && x.hi == x.radix - 1;
		if (!full && y.lo != y.hi) {
			std::vector<Box> bs;
			if (y.hi - y.lo <= 16) for (Z v = y.lo; v <= y.hi; v += 1) { Box c = b; if (setDig(c, i + 1, v, v)) bs.push_back(std::move(c)); }
			else if (x.hi - x.lo <= 16 && y.top()) throw Undecided{ "incompatible radix" };
			else { Z mid = fdiv(y.lo + y.hi, 2); Box c = b; if (setDig(c, i + 1, y.lo, mid)) bs.push_back(std::move(c)); c = b; if (setDig(c, i + 1, mid + 1, y.hi)) bs.push_back(std::move(c)); }
			split(std::move(bs));
		}
		Dig m{ y.top() ? Z(0) : Z(x.radix * y.radix), x.lo + x.radix * y.lo, x.hi + x.radix * y.hi };
		b.d[i] = m; b.d.erase(b.d.begin() + i + 1);
	}
	LinD zero(const Box& b) { LinD l; l.k.assign(b.d.size(), 0); l.c = 0; return l; }
	void upper(const Box& b, size_t idx, const Z& N, LinD& l, const Z& k) { Z p = 1; for (size_t i = 0; i < b.d.size(); i++) { if (i >= idx) l.k[i] += k * (p / N); if (!b.d[i].top()) p *= b.d[i].radix; } }
	void lower(const Box& b, size_t idx, LinD& l, const Z& k) { Z p = 1; for (size_t i = 0; i < idx; i++) { l.k[i] += k * p; p *= b.d[i].radix; } }
	void rangeLin(const Box& b, const LinD& l, Z& lo, Z& hi) { lo = hi = l.c; for (size_t i = 0; i < l.k.size(); i++) { int s = sgn(l.k[i]); if (!s) continue; if (s > 0) { lo += l.k[i] * b.d[i].lo; hi += l.k[i] * b.d[i].hi; } else { lo += l.k[i] * b.d[i].hi; hi += l.k[i] * b.d[i].lo; } } }
	// is l <= 0 ?
	bool linLE(Box& b, const LinD& l) {
		Z lo, hi; rangeLin(b, l, lo, hi);
		if (hi <= 0) return true; if (lo > 0) return false;
		// widest contribution
		int best = -1; Z bw = 0;
		for (size_t i = 0; i < l.k.size(); i++) { Z w = abs(l.k[i]) * (b.d[i].hi - b.d[i].lo); if (w > bw) { bw = w; best = (int)i; } }
		splitLE(b, l, best, lo, hi);
	}
	[[noreturn]] void splitLE(Box& b, const LinD& l, int i, const Z& lo, const Z& hi) {
		const Z& k = l.k[i]; const Dig& x = b.d[i];
		Z rlo = lo - (sgn(k) > 0 ? Z(k * x.lo) : Z(k * x.hi)), rhi = hi - (sgn(k) > 0 ? Z(k * x.hi) : Z(k * x.lo));
		Z a, z; // cut points: [x.lo, a] , [a+1, z-1], [z, x.hi]
		if (sgn(k) > 0) { a = fdiv(-rhi, k); z = fdiv(-rlo, k) + 1; }
		else { Z kk = -k; z = cdiv(rhi, kk); a = cdiv(rlo, kk) - 1; }
		std::vector<Box> bs;
		auto push = [&](const Z& p, const Z& q) { if (p > q) return; Box c = b; if (setDig(c, i, p, q)) bs.push_back(std::move(c)); };
		if (a < x.lo && z > x.hi) { Z mid = fdiv(x.lo + x.hi, 2); push(x.lo, mid); push(mid + 1, x.hi); }
		else { if (a > x.hi) a = x.hi; if (z < x.lo) z = x.lo; push(x.lo, a); push(std::max(Z(a + 1), x.lo), std::min(Z(z - 1), x.hi)); push(z, x.hi); }
		split(std::move(bs));
	}
	bool linEQ(Box& b, const LinD& l) {
		Z lo, hi; rangeLin(b, l, lo, hi);
		if (lo > 0 || hi < 0) return false; if (lo == 0 && hi == 0) return true;
		LinD m = l; m.c += 1; // l <= -1 ?
		if (linLE(b, m)) return false;
		return linLE(b, l);
	}
	// floor of P*zf + T over the box; splits zf when it is not constant
	Z zfFloor(Box& b, const Z& P, const Q& T) {
		Z lo = qfloor(Q(P) * b.zlo + T); if (b.zlo_open && b.zlo != b.zhi) { /* same floor just above unless already integer: floor is right-continuous for P>0 */ }
		Q h = Q(P) * b.zhi + T; Z hi = b.zhi_open ? Z(qceil(h) - 1) : qfloor(h);
		if (lo >= hi) return lo;
		Q bp = (Q(lo + 1) - T) / Q(P);
		std::vector<Box> bs; Box c = b; if (zBelow(c, bp, true)) bs.push_back(std::move(c)); c = b; if (zAbove(c, bp, false)) bs.push_back(std::move(c));
		split(std::move(bs));
	}

	// ---------------------------------------------------------------- roots: floor((A n + B)/D) against 2^i 5^j (n + off)
	RootMatch& matchRoot(int ti, const Box& b, bool byClass = false) {
		Term& t = terms[ti];
		Z nlo = b.v[0].first, nhi = b.v[0].second, cm = 1, cr = 0;
		if (byClass) { cm = b.cm; cr = b.cr; nlo += fmod_(cr - nlo, cm); nhi -= fmod_(nhi - cr, cm); }
		for (size_t q = t.okm.size(); q-- > 0;) { auto& m = t.okm[q]; if (m->nlo <= nlo && nhi <= m->nhi && m->cm == cm && m->cr == cr) return *m; }
		auto& pm = t.match[std::make_tuple(nlo, nhi, cm, cr)]; if (pm) return *pm;
		pm = std::make_shared<RootMatch>(); matchRoot1(t, *pm, nlo, nhi, cm, cr); if (pm->ok) t.okm.push_back(pm); return *pm;
	}
	RootMatch& matchRoot1(Term& t, RootMatch& m, const Z& nlo, const Z& nhi, const Z& cm, const Z& cr) {
		 m.done = true; m.nlo = nlo; m.nhi = nhi; m.cm = cm; m.cr = cr; st.roots++;
		Z A, B = 0, D = 1;
		if (t.isVar) { A = 1; } else { A = t.p->m[0].c; B = t.p->c; D = t.D; }
		if (sgn(A) <= 0) { m.why = "slope"; return m; }
		double l = zlog2(A) - zlog2(D), l5 = std::log2(5.0);
		Q s = mkq(A, D); double bestErr = 1e-6; bool found = false;
		for (long j = -420; j <= 420; j++) {
			double x = l - j * l5; double r = std::nearbyint(x); double e = std::fabs(x - r);
			if (e < 1e-9) {
				Q ex = pow25((long)r, j); Q rel = abs(s / ex - 1); double re = rel.get_d();
				if (re < bestErr) { bestErr = re; m.i = (long)r; m.j = j; found = true; }
			}
		}
		// a random (A,D) matches some j with error around 1e-9..1e-10; require far better
		if (!found || bestErr > 1e-11) { m.why = "no power product matches the slope"; return m; }
		m.off = mkq(qfloor(mkq(B, A) * 8 + Q(1, 2)), 8);
		Q ex = pow25(m.i, m.j), eo = ex * m.off;
		// exact?
		if (s == ex && mkq(B, D) == eo) { m.ok = true; return m; }
		st.rootProofs++;
		// error sign at both ends
		auto err = [&](const Z& n) { Q e = mkq(A * n + B, D) - ex * Q(n) - eo; return sgn(e); };
		int s1 = err(nlo), s2 = err(nhi);
		if (s1 * s2 < 0) { m.why = "error changes sign"; return m; }
		Z ed = ex.get_den(), od = eo.get_den(), L = ed / zgcd(ed, od) * od; Z ea = ex.get_num() * (L / ed), eb = eo.get_num() * (L / od);
		// over n = nlo + cm*i
		Z A1 = A * cm, B1 = A * nlo + B, e1 = ea * cm, f1 = ea * nlo + eb;
		auto diff = [&](const Z& from, const Z& len) -> Z { return floor_sum(len, D, A1, A1 * from + B1) - floor_sum(len, L, e1, e1 * from + f1); };
		Z len = (nhi - nlo) / cm + 1; Z df = diff(0, len);
		if (df == 0) { m.ok = true; return m; }
		// first mismatches, by bisection
		Z from = 0;
		for (int k = 0; k < 6 && from < len; k++) {
			Z rem = len - from; if (diff(from, rem) == 0) break;
			Z lo = 1, hi = rem; while (lo < hi) { Z mid = (lo + hi) / 2; if (diff(from, mid) != 0) hi = mid; else lo = mid + 1; }
			m.bad.push_back(nlo + cm * (from + lo - 1)); from += lo;
		}
		if (from < len && diff(from, len - from) != 0) m.why = "the quotient differs from the exact one at many inputs"; else m.why = "few";
		return m;
	}
	struct Conv { Z P, Qd; Q tau; Z rc, rQ; };
	bool pureN(int ti) { const Term& t = terms[ti]; if (t.isVar) return t.var == 0; return t.p->m.size() == 1 && terms[t.p->m[0].t].isVar && terms[t.p->m[0].t].var == 0; }
	// real value of the root of term ti relative to the base
	Conv convTerm(int ti, Box& b) {
		const Term& t = terms[ti]; int root = ti; Conv c; c.rc = 0; c.rQ = 1;
		if (!t.isVar && t.root >= 0) { root = t.root; c.rc = t.rc; c.rQ = t.rQ; }
		if (!pureN(root)) throw Undecided{ "nested quotient" };
		const Term& r = terms[root];
		Z A = 1, B = 0, D = 1; if (!r.isVar) { A = r.p->m[0].c; B = r.p->c; D = r.D; }
		if (b.hasBase) {
			Q ratio = mkq(A, D) / b.S;
			if (ratio.get_num() <= 64 && sgn(ratio) > 0) { c.P = ratio.get_num(); c.Qd = ratio.get_den(); c.tau = mkq(B, D) - ratio * b.O; return c; }
		}
		RootMatch* mp = &matchRoot(root, b);
		if (!mp->ok && mp->why != "few" && b.cm != 1 && b.cm < 1000000) { RootMatch* m2 = &matchRoot(root, b, true); if (m2->ok || m2->why == "few") mp = m2; }
		RootMatch& m = *mp;
		if (!m.ok) {
			if (m.why == "few") {
				std::vector<Box> bs; Z from = b.v[0].first;
				for (auto& n : m.bad) { Box x = b; if (setN(x, from, n - 1)) bs.push_back(x); x = b; if (setN(x, n, n)) bs.push_back(x); from = n + 1; }
				Box x = b; if (setN(x, from, b.v[0].second)) bs.push_back(x);
				split(std::move(bs));
			}
			if (b.hasBase && b.zlo == b.zhi && sgn(A) > 0) { Q ratio = mkq(A, D) / b.S; c.P = ratio.get_num(); c.Qd = ratio.get_den(); c.tau = mkq(B, D) - ratio * b.O; return c; }
			throw Undecided{ m.why, m.bad };
		}
		Q s = pow25(m.i, m.j);
		if (!b.hasBase) {
			// slope at most one: n itself is the base when the slope is a power of 2
			if (cmp(s, Q(3, 2)) > 0) setBase(b, m.i, m.j, m.off);
			else if (m.j == 0 && m.i >= -8) setBase(b, 0, 0, 0);
			else throw Undecided{ "no base" };
		}
		Q ratio = s / b.S; if (ratio.get_num() > 64 && b.zlo != b.zhi) throw Undecided{ "quotients of unrelated slopes" };
		c.P = ratio.get_num(); c.Qd = ratio.get_den(); c.tau = s * m.off - ratio * b.O; return c;
	}
	// convert f to a form over the digits of the box (refining it)
	LinD toDigits(const Form* f, Box& b) {
		if (narrowed(b) && nestedForm(f)) f = subst(f, b);
		if (!b.hasBase) fineBase(f, b);
		LinD l; size_t k; int again = 0;
		do { if (++again > 100) throw Undecided{ "incompatible radix" }; k = b.d.size(); l = toDigits1(f, b); } while (b.d.size() != k || l.k.size() != k);
		return l;
	}
	// quotients with slope at most one: the base is the finest multiple that occurs
	void fineBase(const Form* f, Box& b) {
		Q best = 0;
		for (auto& x : f->m) {
			if (!pureN(x.t)) continue; const Term& t = terms[x.t];
			Q s = t.isVar ? Q(1) : mkq(t.p->m[0].c, t.D); if (cmp(s, Q(3, 2)) > 0) return;
			s = abs(s * Q(x.c)); if (s > best) best = s;
		}
		if (sgn(best) == 0) return;
		long i = 0, j = 0; Z n = best.get_num(), d = best.get_den();
		while (divides(2, n)) { n /= 2; i++; } while (divides(5, n)) { n /= 5; j++; } while (divides(2, d)) { d /= 2; i--; } while (divides(5, d)) { d /= 5; j--; }
		if (n != 1 || d != 1 || cmp(best, Q(3, 2)) <= 0) return;
		setBase(b, i, j, 0);
	}
	// floor((L + ...)/N) for a form over digits: the part that is not a multiple of N must be settled
	Z settle(Box& b, const LinD& L, const Z& N) {
		Z lo, hi; rangeLin(b, L, lo, hi); Z fl = fdiv(lo, N), fh = fdiv(hi, N);
		if (fh - fl > 200) throw Undecided{ "nested quotient" };
		while (fl != fh) { // L >= (fl+1)*N ?  i.e. (fl+1)N - L <= 0
			LinD t = zero(b); for (size_t i = 0; i < t.k.size(); i++) t.k[i] = -L.k[i]; t.c = (fl + 1) * N - L.c;
			if (linLE(b, t)) fl += 1; else fh = fl;
		}
		return fl;
	}
	LinD toDigits1(const Form* f, Box& b) {
		std::vector<Conv> cs; std::vector<Z> Ms, Ns; std::vector<const Mono*> ms; Z c = f->c; std::vector<const Mono*> nested;
		for (auto& x : f->m) {
			Z lo, hi; rangeTerm(x.t, b, lo, hi); if (lo == hi) { c += x.c * lo; continue; }
			if (!terms[x.t].isVar && terms[x.t].root < 0 && !pureN(x.t)) { nested.push_back(&x); continue; }
			if (terms[x.t].root >= 0 && !pureN(terms[x.t].root)) { nested.push_back(&x); continue; }
			Conv k = convTerm(x.t, b);
			Z m = zfFloor(b, k.P, Q(k.Qd) * k.tau) ;
			Z N = k.Qd * k.rQ, M = m + k.rc * k.Qd; Z P = k.P;
			// floor((P*Z + M)/N)
			Z g = zgcd(P, N); if (g != 1) { P /= g; N /= g; M = fdiv(M, g); }
			k.P = P; cs.push_back(k); Ms.push_back(M); Ns.push_back(N); ms.push_back(&x);
		}
		std::vector<LinD> nl;
		for (auto* x : nested) nl.push_back(toDigits(terms[x->t].p, b));
		for (auto& N : Ns) refine(b, N);
		{ bool ch = false; if (!fixDigits(b, &ch)) split({}); if (ch) return LinD(); }
		for (auto& L : nl) if (L.k.size() != b.d.size()) { for (size_t q = 0; q < nl.size(); q++) nl[q] = toDigits(terms[nested[q]->t].p, b); for (auto& L2 : nl) if (L2.k.size() != b.d.size()) return LinD(); break; }
		LinD l = zero(b); l.c = c;
		for (size_t q = 0; q < cs.size(); q++) {
			const Z& P = cs[q].P; const Z& N = Ns[q]; const Z& M = Ms[q]; const Z& k = ms[q]->c;
			size_t idx = index(b, N); if (idx == (size_t)-1) return LinD();
			Z P1 = fdiv(P, N), P0 = P - P1 * N;
			if (sgn(P1)) { lower(b, b.d.size() - 1, l, k * P1); Z p = 1; for (auto& x : b.d) if (!x.top()) p *= x.radix; l.k.back() += k * P1 * p; }
			upper(b, idx, N, l, k * P0);
			// + floor((P*L + M)/N), L the lower digits
			Z M1 = fdiv(M, N), M0 = M - M1 * N; l.c += k * M1;
			LinD L = zero(b); lower(b, idx, L, P0); L.c = M0;
			l.c += k * settle(b, L, N);
		}
		for (size_t q = 0; q < nested.size(); q++) {
			const Z& N = terms[nested[q]->t].D; const Z& k = nested[q]->c; LinD L = nl[q];
			for (size_t i = 0; i < L.k.size(); i++) if (divides(N, L.k[i])) { l.k[i] += k * (L.k[i] / N); L.k[i] = 0; }
			Z c1 = fdiv(L.c, N); l.c += k * c1; L.c -= c1 * N;
			Z rlo, rhi; rangeLin(b, L, rlo, rhi);
			if (fdiv(rhi, N) - fdiv(rlo, N) > 50) for (size_t i = 0; i < L.k.size(); i++) if (sgn(L.k[i])) {
				Z r = N / zgcd(N, L.k[i]); if (b.d[i].hi - b.d[i].lo <= r || (!b.d[i].top() && !divides(r, b.d[i].radix))) continue;
				splitDigit(b, i, r); return LinD();
			}
			l.c += k * settle(b, L, N);
		}
		return l;
	}
	size_t index(const Box& b, const Z& N) { Z p = 1; for (size_t i = 0; i < b.d.size(); i++) { if (p == N) return i; if (b.d[i].top()) break; p *= b.d[i].radix; } return (size_t)-1; }

	// ---------------------------------------------------------------- residue predicates on n
	struct Cls { int kind; Z M, r; }; // 0 never, 1 always, 2 n in class, 3 n not in class, 4 unknown
	std::map<std::tuple<int, std::string>, Cls> clsmemo;
	// recognise { n in [nlo,nhi] : (A n + B) mod D in [lo,hi] }
	Cls recognise(const Z& A0, const Z& B0, const Z& D, Z lo, Z hi, const Z& nlo, const Z& nhi) {
		if (lo < 0) lo = 0; if (hi > D - 1) hi = D - 1;
		if (lo > hi) return { 0 };
		if (lo == 0 && hi == D - 1) return { 1 };
		st.classes++;
		Z A = fmod_(A0, D), len = nhi - nlo + 1, B = fmod_(B0 + A * nlo, D);
		Z cnt = mod_count(len, D, A, B, lo, hi);
		if (cnt == 0) return { 0 };
		if (cnt == len) return { 1 };
		if (cnt * 2 > len) { // complement; needs a single residue interval
			Z clo, chi;
			if (lo == 0) { clo = hi + 1; chi = D - 1; } else if (hi == D - 1) { clo = 0; chi = lo - 1; } else { // wraps: shift
				Cls c = recognise(A0, B0 - hi - 1, D, 0, D - 1 - (hi - lo + 1), nlo, nhi); return flip(c); }
			return flip(recognise2(A, B, D, clo, chi, nlo, len));
		}
		return recognise2(A, B, D, lo, hi, nlo, len);
	}
	Cls flip(Cls c) { static const int m[5] = { 1, 0, 3, 2, 4 }; c.kind = m[c.kind]; return c; }
	Cls recognise2(const Z& A, const Z& B, const Z& D, const Z& lo, const Z& hi, const Z& nlo, const Z& len) {
		Z cnt = mod_count(len, D, A, B, lo, hi);
		if (cnt == 0) return { 0 };
		if (cnt == len) return { 1 };
		Z i1 = mod_first(0, len, D, A, B, lo, hi), step;
		if (cnt == 1) { return { 2, len, fmod_(i1 + nlo, len) }; }
		Z i2 = mod_first(i1 + 1, len, D, A, B, lo, hi);
		step = i2 - i1;
		if (i1 >= step) return { 4 };
		Z mem = (len - 1 - i1) / step + 1;
		if (mem != cnt) return { 4 };
		if (mod_count(mem, D, A * step, B + A * i1, lo, hi) != mem) return { 4 };
		return { 2, step, fmod_(i1 + nlo, step) };
	}
	// decide n in class (M,r) within the box
	bool decClass(Box& b, const Cls& c) {
		if (c.kind == 0) return false; if (c.kind == 1) return true;
		bool pos = c.kind == 2; const Z& M = c.M; const Z& r = c.r;
		auto res = [&](bool in) { return in == pos; };
		if (divides(M, b.cm) && fmod_(b.cr - r, M) == 0) return res(true);
		if (M > b.v[0].second - b.v[0].first) { // at most one member: cut the interval there
			Z x = b.v[0].first + fmod_(r - b.v[0].first, M); if (x > b.v[0].second) return res(false);
			if (b.v[0].first == b.v[0].second) return res(true);
			std::vector<Box> bs; Box c = b; if (setN(c, x, x)) bs.push_back(c); c = b; if (setN(c, b.v[0].first, x - 1)) bs.push_back(c); c = b; if (setN(c, x + 1, b.v[0].second)) bs.push_back(c);
			split(std::move(bs));
		}
		Box in = b; bool fin = addClass(in, M, r);
		if (!fin) return res(false);
		Box out = b; bool fout = exclude(out, M, r);
		if (!fout) return res(true);
		for (auto& e : b.excl) if (e.first == M && e.second == r) return res(false);
		// when the class is one point of frac(zeta) strictly inside the interval, cut there
		std::vector<Box> bs; bs.push_back(std::move(in));
		if (b.hasBase && divides(b.S.get_den(), M)) {
			Q y = b.S * Q(r) + b.O; Q z = y - Q(qfloor(y)); Z pm, pr;
			if (pointClass(b, z, pm, pr) && pm == M && b.zlo < z && z < b.zhi) {
				Box x = b; if (zBelow(x, z, true)) bs.push_back(x); x = b; if (zAbove(x, z, true)) bs.push_back(x);
				split(std::move(bs));
			}
			if (pm == M && !zIn(b, z)) return res(false);
		}
		bs.push_back(std::move(out)); split(std::move(bs));
	}
	// f = u*(p - D*floor(p/D)) + c with p affine in n ?
	bool residuePattern(const Form* f, const Box& b, Z& A, Z& B, Z& D, Z& u, Z& c) {
		int ft = -1; Z fc, nc = 0; c = f->c;
		for (auto& x : f->m) {
			const Term& t = terms[x.t];
			if (t.isVar && t.var == 0) { nc = x.c; continue; }
			Z lo, hi; rangeTerm(x.t, b, lo, hi); if (lo == hi) { c += x.c * lo; continue; }
			if (t.isVar || ft >= 0) return false;
			ft = x.t; fc = x.c;
		}
		if (ft < 0 || !pureN(ft)) return false;
		const Term& t = terms[ft]; D = t.D; A = t.p->m[0].c; B = t.p->c;
		if (!divides(D, fc)) return false;
		u = -fc / D; if (u * A != nc) return false;
		c -= u * B; return true;
	}
	bool smallRadix25(const Z& D) { // a divisor of the form 10^k or similar appears in digit arithmetic
		return divides(Z(5), D);
	}

	// replace the quotients that are constant in the box
	const Form* subst(const Form* f, const Box& b) {
		if (memoKey != b.v) { memoKey = b.v; memoGen++; }
		if (f->sgen == memoGen) return f->sres;
		const Form* g = subst1(f, b); Form* w = const_cast<Form*>(f); w->sgen = memoGen; w->sres = g; return g;
	}
	const Form* subst1(const Form* f, const Box& b) {
		const Form* r = cst(f->c); bool ch = false;
		for (auto& x : f->m) {
			const Form* q = tf(x.t);
			if (terms[x.t].isVar) { int v = terms[x.t].var; if (b.v[v].first == b.v[v].second) q = cst(b.v[v].first); }
			else {
				Z lo, hi; rangeTerm(x.t, b, lo, hi);
				if (lo == hi) q = cst(lo);
				else if (!pureN(x.t)) {
					if (terms[x.t].root >= 0) { const Form* o = tf(terms[x.t].root); const Form* n = subst(o, b); if (n != o) { Z rc = terms[x.t].rc, rQ = terms[x.t].rQ; q = floorDiv(addc(n, rc), rQ); } }
					else { const Form* o = terms[x.t].p; const Form* n = subst(o, b); if (n != o) { Z D = terms[x.t].D; q = floorDiv(n, D); } }
				}
			}
			ch |= q->isConst() || q->m[0].t != x.t || q->m.size() != 1; r = lin(r, 1, q, x.c, 0);
		}
		return ch ? r : f;
	}
	bool nestedForm(const Form* f) { for (auto& x : f->m) if (!pureN(x.t)) return true; return false; }
	std::string fstr(const Form* f, int depth = 0) {
		std::string s; for (auto& x : f->m) { const Term& t = terms[x.t]; s += (s.empty() ? "" : " + ") + x.c.get_str() + "*"; if (t.isVar) s += "v" + std::to_string(t.var); else s += "floor((" + (depth > 3 ? std::string("..") : fstr(t.p, depth + 1)) + ")/" + t.D.get_str() + (t.root >= 0 ? "~root" : "") + ")"; }
		return s + " + " + f->c.get_str();
	}
	// ---------------------------------------------------------------- decisions
	void splitVar(Box& b, size_t v, const Z& a) { // v <= a | v > a
		std::vector<Box> bs; Box c = b; 
		if (v == 0) { if (setN(c, c.v[0].first, a)) bs.push_back(c); c = b; if (setN(c, a + 1, c.v[0].second)) bs.push_back(c); }
		else { c.v[v].second = a; if (c.v[v].first <= a) bs.push_back(c); c = b; c.v[v].first = a + 1; if (c.v[v].first <= c.v[v].second) bs.push_back(c); }
		split(std::move(bs));
	}
	bool hasOther(const Form* f, const Box& b, int& v) { for (auto& x : f->m) { const Term& t = terms[x.t]; if (t.isVar) { if (t.var != 0 && b.v[t.var].first != b.v[t.var].second) { v = t.var; return true; } } else if (hasOther(t.p, b, v)) return true; } return false; }
	bool wholeConst(const Box& b, const Form* f) { return allConst(f, b); }

	// f <= 0 ?
	bool decLE(const Form* f, Box& b) {
		st.decisions++;
		Z lo, hi; range(f, b, lo, hi);
		if (hi <= 0) return true; if (lo > 0) return false;
		rangeTight(f, b, lo, hi);
		if (hi <= 0) return true; if (lo > 0) return false;
		if (narrowed(b) && nestedForm(f)) { const Form* g = subst(f, b); if (g != f) { f = g; range(f, b, lo, hi); if (hi <= 0) return true; if (lo > 0) return false; } }
		int ov;
		if (f->m.size() == 1 && terms[f->m[0].t].isVar) { // k*v + c <= 0
			const Z& k = f->m[0].c; int v = terms[f->m[0].t].var;
			if (sgn(k) > 0) splitVar(b, v, fdiv(-f->c, k)); else splitVar(b, v, cdiv(f->c, -k) - 1);
		}
		if (hasOther(f, b, ov)) splitOther(b, ov);
		if (!b.hasBase && f->m.size() == 1 && pureN(f->m[0].t)) { // monotone in n: k*floor((A n + B)/D) + c <= 0
			const Term& t = terms[f->m[0].t]; const Z& k = f->m[0].c; const Z& A = t.p->m[0].c; const Z& B = t.p->c;
			// q <= a goes with one side
			Z a = sgn(k) > 0 ? fdiv(-f->c, k) : Z(cdiv(f->c, -k) - 1), lim = (a + 1) * t.D - 1 - B; // A n <= lim
			splitVar(b, 0, sgn(A) > 0 ? fdiv(lim, A) : Z(cdiv(-lim, -A) - 1));
		}
		Z A, B, D, u, c;
		bool pat = residuePattern(f, b, A, B, D, u, c);
		if (pat && !(smallRadix25(D))) { Cls k = residueLE(A, B, D, u, c, b); if (k.kind != 4) return decClass(b, k); }
		Box b2 = b; // refinements of the representation are kept
		std::string why; std::vector<Z> cand;
		try { LinD l = toDigits(f, b2); bool r = linLE(b2, l); b = b2; return r; } catch (Undecided& e) { why = e.why; cand = e.cand; }
		if (pat) { Cls k = residueLE(A, B, D, u, c, b); if (k.kind != 4) return decClass(b, k); residueCand(A, B, D, u, c, b, cand); }
		throw Undecided{ why, cand };
	}
	bool decEQ(const Form* f, Box& b) {
		st.decisions++;
		Z lo, hi; range(f, b, lo, hi);
		if (lo > 0 || hi < 0) return false; if (lo == 0 && hi == 0) return true;
		rangeTight(f, b, lo, hi);
		if (lo > 0 || hi < 0) return false; if (lo == 0 && hi == 0) return true;
		{ Z g = 0; for (auto& x : f->m) g = zgcd(g, x.c); if (g > 1 && !divides(g, f->c)) return false; }
		if (narrowed(b) && nestedForm(f)) { const Form* g = subst(f, b); if (g != f) { f = g; range(f, b, lo, hi); if (lo > 0 || hi < 0) return false; if (lo == 0 && hi == 0) return true; } }
		int ov;
		if (f->m.size() == 1 && terms[f->m[0].t].isVar) {
			const Z& k = f->m[0].c; int v = terms[f->m[0].t].var; Z x = -f->c / k;
			if (x > b.v[v].first) splitVar(b, v, x - 1);
			splitVar(b, v, x);
		}
		if (hasOther(f, b, ov)) splitOther(b, ov);
		if (!b.hasBase && f->m.size() == 1 && pureN(f->m[0].t)) { if (!decLE(f, b)) return false; return !decLE(addc(f, 1), b); }
		Z A, B, D, u, c;
		bool pat = residuePattern(f, b, A, B, D, u, c);
		if (pat && !smallRadix25(D)) { Cls k = residueEQ(A, B, D, u, c, b); if (k.kind != 4) return decClass(b, k); }
		Box b2 = b; std::string why; std::vector<Z> cand;
		try { LinD l = toDigits(f, b2); bool r = linEQ(b2, l); b = b2; return r; } catch (Undecided& e) { why = e.why; cand = e.cand; }
		if (pat) { Cls k = residueEQ(A, B, D, u, c, b); if (k.kind != 4) return decClass(b, k); residueCand(A, B, D, u, c, b, cand); }
		throw Undecided{ why, cand };
	}
	Cls residueLE(const Z& A, const Z& B, const Z& D, const Z& u, const Z& c, const Box& b) {
		// u*R + c <= 0, R in [0,D-1]
		Z lo = 0, hi = D - 1; if (sgn(u) > 0) hi = fdiv(-c, u); else lo = cdiv(c, -u);
		return recogniseBox(A, B, D, lo, hi, b);
	}
	Cls residueEQ(const Z& A, const Z& B, const Z& D, const Z& u, const Z& c, const Box& b) {
		if (!divides(u, c)) return { 0 };
		Z x = -c / u; return recogniseBox(A, B, D, x, x, b);
	}
	void residueCand(const Z&, const Z&, const Z&, const Z&, const Z&, const Box&, std::vector<Z>&) {}
	Cls recogniseBox(const Z& A, const Z& B, const Z& D, const Z& lo, const Z& hi, const Box& b) {
		// over the initial range of n: the answer is the same for all boxes
		std::string key = A.get_str(62) + "," + B.get_str(62) + "," + D.get_str(62) + "," + lo.get_str(62) + "," + hi.get_str(62);
		auto k = std::make_tuple(0, key); auto it = clsmemo.find(k); if (it != clsmemo.end()) return it->second;
		Cls c = recognise(A, B, D, lo, hi, vinit[0].first, vinit[0].second);
		clsmemo[k] = c; return c;
	}
	// the members of a small box as points; false when there are too many
	bool points(const Box& b, std::vector<Box>& out, long limit = 64) {
		Z c = nCount(b); if (c > limit || b.v[0].first == b.v[0].second) return false;
		Z n = b.v[0].first + fmod_(b.cr - b.v[0].first, b.cm);
		for (; n <= b.v[0].second; n += b.cm) if (member(b, n)) { Box x; x.v = b.v; x.v[0] = { n, n }; x.depth = b.depth; out.push_back(std::move(x)); }
		return true;
	}
	[[noreturn]] void splitOther(Box& b, int v) {
		Z w = b.v[v].second - b.v[v].first; if (w > 64) throw Undecided{ "two variables" };
		std::vector<Box> bs; for (Z x = b.v[v].first; x <= b.v[v].second; x += 1) { Box c = b; c.v[v].first = c.v[v].second = x; bs.push_back(std::move(c)); }
		split(std::move(bs));
	}
	// sign of  l + a*zf + t   (l over the digits)
	int signLin(Box& b, const LinD& l, const Q& a, const Q& t) {
		Z lo, hi; rangeLin(b, l, lo, hi);
		Q glo, ghi; bool olo = false, ohi = false; // range of a*zf+t
		if (sgn(a) >= 0) { glo = a * b.zlo + t; ghi = a * b.zhi + t; olo = b.zlo_open; ohi = b.zhi_open; } else { glo = a * b.zhi + t; ghi = a * b.zlo + t; olo = b.zhi_open; ohi = b.zlo_open; }
		if (sgn(a) == 0) olo = ohi = false;
		int cl = cmp(Q(lo) + glo, Q(0)), ch = cmp(Q(hi) + ghi, Q(0));
		if (cl > 0 || (cl == 0 && olo)) return 1;
		if (ch < 0 || (ch == 0 && ohi)) return -1;
		if (cl == 0 && ch == 0) return 0;
		if (lo != hi) {
			// separate the values of l: l + ghi < 0 , ... , l + glo > 0
			Z m1 = qceil(-ghi); if (!ohi || Q(m1) != -ghi) { /* l <= m1-1 gives l+ghi<0 */ m1 -= 1; } // l <= m1 => negative
			LinD x = l; x.c -= m1; if (linLE(b, x)) return -1;
			Z m2 = qfloor(-glo); if (!olo || Q(m2) != -glo) m2 += 1; // l >= m2 => positive
			x = l; x.c -= m2 - 1; if (!linLE(b, x)) return 1;
			// m1 < l < m2: few integers
			for (Z k = m1 + 1; k < m2; k += 1) { LinD y = l; y.c -= k; if (linLE(b, y)) { // l == k
					rangeLin(b, l, lo, hi); if (lo == hi) break; } }
			rangeLin(b, l, lo, hi);
			if (lo != hi) throw Undecided{ "digits" };
			return signLin(b, l, a, t);
		}
		// l constant; split zf
		Q z0 = -(Q(lo) + t) / a; std::vector<Box> bs; Box c = b;
		if (zBelow(c, z0, true)) bs.push_back(c); c = b; if (setPoint(c, z0)) bs.push_back(c); c = b; if (zAbove(c, z0, true)) bs.push_back(c);
		split(std::move(bs));
	}
	// sign of  mu*f - (zeta + t)     mu rational; n not a singleton
	int signVsZeta(const Form* f, const Q& mu, const Q& t, Box& b) {
		LinD l = toDigits(f, b); const Z& a = mu.get_num(); const Z& d = mu.get_den();
		LinD w = zero(b); for (size_t i = 0; i < w.k.size(); i++) w.k[i] = l.k[i] * a; w.c = l.c * a;
		lower(b, b.d.size() - 1, w, -d); { Z p = 1; for (auto& x : b.d) if (!x.top()) p *= x.radix; w.k.back() -= d * p; }
		return signLin(b, w, -Q(d), -Q(d) * t);
	}
};
