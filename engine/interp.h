// Abstract interpreter: walks the IR over the domain of dom.h.
#pragma once
#include "dom.h"
#include "ir.h"
#include <functional>

struct V {
	enum K : uint8_t { Undef, Poison, Int, Ptr, Agg, Fn, Bytes } k = Undef;
	bool fp = false; uint16_t w = 0; const Form* f = nullptr; int obj = -1; const std::vector<V>* agg = nullptr; const char* fn = nullptr;
};
struct Cell { V v; uint8_t idx = 0, n = 0; bool def = false; };
struct MemObj { uint64_t size = 0; int glob = -1; bool writable = true, alive = true; const char* name = ""; std::vector<Cell> cells; };

struct LeafT { enum K { Ret, Abort, UB, Unsupported, Limit } k; std::string msg; int file = 0, line = 0; const char* fn = ""; };

struct Frame { const FnI* fn = nullptr; int blk = 0, prev = -1; size_t ip = 0; std::vector<V> r; int dst = -1; int normal = -1; std::vector<int> allocas; };
struct State {
	std::vector<Frame> fr; std::vector<std::shared_ptr<MemObj>> mem; std::vector<int> gobj; Box b; std::vector<int> trace; long steps = 0; bool leaf = false; LeafT lt; V ret; int depth = 0;
};

struct Machine {
	Program& P; Dom D; std::deque<std::vector<V>> aggs; std::vector<const Form*> kcache;
	long maxSteps = 200000, maxLeaves = 80000; long nsteps = 0, nleaves = 0; 
	double (*now)() = nullptr; double tEnd = 0;
	std::set<const Inst*> covered; std::set<std::string> coveredFns; std::set<std::pair<int, int>> lines;
	std::set<std::string>* effects = nullptr;
	explicit Machine(Program& p) : P(p) {}
	void reset() { D.reset(); aggs.clear(); kcache.assign(P.consts.size(), nullptr); nleaves = 0; covered.clear(); }

	struct LeafExc { LeafT t; };
	[[noreturn]] void leaf(LeafT::K k, const std::string& m, const Inst* i = nullptr) { LeafT t; t.k = k; t.msg = m; if (i) { t.file = i->file; t.line = i->line; t.fn = i->fn; } throw LeafExc{ t }; }

	static Z M(unsigned w) { return pow2(w); }
	V mkInt(const Form* f, unsigned w) { V v; v.k = V::Int; v.w = (uint16_t)w; v.f = f; return v; }
	V mkC(const Z& z, unsigned w) { return mkInt(D.cst(fmod_(z, M(w))), w); }
	const Z& pw(unsigned w) { static thread_local std::vector<Z> t; while (t.size() <= w) t.push_back(pow2(t.size())); return t[w]; }

	V constV(int id, State& s) {
		const Const& c = P.consts[-1 - id]; V v;
		switch (c.k) {
		case Const::Int: { const Form*& f = kcache[-1 - id]; if (!f) f = D.cst(c.z); return mkInt(f, c.w); }
		case Const::Fp: v = mkInt(D.cst(c.z), c.w); v.fp = true; return v;
		case Const::Null: v.k = V::Ptr; v.obj = -1; v.w = P.ptrBits; v.f = D.cst(0); return v;
		case Const::Ptr: v.k = V::Ptr; v.w = P.ptrBits; v.obj = globalObj(c.glob, s); v.f = D.cst(c.off); return v;
		case Const::Fn: v.k = V::Fn; v.fn = c.fn.c_str(); v.w = P.ptrBits; return v;
		case Const::Undef: v.k = V::Undef; v.w = c.w; return v;
		case Const::Poison: v.k = V::Poison; v.w = c.w; return v;
		case Const::Agg: { std::vector<V> a; for (int x : c.agg) a.push_back(constV(x, s)); aggs.push_back(std::move(a)); v.k = V::Agg; v.agg = &aggs.back(); return v; }
		}
		return v;
	}
	int globalObj(int g, State& s) {
		if ((int)s.gobj.size() < (int)P.globals.size()) s.gobj.resize(P.globals.size(), -1);
		if (s.gobj[g] >= 0) return s.gobj[g];
		auto o = std::make_shared<MemObj>(); const GlobalObj& G = P.globals[g]; o->glob = g; o->size = G.bytes.size(); o->writable = !G.isConst; o->name = G.name.c_str();
		if (!G.isConst) { // mutable global: contents unknown
			o->glob = -2 - g; o->cells.resize(o->size);
		}
		s.mem.push_back(o); return s.gobj[g] = (int)s.mem.size() - 1;
	}
	V get(State& s, int o, const Inst& i) {
		if (o == INT32_MIN) leaf(LeafT::Unsupported, "operand", &i);
		if (o < 0) return constV(o, s);
		return s.fr.back().r[o];
	}
	// an integer operand that must be defined
	V geti(State& s, int o, const Inst& i) {
		V v = get(s, o, i);
		if (v.k == V::Int) return v;
		if (v.k == V::Undef || v.k == V::Poison || v.k == V::Bytes) leaf(LeafT::UB, v.k == V::Poison ? "use of an undefined result (shift out of range or similar)" : "use of an uninitialised value", &i);
		leaf(LeafT::Unsupported, "integer operand expected", &i);
	}
	V getp(State& s, int o, const Inst& i) {
		V v = get(s, o, i);
		if (v.k == V::Ptr) return v;
		if (v.k == V::Undef || v.k == V::Poison) leaf(LeafT::UB, "use of an uninitialised pointer", &i);
		leaf(LeafT::Unsupported, "pointer operand expected", &i);
	}
	const Form* norm(const Form* f, unsigned w, Box& b) {
		if (f->isConst()) return D.cst(fmod_(f->c, pw(w)));
		Z lo, hi; D.range(f, b, lo, hi);
		auto ok = [&]() { if (lo >= 0 && hi < pw(w)) return true; if (w > 1 && lo >= -pw(w - 1) && hi < pw(w - 1)) return true; return false; };
		if (ok()) return f;
		D.rangeTight(f, b, lo, hi);
		if (ok()) return f;
		Z kl = fdiv(lo, pw(w)), kh = fdiv(hi, pw(w));
		if (kl == kh) return D.addc(f, -kl * pw(w));
		const Form* k = D.floorDiv(f, pw(w));
		if (k->isConst()) return D.addc(f, -k->c * pw(w));
		D.relax(k);
		if (k->hi - k->lo == 1) { if (std::find(D.carries.begin(), D.carries.end(), k) == D.carries.end()) D.carries.push_back(k); }
		const Form* r = D.lin(f, 1, k, -pw(w), 0); Z z0 = 0, z1 = pw(w) - 1;
		std::vector<Mono> m = r->m; return D.mk(std::move(m), r->c, &z0, &z1);
	}
	const Form* asU(const Form* f, unsigned w, Box& b) {
		if (f->isConst()) return sgn(f->c) < 0 || f->c >= pw(w) ? D.cst(fmod_(f->c, pw(w))) : f;
		Z lo, hi; D.range(f, b, lo, hi); if (lo >= 0) return f; if (hi < 0) return D.addc(f, pw(w));
		D.rangeTight(f, b, lo, hi); if (lo >= 0) return f; if (hi < 0) return D.addc(f, pw(w));
		if (D.decLE(D.addc(f, 1), b)) return hint(D.addc(f, pw(w)), w); return hint(f, w);
	}
	const Form* hint(const Form* f, unsigned) { return f; }
	const Form* asS(const Form* f, unsigned w, Box& b) {
		const Z& h = pw(w - 1);
		if (f->isConst()) return f->c >= h ? D.cst(f->c - pw(w)) : f;
		Z lo, hi; D.range(f, b, lo, hi); if (hi < h) return f; if (lo >= h) return D.addc(f, -pw(w));
		D.rangeTight(f, b, lo, hi); if (hi < h) return f; if (lo >= h) return D.addc(f, -pw(w));
		if (D.decLE(D.addc(f, 1 - h), b)) return f; return D.addc(f, -pw(w));
	}
	// -1 unknown, else truth of f <= 0 from ranges only
	int tri(const Form* f, Box& b) { Z lo, hi; D.range(f, b, lo, hi); if (hi <= 0) return 1; if (lo > 0) return 0; D.rangeTight(f, b, lo, hi); if (hi <= 0) return 1; if (lo > 0) return 0; return -1; }
	// truth of f <= 0, as a 0/1 form
	const Form* boolLE(const Form* f, unsigned w, Box& b) {
		int t = tri(f, b); if (t >= 0) return D.cst(t);
		Z lo, hi; D.range(f, b, lo, hi);
		if (lo == 0 && hi == 1) return D.lin(f, -1, f, 0, 1);
		for (int q = (int)D.carries.size() - 1, cnt = 0; q >= 0 && cnt < 16; q--, cnt++) {
			const Form* K = D.carries[q]; Z kl = K->lo; if (K->hi - kl != 1) continue;
			const Form* g = D.lin(f, 1, K, pw(w), 0); int t0 = tri(D.addc(g, -pw(w) * kl), b), t1 = tri(D.addc(g, -pw(w) * (kl + 1)), b);
			if (t0 >= 0 && t1 >= 0) { if (t0 == t1) return D.cst(t0); const Form* k01 = D.addc(K, -kl); return t1 ? k01 : D.lin(k01, -1, k01, 0, 1); }
		}
		return D.cst(D.decLE(f, b) ? 1 : 0);
	}
	const Form* boolEQ(const Form* f, Box& b) {
		Z lo, hi; D.range(f, b, lo, hi);
		if (lo > 0 || hi < 0) return D.cst(0); if (lo == hi) return D.cst(1);
		if (lo == 0 && hi == 1) return D.lin(f, -1, f, 0, 1);
		if (lo == -1 && hi == 0) return D.addc(f, 1);
		return D.cst(D.decEQ(f, b) ? 1 : 0);
	}
	const Form* inv(const Form* f) { return D.lin(f, -1, f, 0, 1); }
	Z concretise(const Form* f, Box& b, int limit = 70) {
		if (f->isConst()) return f->c;
		Z lo, hi; D.rangeTight(f, b, lo, hi); if (lo == hi) return lo;
		if (hi - lo > limit) {
			// one comparison may settle it
			throw Undecided{ "value with a wide range must be constant" };
		}
		while (lo < hi) { Z mid = fdiv(lo + hi, 2); if (D.decLE(D.addc(f, -mid), b)) hi = mid; else lo = mid + 1; }
		return lo;
	}
	bool wide(const Form* f, Box& b, const Z& lim) { Z lo, hi; D.rangeTight(f, b, lo, hi); return hi - lo > lim; }
	unsigned tz(const Form* f) { // power of two that divides every value
		Z g = f->c; for (auto& x : f->m) g = zgcd(g, x.c); if (g == 0) return 4096; return (unsigned)mpz_scan1(g.get_mpz_t(), 0);
	}
	const Form* andConst(const Form* f, Z mask, unsigned w, Box& b) {
		f = asU(f, w, b); const Form* r = D.cst(0); unsigned pos = 0;
		while (mask != 0) {
			unsigned s = (unsigned)mpz_scan1(mask.get_mpz_t(), 0), e = (unsigned)mpz_scan0(mask.get_mpz_t(), s); (void)pos;
			const Form* x = D.floorDiv(f, pw(s)); const Form* y;
			Z lo, hi; D.range(x, b, lo, hi);
			if (hi < pw(e - s)) y = x; else { const Form* q = D.floorDiv(x, pw(e - s)); y = D.lin(x, 1, q, -pw(e - s), 0); if (!y->isConst()) { Z z0 = 0, z1 = pw(e - s) - 1; auto m = y->m; y = D.mk(std::move(m), y->c, &z0, &z1); } }
			r = D.add(r, D.scale(y, pw(s)));
			mask -= pw(e) - pw(s);
		}
		return r;
	}
	std::map<std::pair<int, int>, int> prod;
	const Form* mulF(const Form* a, const Form* b, Box& bx) {
		if (b->isConst()) return D.scale(a, b->c);
		if (a->isConst()) return D.scale(b, a->c);
		if (!prod.empty()) { // the products of the parts of the operands are variables of their own
			const Form* r = D.cst(a->c * b->c); r = D.add(r, D.scale(D.sub(a, D.cst(a->c)), b->c)); r = D.add(r, D.scale(D.sub(b, D.cst(b->c)), a->c));
			for (auto& x : a->m) for (auto& y : b->m) { auto it = prod.find({ std::min(x.t, y.t), std::max(x.t, y.t) }); if (it == prod.end()) throw Undecided{ "product" }; r = D.add(r, D.scale(D.tf(it->second), x.c * y.c)); }
			return r;
		}
		Z l1, h1, l2, h2; D.rangeTight(a, bx, l1, h1); D.rangeTight(b, bx, l2, h2);
		if (h1 - l1 > h2 - l2) { std::swap(a, b); std::swap(l1, l2); std::swap(h1, h2); }
		Z k = concretise(a, bx); return D.scale(b, k);
	}
	void checkRange(const Form* f, const Z& lo, const Z& hi, Box& b, const Inst& i, const char* what) {
		Z l, h; D.range(f, b, l, h); if (l >= lo && h <= hi) return; D.rangeTight(f, b, l, h); if (l >= lo && h <= hi) return;
		if (h < lo || l > hi) leaf(LeafT::UB, what, &i);
		if (l < lo && D.decLE(D.addc(f, 1 - lo), b)) leaf(LeafT::UB, what, &i);
		if (h > hi && !D.decLE(D.addc(f, -hi), b)) leaf(LeafT::UB, what, &i);
	}
	const Form* sdivF(const Form* a, const Z& d, Box& b) {
		Z dd = abs(d); const Form* q; Z lo, hi; D.rangeTight(a, b, lo, hi);
		if (lo >= 0) q = D.floorDiv(a, dd);
		else if (hi <= 0) q = D.scale(D.floorDiv(D.scale(a, -1), dd), -1);
		else if (D.decLE(a, b)) q = D.scale(D.floorDiv(D.scale(a, -1), dd), -1); else q = D.floorDiv(a, dd);
		return sgn(d) < 0 ? D.scale(q, -1) : q;
	}
	// a quotient with few values drives a loop more often than not: partition on it
	bool smallQ(const Form* q, Box& b) { if (q->isConst()) return false; Z lo, hi; D.rangeTight(q, b, lo, hi); return lo >= 0 && hi - lo >= 2 && hi - lo <= 8; }
	V binop(const Inst& i, State& s) {
		Box& b = s.b; unsigned w = i.w;
		if (i.kind != 0) leaf(LeafT::Unsupported, "arithmetic on a non-integer", &i);
		V x = geti(s, i.a, i), y = geti(s, i.b, i); const Form* f = x.f; const Form* g = y.f;
		Z H = w ? pw(w - 1) : Z(0);
		switch (i.op) {
		case Op::Add: case Op::Sub: {
			auto comb = [&](const Form* p, const Form* q) { return D.lin(p, 1, q, i.op == Op::Add ? 1 : -1, 0); };
			if (i.flags & 1) checkRange(comb(asU(f, w, b), asU(g, w, b)), 0, pw(w) - 1, b, i, "unsigned overflow of an operation that must not wrap");
			if (i.flags & 2) { const Form* r = comb(asS(f, w, b), asS(g, w, b)); checkRange(r, -H, H - 1, b, i, "signed integer overflow"); return mkInt(r->isConst() ? D.cst(fmod_(r->c, pw(w))) : r, w); }
			const Form* p = f; const Form* q = g;
			if (w > 1) { if (p->isConst() && p->c >= H) p = D.cst(p->c - pw(w)); if (q->isConst() && q->c >= H) q = D.cst(q->c - pw(w)); }
			return mkInt(norm(comb(p, q), w, b), w);
		}
		case Op::Mul: {
			if (i.flags & 2) { const Form* r = mulF(asS(f, w, b), asS(g, w, b), b); checkRange(r, -H, H - 1, b, i, "signed integer overflow"); return mkInt(r->isConst() ? D.cst(fmod_(r->c, pw(w))) : r, w); }
			const Form* r = mulF(asU(f, w, b), asU(g, w, b), b);
			if (i.flags & 1) checkRange(r, 0, pw(w) - 1, b, i, "unsigned overflow of an operation that must not wrap");
			return mkInt(norm(r, w, b), w);
		}
		case Op::UDiv: case Op::URem: {
			Z d = concretise(asU(g, w, b), b); if (d == 0) leaf(LeafT::UB, "division by zero", &i);
			const Form* n = asU(f, w, b); const Form* q = D.floorDiv(n, d);
			if (i.op == Op::UDiv) { if (smallQ(q, b)) q = D.cst(concretise(q, b)); return mkInt(q, w); }
			return mkInt(rem(n, q, d), w);
		}
		case Op::SDiv: case Op::SRem: {
			Z d = concretise(asS(g, w, b), b); if (d == 0) leaf(LeafT::UB, "division by zero", &i);
			const Form* n = asS(f, w, b);
			if (d == -1) checkRange(n, -H + 1, H - 1, b, i, "signed division overflow");
			const Form* q = sdivF(n, d, b);
			if (i.op == Op::SDiv) return mkInt(q->isConst() ? D.cst(fmod_(q->c, pw(w))) : q, w);
			const Form* r = D.lin(n, 1, q, -d, 0); Z lo, hi; D.rangeTight(n, b, lo, hi);
			if (!r->isConst()) { Z z0 = lo >= 0 ? Z(0) : Z(1 - abs(d)), z1 = hi <= 0 ? Z(0) : Z(abs(d) - 1); auto m = r->m; r = D.mk(std::move(m), r->c, &z0, &z1); }
			return mkInt(r->isConst() ? D.cst(fmod_(r->c, pw(w))) : r, w);
		}
		case Op::Shl: case Op::LShr: case Op::AShr: {
			const Form* gu = asU(g, w, b); Z lo, hi; D.rangeTight(gu, b, lo, hi);
			if (lo >= w) leaf(LeafT::UB, "shift amount not smaller than the width", &i);
			if (hi >= w && !D.decLE(D.addc(gu, 1 - Z(w)), b)) leaf(LeafT::UB, "shift amount not smaller than the width", &i);
			unsigned k = (unsigned)concretise(gu, b, 300).get_ui();
			if (k >= w) leaf(LeafT::UB, "shift amount not smaller than the width", &i);
			if (i.op == Op::LShr) { const Form* q = D.floorDiv(asU(f, w, b), pw(k)); if (k == 1 && smallQ(q, b)) q = D.cst(concretise(q, b)); return mkInt(q, w); }
			if (i.op == Op::AShr) { const Form* r = D.floorDiv(asS(f, w, b), pw(k)); return mkInt(r->isConst() ? D.cst(fmod_(r->c, pw(w))) : r, w); }
			if (i.flags & 2) { const Form* r = D.scale(asS(f, w, b), pw(k)); checkRange(r, -H, H - 1, b, i, "signed shift overflow"); return mkInt(r->isConst() ? D.cst(fmod_(r->c, pw(w))) : r, w); }
			if (i.flags & 1) checkRange(D.scale(asU(f, w, b), pw(k)), 0, pw(w) - 1, b, i, "unsigned overflow of an operation that must not wrap");
			return mkInt(norm(D.scale(f, pw(k)), w, b), w);
		}
		case Op::And: case Op::Or: case Op::Xor: {
			if (f->isConst()) std::swap(f, g);
			if (w == 1 && !g->isConst() && !f->isConst()) { Z k = D.decEQ(g, b) ? 0 : 1; g = D.cst(k); }
			if (!g->isConst()) {
				if (f == g) return mkInt(i.op == Op::Xor ? D.cst(0) : f, w);
				const Form* fu = asU(f, w, b); const Form* gu = asU(g, w, b); Z l, h; 
				D.rangeTight(gu, b, l, h); unsigned t = tz(fu); bool dis = t >= w || h < pw(t);
				if (!dis) { D.rangeTight(fu, b, l, h); t = tz(gu); dis = t >= w || h < pw(t); }
				if (dis) return mkInt(i.op == Op::And ? D.cst(0) : D.add(fu, gu), w);
				Z l1, h1, l2, h2; D.rangeTight(fu, b, l1, h1); D.rangeTight(gu, b, l2, h2);
				if (h1 - l1 < h2 - l2) { std::swap(fu, gu); }
				Z k = concretise(gu, b); f = fu; g = D.cst(k);
			}
			Z c = fmod_(g->c, pw(w));
			if (f->isConst()) { Z fc = fmod_(f->c, pw(w)); Z r = i.op == Op::And ? Z(fc & c) : i.op == Op::Or ? Z(fc | c) : Z(fc ^ c); return mkInt(D.cst(r), w); }
			if (i.op == Op::And) { if (c == pw(w) - 1) return mkInt(f, w); return mkInt(andConst(f, c, w, b), w); }
			if (c == 0) return mkInt(f, w);
			const Form* fu = asU(f, w, b);
			if (i.op == Op::Xor && c == pw(w) - 1) return mkInt(D.lin(fu, -1, fu, 0, c), w);
			const Form* a = andConst(fu, c, w, b);
			return mkInt(i.op == Op::Or ? D.lin(fu, 1, a, -1, c) : D.lin(fu, 1, a, -2, c), w);
		}
		default: leaf(LeafT::Unsupported, "operation", &i);
		}
	}
	const Form* rem(const Form* n, const Form* q, const Z& d) { const Form* r = D.lin(n, 1, q, -d, 0); if (r->isConst()) return r; Z z0 = 0, z1 = d - 1; auto m = r->m; return D.mk(std::move(m), r->c, &z0, &z1); }

	// true when the result of i is used once, widened or narrowed at most, in an ordering against a known number: "result >= c"
	std::map<const FnI*, std::vector<int>> useCount;
	bool onlyCompared(State& s, const Inst& i, long& c) {
		Frame& F = s.fr.back(); auto& uc = useCount[F.fn];
		if (uc.empty()) {
			uc.assign(F.fn->nregs + 1, 0); auto use = [&](int o) { if (o >= 0 && o < (int)uc.size()) uc[o]++; };
			for (auto& b : F.fn->blocks) { for (auto& p : b.phis) for (auto& x : p.in) use(x.second); for (auto& x : b.ins) { use(x.a); use(x.b); use(x.c); if (x.op != Op::Br && x.op != Op::CondBr && x.op != Op::Switch && x.op != Op::Extract && x.op != Op::Insert) for (int o : x.ex) use(o); } }
		}
		auto& ins = F.fn->blocks[F.blk].ins; size_t q = &i - &ins[0]; int r = i.dst; std::set<int> later;
		for (q++; q < ins.size(); q++) {
			auto& x = ins[q]; if (r < 0 || r >= (int)uc.size() || uc[r] != 1) return false;
			if (x.a == r || x.b == r) {
				if ((x.op == Op::Trunc || x.op == Op::ZExt || x.op == Op::SExt) && x.w >= 16) { r = x.dst; continue; }
				if (x.op != Op::ICmp || x.b == r || x.b == INT32_MIN || later.count(x.b)) return false;
				V y = get(s, x.b, x); if (y.k != V::Int || !y.f->isConst()) return false;
				using P_ = llvm::CmpInst::Predicate; Z k = y.f->c; bool sg = x.pred == P_::ICMP_SGE || x.pred == P_::ICMP_SGT || x.pred == P_::ICMP_SLT || x.pred == P_::ICMP_SLE;
				if (sg && k >= pw(y.w - 1)) k -= pw(y.w); if (k > 1000) k = 1000; if (k < -1000) k = -1000; c = k.get_si();
				switch (x.pred) { case P_::ICMP_SGE: case P_::ICMP_UGE: case P_::ICMP_SLT: case P_::ICMP_ULT: return true; case P_::ICMP_SGT: case P_::ICMP_UGT: case P_::ICMP_SLE: case P_::ICMP_ULE: c++; return true; default: return false; }
			}
			if (x.dst >= 0) later.insert(x.dst);
		}
		return false;
	}
	V icmp(const Inst& i, State& s) {
		using P_ = llvm::CmpInst::Predicate; Box& b = s.b; unsigned w = i.w;
		V x = get(s, i.a, i), y = get(s, i.b, i);
		if (x.k == V::Ptr || y.k == V::Ptr) {
			if (x.k != V::Ptr || y.k != V::Ptr) leaf(LeafT::Unsupported, "pointer comparison", &i);
			if (x.obj != y.obj) { if (i.pred == llvm::CmpInst::ICMP_EQ) return mkC(0, 1); if (i.pred == llvm::CmpInst::ICMP_NE) return mkC(1, 1); leaf(LeafT::Unsupported, "pointer comparison", &i); }
			const Form* d = D.sub(x.f, y.f);
			switch (i.pred) { case P_::ICMP_EQ: return mkInt(boolEQ(d, b), 1); case P_::ICMP_NE: return mkInt(inv(boolEQ(d, b)), 1);
			case P_::ICMP_ULT: case P_::ICMP_SLT: return mkInt(boolLE(D.addc(d, 1), 64, b), 1); case P_::ICMP_ULE: case P_::ICMP_SLE: return mkInt(boolLE(d, 64, b), 1);
			case P_::ICMP_UGT: case P_::ICMP_SGT: return mkInt(inv(boolLE(d, 64, b)), 1); default: return mkInt(inv(boolLE(D.addc(d, 1), 64, b)), 1); }
		}
		x = geti(s, i.a, i); y = geti(s, i.b, i); const Form* f = x.f; const Form* g = y.f;
		// counting zeros: compare symbolically
		switch (i.pred) {
		case P_::ICMP_EQ: case P_::ICMP_NE: {
			const Form* d = D.sub(f, g); Z lo, hi; D.rangeTight(d, b, lo, hi);
			if (lo <= -pw(w) || hi >= pw(w)) d = D.sub(asU(f, w, b), asU(g, w, b));
			else if (lo < 0 && hi > 0 && (f->lo < 0 || g->lo < 0)) d = D.sub(asU(f, w, b), asU(g, w, b));
			else if (f->isConst() != g->isConst()) { const Form* k = f->isConst() ? f : g; const Form* o = f->isConst() ? g : f; Z ol, oh; D.range(o, b, ol, oh); if (ol < 0) { if (k->c >= pw(w - 1)) { Z kk = k->c - pw(w); d = D.addc(o, -kk); } } }
			const Form* r = boolEQ(d, b); return mkInt(i.pred == P_::ICMP_EQ ? r : inv(r), 1);
		}
		default: break;
		}
		bool sg = i.pred >= P_::ICMP_SGT; f = sg ? asS(f, w, b) : asU(f, w, b); g = sg ? asS(g, w, b) : asU(g, w, b);
		const Form* d = D.sub(f, g);
		switch (i.pred) {
		case P_::ICMP_ULE: case P_::ICMP_SLE: return mkInt(boolLE(d, w, b), 1);
		case P_::ICMP_ULT: case P_::ICMP_SLT: return mkInt(boolLE(D.addc(d, 1), w, b), 1);
		case P_::ICMP_UGT: case P_::ICMP_SGT: return mkInt(inv(boolLE(d, w, b)), 1);
		case P_::ICMP_UGE: case P_::ICMP_SGE: return mkInt(inv(boolLE(D.addc(d, 1), w, b)), 1);
		default: leaf(LeafT::Unsupported, "comparison", &i);
		}
	}
	bool truth(const V& v, State& s) { if (v.f->isConst()) return v.f->c != 0; return !D.decEQ(v.f, s.b); }

	// ------------------------------------------------------------ memory
	MemObj& own(State& s, int o) { auto& p = s.mem[o]; if (p.use_count() > 1) p = std::make_shared<MemObj>(*p); return *p; }
	void access(State& s, const V& p, uint64_t n, bool wr, const Inst& i, int64_t& off) {
		if (p.obj < 0) leaf(LeafT::UB, "access through a null pointer", &i);
		MemObj& o = *s.mem[p.obj]; if (!o.alive) leaf(LeafT::UB, "access to a dead object", &i);
		Z lo, hi; D.rangeTight(p.f, s.b, lo, hi); Z mx = Z((unsigned long)o.size) - Z((unsigned long)n);
		std::string nm = std::string("access outside ") + (o.name[0] ? o.name : "an object");
		if (hi < 0 || lo > mx) leaf(LeafT::UB, nm, &i);
		if (lo < 0 && D.decLE(D.addc(p.f, 1), s.b)) leaf(LeafT::UB, nm, &i);
		if (hi > mx && !D.decLE(D.addc(p.f, -mx), s.b)) leaf(LeafT::UB, nm, &i);
		if (wr && !o.writable) leaf(LeafT::UB, "write to a constant object", &i);
		off = concretise(p.f, s.b, 4096).get_si();
	}
	V fromBytesConst(const MemObj& o, uint64_t off, uint64_t n, int td, State& s) {
		const GlobalObj& G = P.globals[o.glob]; const TypeDesc& t = P.types[td];
		if (t.kind == 3) { std::vector<V> a; for (auto& f : t.f) a.push_back(fromBytesConst(o, off + f.first, P.types[f.second].size, f.second, s)); aggs.push_back(std::move(a)); V v; v.k = V::Agg; v.agg = &aggs.back(); return v; }
		if (t.kind == 1) { auto it = G.relocs.find(off); V v; v.k = V::Ptr; v.w = P.ptrBits; if (it != G.relocs.end()) { if (P.globals[it->second.first].isFn) { v.k = V::Fn; v.fn = P.globals[it->second.first].name.c_str(); return v; } v.obj = globalObj(it->second.first, s); v.f = D.cst(it->second.second); return v; } bool z = true; for (uint64_t i = 0; i < n; i++) z &= G.bytes[off + i] == 0; if (z) { v.obj = -1; v.f = D.cst(0); return v; } v.k = V::Undef; return v; }
		Z z = 0; for (uint64_t i = n; i-- > 0;) { z <<= 8; z += G.bytes[off + i]; if (G.undef[off + i]) { V v; v.k = V::Undef; v.w = t.w; return v; } }
		V v = mkInt(D.cst(t.w ? fmod_(z, pw(t.w)) : z), t.w); v.fp = t.kind == 2; return v;
	}
	const Form* byteRun(const V& v, unsigned idx, unsigned len, unsigned n, State& s) {
		const Form* f = asU(v.f, v.w, s.b); if (idx) f = D.floorDiv(f, pw(8 * idx));
		if (idx + len >= n) return f;
		const Form* q = D.floorDiv(f, pw(8 * len)); return rem(f, q, pw(8 * len));
	}
	V loadAt(State& s, MemObj& o, uint64_t off, uint64_t n, int td, const Inst& i) {
		const TypeDesc& t = P.types[td];
		if (t.kind == 3) { std::vector<V> a; for (auto& f : t.f) a.push_back(loadAt(s, o, off + f.first, P.types[f.second].size, f.second, i)); aggs.push_back(std::move(a)); V v; v.k = V::Agg; v.agg = &aggs.back(); return v; }
		if (t.kind == 9) leaf(LeafT::Unsupported, "load of this type", &i);
		if (o.glob >= 0) return fromBytesConst(o, off, n, td, s);
		if (o.glob < -1) leaf(LeafT::Unsupported, "read of mutable global state", &i);
		Cell& c0 = o.cells[off];
		bool whole = c0.def && c0.idx == 0 && c0.n == n; for (uint64_t q = 1; whole && q < n; q++) { Cell& c = o.cells[off + q]; whole = c.def && c.idx == q && c.n == n && c.v.f == c0.v.f && c.v.obj == c0.v.obj && c.v.k == c0.v.k; }
		if (whole) {
			V v = c0.v; if (v.k == V::Int) { if (t.kind == 1) leaf(LeafT::Unsupported, "integer read as a pointer", &i); if (t.w < v.w) v.f = norm(v.f, t.w, s.b); v.w = t.w; v.fp = t.kind == 2; }
			else if (v.k == V::Ptr && t.kind != 1) leaf(LeafT::Unsupported, "pointer read as an integer", &i);
			return v;
		}
		bool any = false, all = true; for (uint64_t q = 0; q < n; q++) { if (o.cells[off + q].def && (o.cells[off + q].v.k == V::Int)) any = true; else all = false; }
		if (!any) { V v; v.k = V::Undef; v.w = t.w; return v; }
		if (t.kind == 1) leaf(LeafT::Unsupported, "pointer assembled from parts", &i);
		if (!all) { std::vector<V> a; for (uint64_t q = 0; q < n; q++) { Cell& c = o.cells[off + q]; V x; if (c.def && c.v.k == V::Int) x = mkInt(byteRun(c.v, c.idx, 1, c.n, s), 8); a.push_back(x); } aggs.push_back(std::move(a)); V v; v.k = V::Bytes; v.w = t.w; v.agg = &aggs.back(); return v; }
		const Form* r = D.cst(0);
		for (uint64_t q = 0; q < n;) { Cell& c = o.cells[off + q]; uint64_t e = q + 1; while (e < n && o.cells[off + e].v.f == c.v.f && o.cells[off + e].n == c.n && o.cells[off + e].idx == c.idx + (e - q)) e++; r = D.add(r, D.scale(byteRun(c.v, c.idx, (unsigned)(e - q), c.n, s), pw(8 * (unsigned)q))); q = e; }
		V v = mkInt(t.w < 8 * n ? norm(r, t.w, s.b) : r, t.w); v.fp = t.kind == 2; return v;
	}
	void storeAt(State& s, MemObj& o, uint64_t off, V v, int td, const Inst& i) {
		const TypeDesc& t = P.types[td];
		if (t.kind == 3) { if (v.k == V::Agg) { for (size_t q = 0; q < t.f.size(); q++) storeAt(s, o, off + t.f[q].first, (*v.agg)[q], t.f[q].second, i); return; } for (uint64_t q = 0; q < t.size; q++) o.cells[off + q] = Cell(); return; }
		if (t.kind == 9) leaf(LeafT::Unsupported, "store of this type", &i);
		uint64_t n = t.size;
		if (v.k == V::Bytes) { for (uint64_t q = 0; q < n; q++) { Cell c; if ((*v.agg)[q].k == V::Int) { c.v = (*v.agg)[q]; c.n = 1; c.def = true; } o.cells[off + q] = c; } return; }
		if (v.k == V::Undef || v.k == V::Poison) { for (uint64_t q = 0; q < n; q++) o.cells[off + q] = Cell(); return; }
		for (uint64_t q = 0; q < n; q++) { Cell& c = o.cells[off + q]; c.v = v; c.idx = (uint8_t)q; c.n = (uint8_t)n; c.def = true; }
	}
	// load from a constant table at an offset that is not constant
	V tableLoad(State& s, const V& p, const Inst& i) {
		MemObj& o = *s.mem[p.obj]; const TypeDesc& t = P.types[i.b]; if (t.kind != 0) leaf(LeafT::Unsupported, "table load", &i);
		Z g = 0; for (auto& x : p.f->m) g = zgcd(g, x.c);
		std::vector<Mono> m = p.f->m; for (auto& x : m) x.c /= g; Z c0 = fmod_(p.f->c, g); const Form* q = D.mk(std::move(m), (p.f->c - c0) / g);
		Z lo, hi; D.rangeTight(p.f, s.b, lo, hi); { Z mx = Z((unsigned long)o.size) - Z((unsigned long)i.size); if (lo < 0) lo = 0; if (hi > mx) hi = mx; } // the caller has established these bounds
		Z a = cdiv(lo - c0, g), z = fdiv(hi - c0, g);
		if (z - a > 4096) throw Undecided{ "table range" };
		long n = Z(z - a).get_si() + 1; std::vector<Z> val; for (long k = 0; k < n; k++) { Z off = (a + k) * g + c0; V v = fromBytesConst(o, off.get_ui(), i.size, i.b, s); if (v.k != V::Int) throw Undecided{ "table contents" }; val.push_back(v.f->c); }
		const Form* r = fitTable(q, a, val, s.b);
		return mkInt(norm(r, t.w, s.b), t.w);
	}
	const Form* fitTable(const Form* q, Z a, const std::vector<Z>& val, Box& b) {
		size_t n = val.size();
		if (n == 1) return D.cst(val[0]);
		// candidates: v = c + k*floor(q/m) ,  c + k*(q mod m)
		size_t bestBad = n; const Form* best = nullptr; std::vector<size_t> bestEx;
		auto tryf = [&](const std::function<Z(size_t)>& f, const std::function<const Form*()>& mkf) {
			std::vector<size_t> ex; for (size_t k = 0; k < n && ex.size() < bestBad; k++) if (f(k) != val[k]) ex.push_back(k);
			if (ex.size() < bestBad) { bestBad = ex.size(); bestEx = ex; best = mkf(); }
		};
		tryf([&](size_t) { return val[n / 2]; }, [&]() { return D.cst(val[n / 2]); });
		size_t md = n / 2; Z k1 = val[md] - val[md - 1]; 
		tryf([&](size_t k) { return Z(val[md] + k1 * (Z((unsigned long)k) - Z((unsigned long)md))); }, [&]() { return D.lin(q, k1, q, 0, val[md] - k1 * (a + Z((unsigned long)md))); });
		if (bestBad) for (long mm : { 10L, 100L, 1000L, 10000L, 2L, 4L, 5L, 8L, 16L, 256L }) {
			Z m = mm; auto A = [&](size_t k) { return Z(a + Z((unsigned long)k)); };
			// slopes and constants from a majority guess: use three positions
			for (size_t p0 : { (size_t)0, n / 3, n / 2 }) {
				if (p0 + 1 >= n) continue;
				Z qd = fdiv(A(p0), m), rd = A(p0) - qd * m;
				for (int kk : { 1, 256, -1 }) {
					Z c = val[p0] - kk * qd; tryf([&](size_t k) { return Z(c + kk * fdiv(A(k), m)); }, [&]() { return D.lin(D.floorDiv(q, m), kk, q, 0, c); });
					Z c2 = val[p0] - kk * rd; tryf([&](size_t k) { return Z(c2 + kk * fmod_(A(k), m)); }, [&]() { return D.lin(D.sub(q, D.scale(D.floorDiv(q, m), m)), kk, q, 0, c2); });
				}
				// two-byte digit pairs, either order
				for (int ord = 0; ord < 2; ord++) { int k1_ = ord ? 256 : 1, k2_ = ord ? 1 : 256; Z c = val[p0] - k1_ * qd - k2_ * rd; tryf([&](size_t k) { return Z(c + k1_ * fdiv(A(k), m) + k2_ * fmod_(A(k), m)); }, [&]() { const Form* fl = D.floorDiv(q, m); return D.add(D.lin(fl, k1_, q, k2_, c), D.scale(fl, -k2_ * m)); }); }
			}
			if (!bestBad) break;
		}
		if (bestBad == 0) return best;
		if (bestBad <= 6 && n > 12) { for (size_t e : bestEx) if (D.decEQ(D.addc(q, -(a + Z((unsigned long)e))), b)) return D.cst(val[e]); return best; }
		size_t h = n / 2; // bisect
		if (D.decLE(D.addc(q, -(a + Z((unsigned long)h) - 1)), b)) return fitTable(q, a, std::vector<Z>(val.begin(), val.begin() + h), b);
		return fitTable(q, a + Z((unsigned long)h), std::vector<Z>(val.begin() + h, val.end()), b);
	}
	void memcopy(State& s, const Inst& i) {
		V d = getp(s, i.a, i), sr = getp(s, i.b, i); Z n = concretise(asU(geti(s, i.c, i).f, P.ptrBits, s.b), s.b); if (n == 0) return;
		uint64_t N = n.get_ui(); int64_t so, do_;
		std::vector<Cell> tmp(N);
		if (sr.obj < 0) leaf(LeafT::UB, "copy from a null pointer", &i);
		MemObj& src = *s.mem[sr.obj];
		Z lo, hi; D.rangeTight(sr.f, s.b, lo, hi);
		if (src.glob >= 0 && lo != hi) {
			// symbolic source in a constant table: byte by byte
			Z mx = Z((unsigned long)src.size) - n; std::string nm = std::string("read outside ") + src.name;
			checkRange(sr.f, 0, mx, s.b, i, "read outside a constant table");
			static thread_local std::map<Program*, int> i8t; int td = byteType();
			for (uint64_t q = 0; q < N; q++) { Inst li = i; li.b = td; li.size = 1; V p = sr; p.f = D.addc(sr.f, Z((unsigned long)q)); V v = tableLoad(s, p, li); tmp[q].v = v; tmp[q].idx = 0; tmp[q].n = 1; tmp[q].def = true; }
		}
		else {
			access(s, sr, N, false, i, so);
			if (src.glob >= 0) { int td = byteType(); for (uint64_t q = 0; q < N; q++) { V v = fromBytesConst(src, so + q, 1, td, s); if (v.k == V::Int) { tmp[q].v = v; tmp[q].n = 1; tmp[q].def = true; } } }
			else if (src.glob < -1) leaf(LeafT::Unsupported, "read of mutable global state", &i);
			else for (uint64_t q = 0; q < N; q++) tmp[q] = src.cells[so + q];
		}
		access(s, d, N, true, i, do_);
		if (i.op == Op::MemCpy && d.obj == sr.obj && src.glob == -1 && do_ < so + (int64_t)N && so < do_ + (int64_t)N && do_ != so) leaf(LeafT::UB, "overlapping copy", &i);
		MemObj& o = own(s, d.obj); for (uint64_t q = 0; q < N; q++) o.cells[do_ + q] = tmp[q];
	}
	int byteType_ = -1;
	int byteType() { if (byteType_ < 0) { for (size_t i = 0; i < P.types.size(); i++) if (P.types[i].kind == 0 && P.types[i].w == 8) byteType_ = (int)i; } if (byteType_ < 0) throw Undecided{ "no byte type" }; return byteType_; }

	int newObj(State& s, uint64_t size, const char* name) { auto o = std::make_shared<MemObj>(); o->size = size; o->cells.resize(size); o->name = name; s.mem.push_back(o); return (int)s.mem.size() - 1; }
	V ptr(int obj) { V v; v.k = V::Ptr; v.w = P.ptrBits; v.obj = obj; v.f = D.cst(0); return v; }

	void enter(State& s, int blk) {
		Frame& f = s.fr.back(); f.prev = f.blk; f.blk = blk; f.ip = 0; const BlockI& B = f.fn->blocks[blk];
		if (!B.phis.empty()) {
			std::vector<V> t; t.reserve(B.phis.size());
			for (auto& p : B.phis) { V v; bool ok = false; for (auto& in : p.in) if (in.first == f.prev) { v = in.second < 0 && in.second != INT32_MIN ? constV(in.second, s) : f.r[in.second]; ok = true; break; } if (!ok) leaf(LeafT::Unsupported, "phi"); t.push_back(v); }
			for (size_t q = 0; q < t.size(); q++) f.r[B.phis[q].dst] = t[q];
		}
	}
	void call(State& s, const FnI* fn, std::vector<V>&& args, int dst, int normal) {
		if (s.fr.size() > 60) leaf(LeafT::Limit, "call depth");
		Frame f; f.fn = fn; f.r.resize(fn->nregs); for (size_t i = 0; i < args.size() && i < (size_t)fn->nargs; i++) f.r[i] = args[i]; f.dst = dst; f.normal = normal; f.blk = 0; f.ip = 0; s.fr.push_back(std::move(f)); coveredFns.insert(fn->name);
	}
	// one instruction; may throw Split (state must be as before), LeafExc, Undecided
	void step(State& s) {
		Frame& F = s.fr.back(); const Inst& i = F.fn->blocks[F.blk].ins[F.ip];
		covered.insert(&i);
		auto set = [&](const V& v) { if (i.dst >= 0) s.fr.back().r[i.dst] = v; s.fr.back().ip++; };
		switch (i.op) {
		case Op::Add: case Op::Sub: case Op::Mul: case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem: case Op::Shl: case Op::LShr: case Op::AShr: case Op::And: case Op::Or: case Op::Xor: {
			// a use of undef that only produces undef is tolerated until it matters
			V a = get(s, i.a, i), c = get(s, i.b, i);
			if (a.k == V::Bytes && (i.op == Op::LShr || i.op == Op::And || i.op == Op::Or || i.op == Op::Shl)) { set(bytesOp(i, a, c, s)); break; }
			if (c.k == V::Bytes && i.op == Op::Or) { set(bytesOp(i, c, a, s)); break; }
			set(binop(i, s)); break;
		}
		case Op::ICmp: set(icmp(i, s)); break;
		case Op::Select: {
			V c = geti(s, i.a, i); V x = get(s, i.b, i), y = get(s, i.c, i);
			if (!c.f->isConst() && x.k == V::Int && y.k == V::Int && !x.fp) {
				if (x.f == y.f) { set(x); break; }
				if (D.sub(x.f, y.f)->isConst()) { set(mkInt(D.lin(c.f, D.sub(x.f, y.f)->c, y.f, 1, 0), x.w)); break; }
				if (x.f->isConst() && y.f->isConst()) { set(mkInt(D.lin(c.f, x.f->c - y.f->c, c.f, 0, y.f->c), x.w)); break; }
			}
			set(truth(c, s) ? x : y); break;
		}
		case Op::ZExt: { V a = geti(s, i.a, i); set(mkInt(asU(a.f, a.w, s.b), i.w)); break; }
		case Op::SExt: { V a = geti(s, i.a, i); const Form* f = asS(a.f, a.w, s.b); set(mkInt(f->isConst() ? D.cst(fmod_(f->c, pw(i.w))) : f, i.w)); break; }
		case Op::Trunc: { V a = get(s, i.a, i); if (a.k == V::Bytes) { set(bytesTrunc(a, i.w, i)); break; } a = geti(s, i.a, i); set(mkInt(norm(a.f, i.w, s.b), i.w)); break; }
		case Op::Move: { V a = get(s, i.a, i); if (a.k == V::Int) { a.fp = i.kind == 2; if (i.kind == 0 || i.kind == 2) a.w = i.w; } set(a); break; }
		case Op::Freeze: { V a = get(s, i.a, i); if (a.k == V::Undef || a.k == V::Poison) leaf(LeafT::UB, "use of an uninitialised value", &i); set(a); break; }
		case Op::Br: enter(s, i.ex[0]); break;
		case Op::CondBr: { V c = geti(s, i.a, i); bool t = truth(c, s); s.trace.push_back((i.file << 20 | i.line) << 1 | (t ? 1 : 0)); lines.insert({ i.file, i.line }); enter(s, t ? i.ex[0] : i.ex[1]); break; }
		case Op::Switch: {
			V c = geti(s, i.a, i); int to = i.ex[0];
			if (c.f->isConst()) { for (size_t q = 0; q < i.exz.size(); q++) if (i.exz[q] == c.f->c) to = i.ex[q + 1]; }
			else { const Form* u = asU(c.f, c.w, s.b); for (size_t q = 0; q < i.exz.size(); q++) if (D.decEQ(D.addc(u, -i.exz[q]), s.b)) { to = i.ex[q + 1]; break; } }
			s.trace.push_back((i.file << 20 | i.line) << 1 | 1); enter(s, to); break;
		}
		case Op::Ret: {
			V v; if (i.a != INT32_MIN) v = get(s, i.a, i);
			for (int a : F.allocas) own(s, a).alive = false;
			if (s.fr.size() == 1) { s.ret = v; leaf(LeafT::Ret, "", &i); }
			int dst = F.dst, normal = F.normal; s.fr.pop_back(); if (dst >= 0) s.fr.back().r[dst] = v;
			if (normal >= 0) enter(s, normal); else s.fr.back().ip++;
			break;
		}
		case Op::Alloca: { int o = newObj(s, i.size, "a local object"); s.fr.back().allocas.push_back(o); set(ptr(o)); break; }
		case Op::Load: {
			V p = getp(s, i.a, i); int64_t off;
			if (p.obj >= 0 && s.mem[p.obj]->glob >= 0) { Z lo, hi; D.rangeTight(p.f, s.b, lo, hi); if (lo != hi) { checkRange(p.f, 0, Z((unsigned long)s.mem[p.obj]->size) - Z((unsigned long)i.size), s.b, i, "read outside a constant table"); set(tableLoad(s, p, i)); break; } }
			access(s, p, i.size, false, i, off); set(loadAt(s, *s.mem[p.obj], off, i.size, i.b, i)); break;
		}
		case Op::Store: { V v = get(s, i.a, i); V p = getp(s, i.b, i); int64_t off; access(s, p, i.size, true, i, off); if (s.mem[p.obj]->glob < -1) leaf(LeafT::Unsupported, "write to mutable global state", &i); storeAt(s, own(s, p.obj), off, v, i.c, i); set(V()); break; }
		case Op::Gep: {
			V p = get(s, i.a, i); if (p.k != V::Ptr) { if (p.k == V::Undef || p.k == V::Poison) { set(p); break; } leaf(LeafT::Unsupported, "address arithmetic", &i); }
			const Form* f = D.addc(p.f, i.exz[0]);
			for (size_t q = 0; q * 2 < i.ex.size(); q++) { V x = geti(s, i.ex[2 * q], i); f = D.lin(f, 1, asS(x.f, x.w, s.b), i.exz[q + 1], 0); }
			if (p.obj >= 0 && (i.flags & 1)) { Z lo, hi; D.rangeTight(f, s.b, lo, hi); Z sz = (unsigned long)s.mem[p.obj]->size; if (lo > sz || hi < 0) leaf(LeafT::UB, std::string("pointer outside ") + (s.mem[p.obj]->name[0] ? s.mem[p.obj]->name : "an object"), &i); }
			p.f = f; set(p); break;
		}
		case Op::Extract: { V a = get(s, i.a, i); for (int x : i.ex) { if (a.k != V::Agg) { V u; u.k = V::Undef; a = u; break; } V t = (*a.agg)[x]; a = t; } set(a); break; }
		case Op::Insert: { V a = get(s, i.a, i); V v = get(s, i.b, i); set(insertAgg(a, v, i.ex, 0, i.c)); break; }
		case Op::MemCpy: case Op::MemMove: { memcopy(s, i); V d = get(s, i.a, i); set(i.dst >= 0 ? d : V()); break; }
		case Op::MemSet: { V d = getp(s, i.a, i); V v = geti(s, i.b, i); Z n = concretise(asU(geti(s, i.c, i).f, P.ptrBits, s.b), s.b); int64_t off; if (n > 0) { access(s, d, n.get_ui(), true, i, off); MemObj& o = own(s, d.obj); for (uint64_t q = 0; q < n.get_ui(); q++) { Cell c; c.v = mkInt(norm(v.f, 8, s.b), 8); c.n = 1; c.def = true; o.cells[off + q] = c; } } set(i.dst >= 0 ? d : V()); break; }
		case Op::UMin: case Op::UMax: case Op::SMin: case Op::SMax: {
			V a = geti(s, i.a, i), c = geti(s, i.b, i); bool sg = i.op == Op::SMin || i.op == Op::SMax; const Form* f = sg ? asS(a.f, a.w, s.b) : asU(a.f, a.w, s.b); const Form* g = sg ? asS(c.f, c.w, s.b) : asU(c.f, c.w, s.b);
			bool le = D.decLE(D.sub(f, g), s.b); bool mn = i.op == Op::UMin || i.op == Op::SMin; set(le == mn ? a : c); break;
		}
		case Op::Abs: { V a = geti(s, i.a, i); const Form* f = asS(a.f, a.w, s.b); bool neg = D.decLE(D.addc(f, 1), s.b); const Form* r = neg ? D.scale(f, -1) : f; set(mkInt(norm(r, a.w, s.b), a.w)); break; }
		case Op::AddOv: case Op::SubOv: case Op::MulOv: {
			V a = geti(s, i.a, i), c = geti(s, i.b, i); unsigned w = i.w; bool sg = i.flags == 2; const Form* f = sg ? asS(a.f, w, s.b) : asU(a.f, w, s.b); const Form* g = sg ? asS(c.f, w, s.b) : asU(c.f, w, s.b);
			const Form* r = i.op == Op::MulOv ? mulF(f, g, s.b) : D.lin(f, 1, g, i.op == Op::AddOv ? 1 : -1, 0);
			const Form* n = norm(r, w, s.b); const Form* ov; Z lo = sg ? Z(-pw(w - 1)) : Z(0), hi = sg ? Z(pw(w - 1) - 1) : Z(pw(w) - 1);
			const Form* above = inv(boolLE(D.addc(r, -hi), w, s.b)); const Form* below = boolLE(D.addc(r, 1 - lo), w, s.b); ov = D.add(above, below);
			std::vector<V> ag{ mkInt(n, w), mkInt(ov, 1) }; aggs.push_back(ag); V v; v.k = V::Agg; v.agg = &aggs.back(); set(v); break;
		}
		case Op::Cttz: { V a = geti(s, i.a, i); V z = geti(s, i.b, i); const Form* f = asU(a.f, a.w, s.b);
			if (D.decEQ(f, s.b)) { if (z.f->c != 0) leaf(LeafT::UB, "count of trailing zeros of 0", &i); set(mkC(a.w, i.w)); break; }
			// only compared with a number: then the two sides of that comparison are enough
			{ long c; if (onlyCompared(s, i, c)) { if (c <= 0 || c > (long)a.w) { set(mkC(0, i.w)); break; } const Form* q = D.floorDiv(f, pw(c)); set(mkC(D.decEQ(D.lin(f, 1, q, -pw(c), 0), s.b) ? c : 0, i.w)); break; } }
			// walk up: smallest k with f mod 2^(k+1) != 0
			unsigned k = tz(f); if (k > a.w) k = a.w;
			while (k < a.w) { const Form* q = D.floorDiv(f, pw(k + 1)); const Form* r = D.lin(f, 1, q, -pw(k + 1), 0); if (!D.decEQ(r, s.b)) break; k++; }
			set(mkC(k, i.w)); break; }
		case Op::Ctlz: { V a = geti(s, i.a, i); V z = geti(s, i.b, i); const Form* f = asU(a.f, a.w, s.b);
			if (D.decEQ(f, s.b)) { if (z.f->c != 0) leaf(LeafT::UB, "count of leading zeros of 0", &i); set(mkC(a.w, i.w)); break; }
			unsigned lo = 0, hi = a.w - 1; // bit length - 1
			while (lo < hi) { unsigned mid = (lo + hi) / 2; if (D.decLE(D.addc(f, 1 - pw(mid + 1)), s.b)) hi = mid; else lo = mid + 1; }
			set(mkC(a.w - 1 - lo, i.w)); break; }
		case Op::Fshl: case Op::Fshr: {
			V a = geti(s, i.a, i), c = geti(s, i.b, i); unsigned w = a.w; unsigned k = (unsigned)Z(concretise(asU(geti(s, i.c, i).f, w, s.b), s.b) % w).get_ui();
			const Form* hi = asU(a.f, w, s.b); const Form* lo = asU(c.f, w, s.b);
			if (k == 0) { set(i.op == Op::Fshl ? a : c); break; }
			unsigned left = i.op == Op::Fshl ? k : w - k;
			const Form* r = D.add(D.scale(hi, pw(left)), D.floorDiv(lo, pw(w - left))); set(mkInt(norm(r, w, s.b), w)); break;
		}
		case Op::PtrToInt: leaf(LeafT::Unsupported, "pointer converted to an integer", &i);
		case Op::Assume: { V a = geti(s, i.a, i); if (!truth(a, s)) leaf(LeafT::UB, "violated assumption", &i); set(V()); break; }
		case Op::Nop: s.fr.back().ip++; break;
		case Op::Unreachable: leaf(LeafT::UB, "unreachable code reached", &i);
		case Op::Call: {
			if (i.s == "__assert_fail" || i.s == "abort" || i.s == "_ZSt9terminatev" || i.s == "exit" || i.s == "__cxa_throw" || i.s == "_ZSt17__throw_bad_allocv") {
				std::string m = i.s;
				if (i.s == "__assert_fail" && !i.ex.empty()) { V p = get(s, i.ex[0], i); if (p.k == V::Ptr && p.obj >= 0 && s.mem[p.obj]->glob >= 0) { m = "assertion failed: "; for (uint64_t q = 0; q < s.mem[p.obj]->size; q++) { char ch = (char)P.globals[s.mem[p.obj]->glob].bytes[q]; if (!ch) break; m += ch; } } }
				leaf(LeafT::Abort, m, &i);
			}
			auto it = P.fns.find(i.s); if (it == P.fns.end()) leaf(LeafT::Unsupported, "call of external " + i.s, &i);
			std::vector<V> args; for (int o : i.ex) args.push_back(get(s, o, i));
			call(s, it->second.get(), std::move(args), i.dst, (i.flags & 16) ? (int)i.exz[0].get_si() : -1); break;
		}
		default: leaf(LeafT::Unsupported, i.s.empty() ? "operation" : i.s, &i);
		}
	}
	V insertAgg(const V& a, const V& v, const std::vector<int>& ix, size_t d, int td) {
		if (d == ix.size()) return v;
		std::vector<V> n; const TypeDesc& t = P.types[td];
		if (a.k == V::Agg) n = *a.agg; else n.resize(t.f.size());
		n[ix[d]] = insertAgg(n[ix[d]], v, ix, d + 1, t.f[ix[d]].second);
		aggs.push_back(std::move(n)); V r; r.k = V::Agg; r.agg = &aggs.back(); return r;
	}
	// values with some undefined bytes
	V bytesTrunc(const V& a, unsigned w, const Inst& i) {
		if (w % 8) leaf(LeafT::UB, "use of an uninitialised value", &i);
		std::vector<V> n(a.agg->begin(), a.agg->begin() + w / 8); return packBytes(std::move(n), w);
	}
	V packBytes(std::vector<V>&& n, unsigned w) {
		bool all = true; for (auto& x : n) all &= x.k == V::Int;
		if (all) { const Form* r = D.cst(0); for (size_t q = 0; q < n.size(); q++) r = D.add(r, D.scale(n[q].f, pw(8 * (unsigned)q))); return mkInt(r, w); }
		aggs.push_back(std::move(n)); V v; v.k = V::Bytes; v.w = w; v.agg = &aggs.back(); return v;
	}
	V bytesOp(const Inst& i, const V& a, const V& c, State& s) {
		if (c.k != V::Int) leaf(LeafT::UB, "use of an uninitialised value", &i);
		unsigned w = i.w, nb = w / 8; std::vector<V> n(nb);
		if (i.op == Op::LShr || i.op == Op::Shl) {
			unsigned k = (unsigned)concretise(c.f, s.b).get_ui(); if (k % 8) leaf(LeafT::UB, "use of an uninitialised value", &i); k /= 8;
			for (unsigned q = 0; q < nb; q++) { int from = i.op == Op::LShr ? (int)(q + k) : (int)q - (int)k; if (from < 0 || from >= (int)nb) n[q] = mkC(0, 8); else n[q] = (*a.agg)[from]; }
			return packBytes(std::move(n), w);
		}
		if (!c.f->isConst()) leaf(LeafT::UB, "use of an uninitialised value", &i);
		for (unsigned q = 0; q < nb; q++) {
			Z m = fmod_(fdiv(c.f->c, pw(8 * q)), 256); const V& x = (*a.agg)[q];
			if (i.op == Op::And) { if (m == 0) n[q] = mkC(0, 8); else if (m == 255) n[q] = x; else if (x.k == V::Int) n[q] = mkInt(andConst(x.f, m, 8, s.b), 8); else n[q] = V(); }
			else { if (m == 0) n[q] = x; else if (m == 255) n[q] = mkC(255, 8); else if (x.k == V::Int) { const Form* an = andConst(x.f, m, 8, s.b); n[q] = mkInt(D.lin(x.f, 1, an, -1, m), 8); } else n[q] = V(); }
		}
		return packBytes(std::move(n), w);
	}

	// ------------------------------------------------------------ exploration
	std::function<bool(State&)> isVoid; long nvoid = 0; // drops paths with no input behind them
	// onLeaf may throw Split/Undecided; onUndecided receives states the domain could not decide
	void explore(State init, const std::function<void(State&)>& onLeaf, const std::function<void(State&, Undecided&)>& onUnd) {
		std::vector<State> work; work.push_back(std::move(init));
		while (!work.empty()) {
			State s = std::move(work.back()); work.pop_back();
			try {
				while (true) {
					if (nleaves > maxLeaves || (now && now() > tEnd)) { Undecided u{ "too many cases" }; onUnd(s, u); break; }
					try {
						if (!s.leaf) {
							if (++s.steps > maxSteps) { s.leaf = true; s.lt = LeafT{ LeafT::Limit, "step limit" }; const Inst& i = s.fr.back().fn->blocks[s.fr.back().blk].ins[s.fr.back().ip]; s.lt.file = i.file; s.lt.line = i.line; s.lt.fn = i.fn; continue; }
							if (s.steps % 4000 == 0 && isVoid && isVoid(s)) { nvoid++; break; }
							nsteps++;
							step(s);
						}
						else { onLeaf(s); nleaves++; break; }
					}
					catch (LeafExc& l) { s.leaf = true; s.lt = l.t; }
				}
			}
			catch (Split& sp) {
				for (size_t q = 0; q < sp.boxes.size(); q++) {
					State c = (q + 1 == sp.boxes.size()) ? std::move(s) : s; c.b = std::move(sp.boxes[q]); work.push_back(std::move(c));
				}
			}
			catch (Undecided& u) {
				std::vector<Box> pts; if (D.points(s.b, pts)) { for (auto& x : pts) { State c = s; c.b = std::move(x); work.push_back(std::move(c)); } }
				else { nleaves++; onUnd(s, u); }
			}
		}
	}
};
