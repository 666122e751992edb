#include "spec.h"
#include "witness.h"
#include "pool.h"
#include "effects.h"
#include <llvm/IR/DebugInfo.h>
#include <functional>
#include <thread>
#include <mutex>
#include <atomic>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

struct Viol { std::string rule, what, where, input, detail; };
struct PartResult {
	long leaves = 0, proved = 0, undecided = 0, unconfirmed = 0, points = 0, steps = 0, splits = 0, unsupported = 0, emptyb = 0; double secs = 0;
	std::vector<Viol> viol; std::map<std::string, long> undWhy; std::map<std::string, long> ruleOk;
};

struct Job { std::string kind, fn; bool dbl = true; Mode mode = NTE; Crs crs = EVEN; bool sgnd = true; std::vector<int> Es; std::vector<char> which; std::string id, rules; int npair() const { size_t k = rules.find(":"); return k == std::string::npos ? 2 : atoi(rules.c_str() + k + 1); } bool want(const char* r) const { return rules.empty() || rules.find(r) != std::string::npos; } };

struct Runner {
	Program& P; Machine M; bool verbose = false;
	std::set<std::pair<int, int>> lines; std::set<std::string> fns;
	explicit Runner(Program& p) : P(p), M(p) {}

	std::string where(const LeafT& l) { std::string f = l.file >= 0 && l.file < (int)P.files.size() ? P.files[l.file] : ""; size_t k = f.rfind('/'); if (k != std::string::npos) f = f.substr(k + 1); return f + ":" + std::to_string(l.line) + (l.fn && *l.fn ? std::string(" in ") + l.fn : ""); }
	std::string hex(const Z& z) { return "0x" + z.get_str(16); }

	int tI64 = -1, tI32 = -1, tI8 = -1;
	void types() { for (size_t i = 0; i < P.types.size(); i++) if (P.types[i].kind == 0) { if (P.types[i].w == 64) tI64 = (int)i; if (P.types[i].w == 32) tI32 = (int)i; if (P.types[i].w == 8) tI8 = (int)i; } }

	struct Setup { State s; int oSig, oExp, oNeg; const Form* sgnF; const Form* nF; };
	static int textLen(int E) { return E / 4096; }
	static long textExp(int E) { return E % 4096 - 2048; }
	// the longest text, with its terminator where there is one
	static int bufSize(const Job& j) { return (j.dbl ? 24 : 15) + (j.sgnd ? 0 : 1); }
	int BUF = 0;
	Setup init(const Job& j, const Part& p, bool point, const Z& n, int sg) {
		M.reset(); Setup u; State& s = u.s; Dom& D = M.D; const Fmt& F = *p.f; BUF = bufSize(j);
		if (j.kind == "text") { // (bits of +-1, significand, exponent, buffer)
			const Form* sigF; s.b = Box();
			if (point) { u.nF = sigF = D.cst(n); D.var(n, n); D.var(sg, sg); s.b.v = { { n, n }, { sg, sg } }; u.sgnF = D.cst(sg); }
			else { int a = D.var(p.nlo, p.nhi); int b = D.var(p.slo, p.shi); s.b.v = D.vinit; u.nF = sigF = D.tf(a); u.sgnF = p.slo == p.shi ? D.cst(p.slo) : D.tf(b); }
			auto it = P.fns.find(j.fn); if (it == P.fns.end()) throw std::runtime_error("no function " + j.fn);
			u.oSig = M.newObj(s, BUF, "a buffer for the longest text");
			std::vector<V> args{ M.mkInt(D.lin(u.sgnF, pow2(F.w - 1), u.sgnF, 0, pow2(F.p) * F.bias), F.w), M.mkInt(sigF, F.w), M.mkInt(D.cst(fmod_(Z(textExp(p.E)), pow2(32))), 32), M.ptr(u.oSig) };
			M.call(s, it->second.get(), std::move(args), -1, -1); return u;
		}
		if (helper(j.kind)) {
			const Form* nF; s.b = Box(); D.var(point ? n : p.nlo, point ? n : p.nhi); D.var(0, 0); s.b.v = D.vinit; u.nF = nF = point ? D.cst(n) : D.tf(0); u.sgnF = D.cst(0);
			auto it = P.fns.find(j.fn); if (it == P.fns.end()) throw std::runtime_error("no function " + j.fn); u.oSig = M.newObj(s, 16, "out"); std::vector<V> args; auto cint = [&](long x) { return M.mkInt(D.cst(fmod_(Z(x), pow2(32))), 32); };
			if (j.kind == "cache") args.push_back(cint(p.E - 2000));
			else if (j.kind == "log") { const Form* e = D.addc(nF, -logRange(p.E)); args.push_back(M.mkInt(e->isConst() ? D.cst(fmod_(e->c, pow2(32))) : e, 32)); }
			else { args.push_back(M.mkInt(nF, F.w)); args.push_back(cint(p.E)); }
			args.push_back(M.ptr(u.oSig)); M.call(s, it->second.get(), std::move(args), -1, -1); return u;
		}
		s.b = Box(); const Form* bits; Z base = pow2(F.p) * p.E;
		if (point) {
			u.nF = D.cst(n); D.var(n, n); D.var(sg, sg); s.b.v = { { n, n }, { sg, sg } };
			bits = D.cst(base + n + (sg ? pow2(F.w - 1) : Z(0))); u.sgnF = D.cst(sg);
		} else {
			int a = D.var(p.nlo, p.nhi); int b = D.var(p.slo, p.shi); s.b.v = D.vinit; s.b.cm = p.step;
			u.nF = D.tf(a); u.sgnF = p.slo == p.shi ? D.cst(p.slo) : D.tf(b);
			bits = D.lin(D.tf(a), 1, u.sgnF, pow2(F.w - 1), base);
		}
		auto it = P.fns.find(j.fn); if (it == P.fns.end()) throw std::runtime_error("no function " + j.fn);
		if (j.kind == "chars") {
			u.oSig = M.newObj(s, BUF, "a buffer for the longest text");
			std::vector<V> args{ M.mkInt(bits, F.w), M.ptr(u.oSig) }; M.call(s, it->second.get(), std::move(args), -1, -1); return u;
		}
		if (j.kind == "pair") { u.oSig = M.newObj(s, 16 * j.npair(), "out"); std::vector<V> args{ M.mkInt(bits, F.w), M.ptr(u.oSig) }; M.call(s, it->second.get(), std::move(args), -1, -1); return u; }
		if (j.kind == "bits") {
			u.oSig = M.newObj(s, 8 * 15, "out");
			std::vector<V> args{ M.mkInt(bits, F.w), M.ptr(u.oSig) }; M.call(s, it->second.get(), std::move(args), -1, -1); return u;
		}
		u.oSig = M.newObj(s, 8, "sig"); u.oExp = M.newObj(s, 4, "exp"); u.oNeg = M.newObj(s, 1, "neg");
		std::vector<V> args{ M.mkInt(bits, F.w), M.ptr(u.oSig), M.ptr(u.oExp), M.ptr(u.oNeg) };
		M.call(s, it->second.get(), std::move(args), -1, -1);
		return u;
	}
	// the helpers by themselves
	static Z power(int k, int w, bool up) { Q q = k >= 0 ? Q(zpow(10, k)) : Q(1) / Q(zpow(10, -k)); long s = w - (long)mpz_sizeinbase(q.get_num_mpz_t(), 2) + (long)mpz_sizeinbase(q.get_den_mpz_t(), 2); if (s >= 0) q *= Q(pow2(s)); else q /= Q(pow2(-s)); if (q >= Q(pow2(w))) q /= 2; if (q < Q(pow2(w - 1))) q *= 2; return up ? qceil(q) : qfloor(q); }
	static long logRange(int which) { return which == 0 ? 1650 : which == 1 ? 642 : 65536; }
	static const std::vector<long>& logTable(int which) { // floor(e log10 2), floor(e log2 10), floor(e log5 2) for e = 0, 1, ...
		static std::once_flag f[3]; static std::vector<long> t[3];
		std::call_once(f[which], [which] { Z a = 1, p = which == 1 ? 2 : which == 0 ? 10 : 5; Z b = p; long k = 0, mul = which == 1 ? 10 : 2; for (long e = 0; e <= logRange(which); e++) { while (b <= a) { b *= p; k++; } t[which].push_back(k); a *= mul; } });
		return t[which];
	}
	static long logOf(int which, long e) { return e >= 0 ? logTable(which)[e] : -logTable(which)[-e] - 1; }
	static bool helper(const std::string& k) { return k == "div2" || k == "div5" || k == "log" || k == "cache"; }
	long constant(const std::string& name) {
		auto it = P.fns.find(name); if (it == P.fns.end()) throw std::runtime_error("no function " + name);
		M.reset(); M.isVoid = nullptr; M.maxSteps = 10000; State s; s.b = Box(); M.D.var(0, 0); M.D.var(0, 0); s.b.v = M.D.vinit; M.call(s, it->second.get(), {}, -1, -1); long r = 0; bool ok = false;
		M.explore(s, [&](State& t) { if (t.lt.k == LeafT::Ret && t.ret.k == V::Int) { r = M.asS(t.ret.f, 32, t.b)->c.get_si(); ok = true; } }, [](State&, Undecided&) {});
		if (!ok) throw std::runtime_error("no value of " + name); return r;
	}
	void checkHelper(const Job& j, const Part& p, Setup& u, State& s, bool point, const Z& n0, std::string& outv, const std::function<void(const char*, const std::function<bool(std::string&)>&)>& run) {
		Dom& D = M.D; const Fmt& F = *p.f;
		auto word = [&](int k) -> const Form* { V v = rd(s, u.oSig, tI64, 8, 8 * k); if (v.k != V::Int) return nullptr; return M.asU(v.f, 64, s.b); };
		auto is0 = [&](const Form* f) { return f->isConst() ? sgn(f->c) == 0 : D.decEQ(f, s.b); };
		if (j.kind == "cache") run("cached-power", [&](std::string& w) {
			int k = p.E - 2000; const Form* a = word(0), *b = F.w == 64 ? word(1) : D.cst(0); if (!a || !b || !a->isConst() || !b->isConst()) { w = "not a constant"; return false; }
			Z v = F.w == 64 ? Z(a->c * pow2(64) + b->c) : a->c; outv = "entry " + hex(v); Z e = power(k, 2 * F.w, k < 0); if (v == e) return true;
			w = "the cached power of 10^" + std::to_string(k) + " is not " + hex(e); return false; });
		else if (j.kind == "log") run("logarithm", [&](std::string& w) {
			V v = rd(s, u.oSig, tI32, 4); if (v.k != V::Int) { w = "yields nothing"; return false; } const Form* f = M.asS(v.f, 32, s.b); long R = logRange(p.E);
			ConvSpec sp{ D, F, p.E, NTE, EVEN, true }; sp.b = &s.b; Witness wt(s.b, 1);
			Z lo = point ? n0 : s.b.v[0].first, hi = point ? n0 : s.b.v[0].second; if (!point) lo += fmod_(s.b.cr - lo, s.b.cm);
			for (Z n = lo; n <= hi; n += point ? Z(1) : s.b.cm) {
				if (!point && (!wt.okExcl(n) || (s.b.hasBase && !Dom::member(s.b, n)))) continue;
				Z r = point ? f->c : sp.evalAt(f, n); long e = n.get_si() - R; if (r == logOf(p.E, e)) continue;
				if (point) { outv = r.get_str(); w = "the result for " + std::to_string(e) + " is not " + std::to_string(logOf(p.E, e)); return false; }
				Undecided x{ "value" }; x.cand.push_back(n); throw x;
			}
			return true; });
		else run("divisibility", [&](std::string& w) {
			const Form* a = word(0); if (!a) { w = "yields nothing"; return false; } outv = a->isConst() ? a->c.get_str() : "";
			bool got = !is0(a); Z m = j.kind == "div2" ? pow2(p.E) : zpow(5, p.E);
			bool want; if (point) want = divides(m, n0); else if (m > s.b.v[0].second) want = D.decEQ(u.nF, s.b); else if (m == 1) want = true; else { const Form* q = D.floorDiv(u.nF, m); want = D.decEQ(D.lin(u.nF, 1, q, -m, 0), s.b); }
			if (got == want) return true; w = std::string("divisibility by ") + (j.kind == "div2" ? "2^" : "5^") + std::to_string(p.E) + " is answered wrongly"; return false; });
	}
	// products: for all operands, by comparing normal forms over the 32-bit parts of the operands
	PartResult partMul(const Job& j, int which) {
		PartResult R; double t0 = now(); R.leaves = 1;
		// parts of x, of y, results: 0 both words, 1 the upper one; the upper part starts at bit sh
		struct Kind { int nx, ny, sh, w; const char* name; }; static const Kind K[] = { { 2, 2, 64, 64, "product" }, { 2, 2, 64, 64, "upper half" }, { 2, 4, 128, 64, "upper 64 of 192 bits" }, { 1, 2, 64, 32, "upper 32 of 96 bits" } };
		const Kind& k = K[which]; auto it = P.fns.find(j.fn);
		auto once = [&](const std::vector<Z>* val, std::string* what, std::string* out) -> int { // 1 holds, 0 does not, 2 undecided
			M.reset(); M.prod.clear(); Dom& D = M.D; State s; s.b = Box(); std::vector<int> tx, ty; std::vector<const Form*> fx, fy;
			for (int q = 0; q < k.nx + k.ny; q++) { auto& fv = q < k.nx ? fx : fy; if (val) { D.var((*val)[q], (*val)[q]); fv.push_back(D.cst((*val)[q])); } else { int t = D.var(0, pow2(32) - 1); (q < k.nx ? tx : ty).push_back(t); fv.push_back(D.tf(t)); } }
			Z mx = pow2(32) - 1; mx *= mx; const Form* full = D.cst(0);
			for (int a = 0; a < k.nx; a++) for (int b = 0; b < k.ny; b++) { const Form* f; if (val) f = D.cst(fx[a]->c * fy[b]->c); else { int t = D.var(0, mx); M.prod[{ std::min(tx[a], ty[b]), std::max(tx[a], ty[b]) }] = t; f = D.tf(t); } full = D.add(full, D.scale(f, pow2(32 * (a + b)))); }
			s.b.v = D.vinit;
			auto cat = [&](std::vector<const Form*>& v, int lo, int n) { const Form* r = D.cst(0); for (int q = 0; q < n; q++) r = D.add(r, D.scale(v[lo + q], pow2(32 * q))); return r; };
			int o = M.newObj(s, 16, "out"); std::vector<V> args; args.push_back(M.mkInt(cat(fx, 0, k.nx), 32 * k.nx)); if (k.ny == 4) args.push_back(M.mkInt(cat(fy, 2, 2), 64)); args.push_back(M.mkInt(cat(fy, 0, 2), 64)); args.push_back(M.ptr(o));
			M.isVoid = nullptr; M.maxSteps = 20000; int res = 1; int leaves = 0;
			try { M.call(s, it->second.get(), std::move(args), -1, -1);
				M.explore(s, [&](State& t) {
					leaves++;
					if (t.lt.k != LeafT::Ret) { if (t.lt.k == LeafT::Unsupported || t.lt.k == LeafT::Limit) { res = 2; R.undWhy[t.lt.msg]++; } else { res = val ? 0 : 2; if (what) *what = t.lt.msg + " at " + where(t.lt); } return; }
					const Form* hi = D.floorDiv(full, pow2(k.sh)); const Form* lo = D.lin(full, 1, hi, -pow2(k.sh), 0);
					for (int q = 0; q < (which == 0 ? 2 : 1); q++) {
						V v = rd(t, o, tI64, 8, 8 * q); if (v.k != V::Int) { res = val ? 0 : 2; if (what) *what = "a result is missing"; return; }
						const Form* f = M.asU(v.f, 64, t.b); const Form* e = q ? lo : hi; if (f == e) continue; const Form* d = D.sub(f, e); if (d->isConst() && sgn(d->c) == 0) continue;
						if (val) { res = 0; if (what) *what = std::string("the ") + k.name + " is wrong: expected " + e->c.get_str(); if (out) *out = f->c.get_str(); } else { res = 2; R.undWhy["normal forms differ"]++; }
						return;
					}
				}, [&](State&, Undecided& x) { res = 2; if (!val) R.undWhy[x.why]++; });
			} catch (Undecided& x) { res = 2; R.undWhy[x.why]++; }
			M.prod.clear(); if (!leaves) res = 2; return res;
		};
		if (once(nullptr, nullptr, nullptr) == 1) { R.proved = 1; R.ruleOk["product"]++; R.steps = M.nsteps; R.secs = now() - t0; return R; }
		R.undecided = 1;
		// no proof: look for operands that show the difference
		std::vector<Z> c; for (int b : { 0, 1, 16, 31, 32, 33, 48, 62, 63, 64 }) for (int d = -1; d <= 1; d++) { Z z = pow2(b) + d; if (z >= 0 && z < pow2(64)) c.push_back(z); }
		for (Z z : { Z(pow2(64) - 2), Z(pow2(64) - pow2(32)), Z(pow2(64) - pow2(32) + 1), Z(pow2(64) - pow2(32) - 1), Z(2), Z(3), Z(5), Z(zpow(5, 20)), Z(zpow(10, 19)), Z(pow2(63) + pow2(31)), Z((pow2(64) - 1) / 3), Z((pow2(64) - 1) / 3 * 2), Z(pow2(64) / 7), Z(pow2(64) / 11 * 5) }) c.push_back(z);
		std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); c.erase(std::remove_if(c.begin(), c.end(), [](const Z& z) { return sgn(z) < 0; }), c.end());
		int nop = k.ny == 4 ? 3 : 2; std::vector<size_t> ix(nop, 0); unsigned long long rs = 0x9e3779b97f4a7c15ull; double tl = now() + 20;
		for (long n = 0; n < 400000 && now() < tl && R.viol.empty(); n++) {
			std::vector<Z> op; bool more = true; for (int q = 0; q < nop; q++) op.push_back(c[ix[q]]);
			if (n % 4 == 3) for (auto& z : op) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; mpz_set_ui(z.get_mpz_t(), rs); if (n % 8 == 7) z = (z >> (rs >> 58)) ; }
			else { int q = 0; while (q < nop && ++ix[q] == c.size()) ix[q++] = 0; more = q < nop; }
			if (k.nx == 1) op[0] = fmod_(op[0], pow2(32));
			std::vector<Z> v; auto parts = [&](const Z& z, int m) { for (int q = 0; q < m; q++) v.push_back(fmod_(fdiv(z, pow2(32 * q)), pow2(32))); };
			parts(op[0], k.nx); if (nop == 3) { parts(op[2], 2); parts(op[1], 2); } else parts(op[1], 2);
			std::string w, o; R.points++; if (once(&v, &w, &o) == 0) { std::string in; for (auto& z : op) in += (in.empty() ? "" : ", ") + hex(z); R.viol.push_back({ "product", w, "", in, o }); }
			if (!more) break;
		}
		R.steps = M.nsteps; R.secs = now() - t0; return R;
	}
	V rd(State& s, int obj, int ty, uint64_t n, uint64_t off = 0) { Inst d; return M.loadAt(s, *s.mem[obj], off, n, ty, d); }

	// evaluate the specification at a leaf. violations get appended with the rule
	void leafCheck(const Job& j, const Part& p, Setup& u, State& s, bool point, const Z& n0, int s0, std::vector<Finding>& bad, std::vector<std::pair<std::string, Undecided>>& und, std::vector<std::string>& ok, std::string& outv) {
		Dom& D = M.D;
		if (s.lt.k != LeafT::Ret) {
			if (s.lt.k == LeafT::Unsupported) { und.push_back({ "ir", Undecided{ "unsupported: " + s.lt.msg + " at " + where(s.lt) } }); return; }
			if (s.lt.k == LeafT::Limit) { if (point) bad.push_back({ "terminates", "no result after " + std::to_string(M.maxSteps) + " steps, at " + where(s.lt) }); else und.push_back({ "terminates", Undecided{ s.lt.msg + " at " + where(s.lt) } }); return; }
			if (j.kind == "fin" && s.lt.k == LeafT::Abort) { ok.push_back("case-handler"); return; }
			bad.push_back({ s.lt.k == LeafT::Abort ? "assertion" : "undefined-behaviour", s.lt.msg + " at " + where(s.lt) }); return;
		}
		auto run = [&](const char* rule, const std::function<bool(std::string&)>& f) {
			if (!j.want(rule)) return;
			std::string w; Box save = s.b;
			try { if (f(w)) ok.push_back(rule); else { std::vector<Box> pts; if (!point && D.points(save, pts)) throw Split{ std::move(pts) }; bad.push_back({ rule, w }); } }
			catch (Undecided& x) { std::vector<Box> pts; if (!point && D.points(save, pts)) throw Split{ std::move(pts) }; s.b = save; und.push_back({ rule, x }); }
		};
		if (j.kind == "chars" || j.kind == "text") { checkText(j, p, u, s, point, n0, s0, bad, ok, outv, run); return; }
		if (helper(j.kind)) { checkHelper(j, p, u, s, point, n0, outv, run); return; }
		if (j.kind == "bits") { checkBits(j, p, u, s, point, n0, s0, run); return; }
		if (j.kind == "pair") { // the two halves of out are equal
			int K = j.npair();
			for (int k = 0; k < K; k++) run("equal", [&](std::string& w) {
				V a = rd(s, u.oSig, tI64, 8, 8 * k), c = rd(s, u.oSig, tI64, 8, 8 * (k + K)); if (a.k != V::Int || c.k != V::Int) { w = "a result is not initialised"; return false; }
				if (a.f == c.f) return true; const Form* d = D.sub(M.asU(a.f, 64, s.b), M.asU(c.f, 64, s.b)); if (d->isConst() ? sgn(d->c) == 0 : D.decEQ(d, s.b)) return true;
				w = "value " + std::to_string(k) + " differs between the two: " + (a.f->isConst() ? a.f->c.get_str() : "(form)") + " and " + (c.f->isConst() ? c.f->c.get_str() : "(form)"); return false; });
			return;
		}
		if (j.kind == "fin") { bad.push_back({ "case-handler", "a non-finite input passes the check for finite inputs" }); return; }
		V sig = rd(s, u.oSig, tI64, 8), ex = rd(s, u.oExp, tI32, 4), ng = rd(s, u.oNeg, tI8, 1);
		if (sig.k != V::Int || ex.k != V::Int || ng.k != V::Int) { bad.push_back({ "undefined-behaviour", "part of the result is not initialised" }); return; }
		const Form* sf = M.asU(sig.f, 64, s.b); const Form* ef = M.asS(ex.f, 32, s.b); const Form* nf = M.asU(ng.f, 8, s.b);
		Z e = M.concretise(ef, s.b, 800);
		outv = "significand=" + (sf->isConst() ? sf->c.get_str() : "(form)") + " exponent=" + e.get_str() + " is_negative=" + (nf->isConst() ? nf->c.get_str() : "?");
		ConvSpec sp{ D, *p.f, p.E, j.mode, j.crs, j.sgnd }; sp.point = point; sp.n0 = n0; sp.s0 = s0; sp.b = &s.b; sp.sig = sf; sp.ex = e.get_si(); sp.sgnF = u.sgnF;
		if (!e.fits_slong_p() || abs(e) > 2000) { bad.push_back({ "interval", "decimal exponent " + e.get_str() + " is out of reach" }); return; }
		if (j.sgnd) run("sign", [&](std::string& w) { const Form* d = D.sub(nf, u.sgnF); bool r = d->isConst() ? sgn(d->c) == 0 : D.decEQ(d, s.b); if (!r) w = "is_negative does not equal the sign of the input"; return r; });
		sp.check(run);
	}

	typedef std::function<void(const char*, const std::function<bool(std::string&)>&)> Run;
	// the text that has been written into the buffer
	void checkText(const Job& j, const Part& p, Setup& u, State& s, bool point, const Z& n0, int s0, std::vector<Finding>& bad, std::vector<std::string>& ok, std::string& outv, const Run& run) {
		Dom& D = M.D; const Fmt& F = *p.f; bool z = !j.sgnd; // z: NUL-terminated
		if (s.ret.k != V::Ptr || s.ret.obj != u.oSig) { bad.push_back({ "end", "the returned pointer does not point into the buffer" }); return; }
		Z L = M.concretise(s.ret.f, s.b, 64); if (L < 1 || L > BUF - (z ? 1 : 0)) { bad.push_back({ "end", "the returned pointer is not inside the buffer" }); return; }
		long len = L.get_si(); MemObj& o = *s.mem[u.oSig];
		if (j.want("extent")) { bool b0 = false; for (long q = len + (z ? 1 : 0); q < BUF; q++) if (o.cells[q].def) { bad.push_back({ "extent", "byte " + std::to_string(q) + " is written although the text ends at " + std::to_string(len) }); b0 = true; break; } if (!b0) ok.push_back("extent"); }
		std::vector<const Form*> by;
		for (long q = 0; q < len + (z ? 1 : 0); q++) { if (!o.cells[q].def) { bad.push_back({ "end", "byte " + std::to_string(q) + " of the text is never written" }); return; } V v = rd(s, u.oSig, tI8, 1, q); if (v.k != V::Int) { bad.push_back({ "end", "byte " + std::to_string(q) + " of the text is undefined" }); return; } by.push_back(M.asU(v.f, 8, s.b)); }
		if (z) { const Form* f = by.back(); by.pop_back(); run("end", [&](std::string& w) { if (f->isConst() ? sgn(f->c) == 0 : D.decEQ(f, s.b)) return true; w = "the text is not terminated at the returned position"; return false; }); }
		else ok.push_back("end");
		{ outv = ""; for (auto f : by) outv += f->isConst() ? std::string(1, (char)f->c.get_si()) : std::string("?"); outv = "text \"" + outv + "\""; }
		ConvSpec sp{ D, F, p.E, j.mode, j.crs, true }; sp.point = point; sp.n0 = n0; sp.s0 = s0; sp.b = &s.b; sp.sgnF = u.sgnF;
		auto is = [&](size_t q, char c) { return q < by.size() && by[q]->isConst() && by[q]->c == (int)c; };
		bool zero = p.E == 0 && p.nhi == 0, spec = p.E > F.emax || zero; if (j.kind == "text") zero = spec = false;
		if (spec) {
			run("special", [&](std::string& w) {
				bool nan = p.E > F.emax && (point ? n0 != 0 : p.nlo > 0); if (p.E > F.emax && !point && p.nlo == 0 && p.nhi > 0) throw Undecided{ "partition" };
				std::string e = zero ? "0E0" : nan ? "NaN" : "Infinity"; if (!nan && sp.sign()) e = "-" + e;
				bool same = by.size() == e.size(); for (size_t q = 0; same && q < e.size(); q++) same = is(q, e[q]);
				if (!same) w = "expected \"" + e + "\""; return same;
			});
			return;
		}
		size_t q = 0; bool good = true; std::string why; std::vector<const Form*> dg; long ex = 0;
		int sg = sp.sign();
		run("sign", [&](std::string& w) { if (is(0, '-') == (sg == 1)) return true; w = "the minus sign does not match the sign of the input"; return false; });
		if (is(0, '-')) q++;
		auto isE = [&](size_t k) { return is(k, 'E'); };
		auto digit = [&](const Form* f) { return D.addc(f, -48); };
		auto fail = [&](const char* m) { good = false; if (why.empty()) why = m; };
		if (q >= by.size()) fail("no digits");
		else { dg.push_back(digit(by[q++])); if (is(q, '.')) { q++; size_t k0 = q; while (q < by.size() && !isE(q)) dg.push_back(digit(by[q++])); if (q == k0) fail("no digit after the decimal point"); } if (!isE(q)) fail("no exponent mark where it belongs"); else q++; }
		if (good) { bool neg = is(q, '-'); if (neg) q++; size_t k0 = q; while (q < by.size() && q - k0 < 4) { Z d = M.concretise(digit(by[q]), s.b, 255); if (d < 0 || d > 9) { fail("a character of the exponent is not a digit"); break; } ex = ex * 10 + d.get_si(); q++; } if (q != by.size() || q == k0 || q - k0 > 3) fail("exponent of the wrong length"); else if (q - k0 > 1 && M.concretise(digit(by[k0]), s.b, 255) == 0) fail("exponent with a leading zero"); else if (neg && ex == 0) fail("negative zero exponent"); if (neg) ex = -ex; }
		run("grammar", [&](std::string& w) {
			if (!good) { w = why; return false; }
			for (size_t k = 0; k < dg.size(); k++) { Z lo, hi; D.rangeTight(dg[k], s.b, lo, hi); if (lo < 0 && D.decLE(D.addc(dg[k], 1), s.b)) { w = "a character of the significand is not a digit"; return false; } if (hi > 9 && !D.decLE(D.addc(dg[k], -9), s.b)) { w = "a character of the significand is not a digit"; return false; } }
			if (D.decLE(dg[0], s.b)) { w = "the first digit is zero"; return false; }
			return true;
		});
		if (!good) return;
		const Form* sig = D.cst(0); for (auto f : dg) sig = D.lin(sig, 10, f, 1, 0);
		sp.sig = sig; sp.ex = ex - (long)dg.size() + 1;
		if (j.kind == "text") {
			run("value", [&](std::string& w) {
				if (sp.ex != textExp(p.E)) { w = "the exponent of the text is that of significand*10^" + std::to_string(sp.ex) + ", not of the given decimal *10^" + std::to_string(textExp(p.E)); return false; }
				const Form* d = D.sub(sig, u.nF); if (d->isConst() ? sgn(d->c) == 0 : D.decEQ(d, s.b)) return true; w = "the digits of the text are not those of the given significand"; return false; });
			return;
		}
		sp.check(run);
	}
	void checkBits(const Job&, const Part& p, Setup& u, State& s, bool, const Z&, int, const Run& run) {
		Dom& D = M.D; const Fmt& F = *p.f; bool top = p.E > F.emax;
		auto dec0 = [&](const Form* f) { return f->isConst() ? sgn(f->c) == 0 : D.decEQ(f, s.b); }; // is it 0
		auto le = [&](const Form* f) { return f->isConst() ? sgn(f->c) <= 0 : D.decLE(f, s.b); };
		static const char* names[] = { "is_finite", "is_nonzero", "is_subnormal", "is_negative", "is_positive", "is_positive_infinity", "is_negative_infinity", "is_infinity", "is_nan", "is_quiet_nan", "is_signaling_nan", "extract_significand_bits", "extract_exponent_bits", "as_ieee754", "get_nan_payload" };
		for (int k = 0; k < 15; k++) run("inspector", [&](std::string& w) {
			V v = rd(s, u.oSig, tI64, 8, 8 * k); if (v.k != V::Int) { w = std::string(names[k]) + " yields nothing"; return false; }
			const Form* f = M.asU(v.f, 64, s.b); w = std::string(names[k]) + " is wrong"; Z half = pow2(F.p - 1);
			auto bit = [&](bool e) { return dec0(f) != e; };
			bool n0 = false, neg = false, quiet = false;
			if (k == 1 || (k >= 5 && k <= 10)) n0 = dec0(u.nF);
			if (k >= 3 && k <= 6) neg = !dec0(u.sgnF);
			if (k == 9 || k == 10) quiet = !le(D.addc(u.nF, 1 - half));
			switch (k) {
			case 0: return bit(!top); case 1: return bit(p.E != 0 || !n0); case 2: return bit(p.E == 0); case 3: return bit(neg); case 4: return bit(!neg);
			case 5: return bit(top && n0 && !neg); case 6: return bit(top && n0 && neg); case 7: return bit(top && n0); case 8: return bit(top && !n0); case 9: return bit(top && !n0 && quiet); case 10: return bit(top && !n0 && !quiet);
			case 11: return dec0(D.sub(f, u.nF)); case 12: return dec0(D.addc(f, -Z(p.E)));
			case 13: return dec0(D.sub(f, D.lin(u.nF, 1, u.sgnF, pow2(F.w - 1), pow2(F.p) * p.E)));
			default: { const Form* q = D.floorDiv(u.nF, half); return dec0(D.sub(f, D.lin(u.nF, 1, q, -half, 0))); }
			}
		});
	}

	void confirm(const Job& j, const Part& p, const Z& n, int sg, PartResult& R, std::set<std::string>& seen) {
		std::string key = n.get_str() + "/" + std::to_string(sg); if (!seen.insert(key).second) return;
		R.points++;
		// saved domain state is destroyed: points run on their own machine
		static thread_local std::unique_ptr<Runner> pr; if (!pr || &pr->P != &P) { pr.reset(new Runner(P)); pr->types(); }
		pr->point(j, p, n, sg, R);
	}
	void point(const Job& j, const Part& p, const Z& n, int sg, PartResult& R) {
		M.isVoid = nullptr; M.maxSteps = 200000;
		Setup u = init(j, p, true, n, sg);
		M.explore(u.s, [&](State& s) {
			std::vector<Finding> bad; std::vector<std::pair<std::string, Undecided>> und; std::vector<std::string> ok; std::string outv;
			leafCheck(j, p, u, s, true, n, sg, bad, und, ok, outv);
			Z bits = pow2(p.f->p) * p.E + n + (sg ? pow2(p.f->w - 1) : Z(0)); std::string in = j.kind == "cache" ? std::to_string(p.E - 2000) : j.kind == "log" ? Z(n - logRange(p.E)).get_str() : helper(j.kind) ? n.get_str() + ", " + std::to_string(p.E) : j.kind == "text" ? (sg ? "-" : "") + n.get_str() + "*10^" + std::to_string(textExp(p.E)) : hex(bits);
			for (auto& f : bad) R.viol.push_back({ f.rule, f.what, trace(s), in, outv });
			for (auto& f : und) R.undWhy["point: " + f.second.why]++;
		}, [&](State&, Undecided& u) { R.undWhy["point: " + u.why]++; });
	}
	std::string trace(State& s) {
		// the last distinct branch sites of the path
		std::string r; int cnt = 0; int last = -1;
		for (size_t q = s.trace.size(); q-- > 0 && cnt < 12;) { int t = s.trace[q]; int f = t >> 21, l = (t >> 1) & 0xfffff; if (t == last) continue; last = t; std::string fn = f < (int)P.files.size() ? P.files[f] : ""; size_t k = fn.rfind('/'); if (k != std::string::npos) fn = fn.substr(k + 1); r = fn + ":" + std::to_string(l) + (t & 1 ? "+" : "-") + (r.empty() ? "" : " ") + r; cnt++; }
		return r;
	}
	PartResult part(const Job& j, const Part& p) {
		if (j.kind == "mul") return partMul(j, p.E);
		PartResult R; double t0 = now(); std::set<std::string> seen;
		if (p.nlo == p.nhi) { for (int sg = p.slo; sg <= p.shi; sg++) { Runner& r = *this; R.points++; R.leaves++; size_t v0 = R.viol.size(); auto w0 = R.undWhy.size(); r.point(j, p, p.nlo, sg, R); if (R.viol.size() == v0 && R.undWhy.size() == w0) R.proved++; } R.secs = now() - t0; return R; }
		Setup u = init(j, p, false, 0, 0); long st0 = M.nsteps, sp0 = M.D.st.splits;
		bool cut = false;
		auto candidates = [&](State& s, const std::vector<Z>& extra, size_t want) {
			std::vector<Z> c;
			for (auto& z : extra) if (z >= p.nlo && z <= p.nhi) c.push_back(z);
			Witness w(s.b, want); w.run(); cut = w.cut; for (auto& z : w.out) c.push_back(z);
			return c;
		};
		// further members of an undecided box: its last ones and some spread ones
		auto spread = [&](State& s) {
			std::vector<Z> c; Z lo = s.b.v[0].first, hi = s.b.v[0].second; if (lo > hi) return c; lo += fmod_(s.b.cr - lo, s.b.cm); if (lo > hi) return c;
			Z len = (hi - lo) / s.b.cm + 1; Witness w(s.b, 1); unsigned long long x = 0x9e3779b97f4a7c15ull;
			for (int k = 0; k < 12 && c.size() < 3; k++) { Z i = k == 0 ? Z(len - 1) : k == 1 ? Z(len / 2) : k == 2 ? Z(len - 2) : Z(0); if (k > 2) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; Z r = 0; mpz_set_ui(r.get_mpz_t(), x); i = r * len >> 64; } if (i < 0) continue; Z n = lo + i * s.b.cm; if (w.okExcl(n) && (!s.b.hasBase || Dom::member(s.b, n))) c.push_back(n); }
			return c;
		};
		auto voidBox = [&](State& s) { Witness w(s.b, 1); w.run(); return w.out.empty() && !w.cut; };
		auto signs = [&](State& s) { std::vector<int> r; for (int q = (int)s.b.v[1].first.get_si(); q <= (int)s.b.v[1].second.get_si(); q++) r.push_back(q); return r; };
		M.isVoid = voidBox; M.maxSteps = 40000;
		M.explore(u.s, [&](State& s) {
			std::vector<Finding> bad; std::vector<std::pair<std::string, Undecided>> und; std::vector<std::string> ok; std::string outv;
			leafCheck(j, p, u, s, false, 0, 0, bad, und, ok, outv);
			R.leaves++; if (getenv("ENG_T")) std::cerr << "LEAF " << trace(s) << " BOX " << s.b.str() << "\n";
			for (auto& o : ok) R.ruleOk[o]++;
			if (bad.empty() && und.empty()) { R.proved++; return; }
			if (!bad.empty()) {
				size_t before = R.viol.size();
				auto c = candidates(s, {}, 2);
				if (!c.empty()) for (auto& n : c) { for (int sg : signs(s)) confirm(j, p, n, sg, R, seen); if (R.viol.size() > before) break; }
				if (R.viol.size() == before) {
					if (c.empty() && !cut) { R.proved++; R.emptyb++; } // the box has no member
					else { R.unconfirmed++; if (verbose) std::cerr << "UNCONFIRMED E=" << p.E << " " << bad[0].rule << ": " << bad[0].what << " " << outv << "\n   box " << s.b.str() << " cand " << (c.empty() ? Z(-1) : c[0]) << " trace " << trace(s) << "\n"; }
				}
			}
			if (!und.empty() && voidBox(s)) { R.proved++; R.emptyb++; return; }
			if (!und.empty()) {
				R.undecided++; for (auto& x : und) { R.undWhy[x.first + ": " + x.second.why]++; if (x.first == "ir") R.unsupported++; }
				if (R.points < 400) { std::vector<Z> ex; for (auto& x : und) for (auto& z : x.second.cand) ex.push_back(z); for (auto& n : candidates(s, ex, 2)) for (int sg : signs(s)) confirm(j, p, n, sg, R, seen); for (auto& n : spread(s)) for (int sg : signs(s)) confirm(j, p, n, sg, R, seen); }
				if (verbose) std::cerr << "UNDECIDED leaf E=" << p.E << " " << und[0].first << ": " << und[0].second.why << "\n   box " << s.b.str() << " trace " << trace(s) << "\n";
			}
		}, [&](State& s, Undecided& x) {
			R.leaves++; if (voidBox(s)) { R.proved++; R.emptyb++; return; }
			R.undecided++; R.undWhy["path: " + x.why]++;
			if (R.points < 400) { for (auto& n : candidates(s, x.cand, 2)) for (int sg : signs(s)) confirm(j, p, n, sg, R, seen); for (auto& n : spread(s)) for (int sg : signs(s)) confirm(j, p, n, sg, R, seen); }
			if (verbose) { auto& F = s.fr.back(); auto& i = F.fn->blocks[F.blk].ins[F.ip]; std::cerr << "UNDECIDED path E=" << p.E << " " << x.why << " at line " << i.line << " " << i.fn << "\n   box " << s.b.str() << " trace " << trace(s) << "\n"; }
		});
		R.steps = M.nsteps - st0; R.splits = M.D.st.splits - sp0; R.secs = now() - t0; return R;
	}
};

int main(int argc, char** argv) {
	pool::install();
	if (argc < 3) { std::cerr << "usage: engine file.bc jobfile [threads]\n"; return 2; }
	int nth = argc > 3 ? atoi(argv[3]) : 8; bool verbose = getenv("ENG_V") != nullptr;
	Program P; std::string err; if (!P.load(argv[1], err)) { std::cerr << "cannot load: " << err << "\n"; return 2; }
	for (int t : { 8, 32, 64 }) P.typeOf(llvm::Type::getIntNTy(P.ctx, t));
	if (std::string(argv[2]) == "--effects") {
		Effects e(*P.mod); e.run(std::regex(argc > 3 ? argv[3] : ".*")); auto lst = [](const std::set<std::string>& s) { std::string r; for (auto& x : s) r += (r.empty() ? "" : ",") + jstr(x); return r; };
		std::set<std::string> f; for (auto* x : e.reach) f.insert(x->getName().str());
		std::cout << "{\"entries\":" << e.nent << ",\"functions\":[" << lst(f) << "],\"instructions\":" << e.nins << ",\"stores\":" << e.nstores << ",\"calls\":" << e.ncalls << ",\"mutable_globals\":" << e.nglob << ",\"notes\":[" << lst(e.notes) << "],\"found\":[";
		bool c = false; for (auto& x : e.out) { std::cout << (c ? "," : "") << "[" << jstr(x[0]) << "," << jstr(x[1]) << "," << jstr(x[2]) << "]"; c = true; } std::cout << "]}\n"; return 0;
	}
	if (std::string(argv[2]) == "--fingerprints") { // per defined external function: a hash of the code it can reach (which only says where to look first)
		llvm::StripDebugInfo(*P.mod); std::map<const llvm::Value*, std::string> txt; static const std::regex as("@(__assert_fail|__assert)\\(.*"), str("@(\\.str|__PRETTY_FUNCTION__)[.\\w]*"), att(" #[0-9]+|, ![a-zA-Z.]+ ![0-9]+");
		auto text = [&](const llvm::Value* v) -> const std::string& { auto it = txt.find(v); if (it != txt.end()) return it->second; std::string r; llvm::raw_string_ostream os(r); if (auto* g = llvm::dyn_cast<llvm::GlobalVariable>(v)) { std::string n = g->getName().str(); if (n.rfind(".str", 0) && n.rfind("__PRETTY", 0) && g->hasInitializer()) g->getInitializer()->print(os); } else v->print(os); os.flush(); std::string o; std::istringstream is(r); std::string l; while (std::getline(is, l)) { l = std::regex_replace(l, as, "@assert"); l = std::regex_replace(l, str, "@str"); o += std::regex_replace(l, att, "") + "\n"; } return txt[v] = o; };
		for (auto& f : *P.mod) { if (f.isDeclaration() || !f.hasExternalLinkage()) continue; std::set<const llvm::Value*> done; std::vector<const llvm::Value*> todo{ &f }; uint64_t h = 1469598103934665603ull;
			while (!todo.empty()) { auto* v = todo.back(); todo.pop_back(); if (!done.insert(v).second) continue; for (unsigned char c : text(v)) h = (h ^ c) * 0x100000001b3ull;
				std::function<void(const llvm::Value*)> use = [&](const llvm::Value* x) { if (auto* g = llvm::dyn_cast<llvm::GlobalValue>(x)) { if (!g->isDeclaration()) todo.push_back(g); } else if (auto* c = llvm::dyn_cast<llvm::Constant>(x)) for (auto& o : c->operands()) use(o.get()); };
				if (auto* g = llvm::dyn_cast<llvm::Function>(v)) for (auto& I : llvm::instructions(*g)) for (auto& o : I.operands()) use(o.get()); }
			std::cout << f.getName().str() << " " << std::hex << h << std::dec << "\n"; }
		return 0;
	}
	if (std::string(argv[2]) == "--thresholds") { // small constants that values are compared with or offset by
		std::set<long> t; auto op = [&](int o) { if (o < 0 && o != INT32_MIN) { auto& c = P.consts[-1 - o]; if (c.k == Const::Int && c.w >= 16) { Z z = c.z; if (z >= pow2(c.w - 1)) z -= pow2(c.w); if (abs(z) <= 2200) t.insert(z.get_si()); } } };
		for (auto& f : P.fns) for (auto& b : f.second->blocks) for (auto& i : b.ins) { if (i.op == Op::ICmp || i.op == Op::Add || i.op == Op::Sub) { op(i.a); op(i.b); } if (i.op == Op::Switch) for (auto& z : i.exz) if (z <= 2200) t.insert(z.get_si()); }
		for (long x : t) std::cout << x << " "; std::cout << "\n";
		// tables of powers of ten: entries that differ from the power, normalised and rounded up (they only tell where to look first)
		auto power = Runner::power;
		std::set<int> odd;
		for (auto& g : P.globals) { if (!g.isConst || !g.hasInit) continue; auto* v = llvm::dyn_cast<llvm::GlobalVariable>(g.gv); if (!v) continue; auto* ty = v->getValueType();
			while (auto* st = llvm::dyn_cast<llvm::StructType>(ty)) { if (st->getNumElements() != 1) break; ty = st->getElementType(0); }
			auto* at = llvm::dyn_cast<llvm::ArrayType>(ty); if (!at) continue; size_t n = at->getNumElements(), es = g.bytes.size() / std::max<size_t>(n, 1); if (n < 40 || n > 2000 || (es != 8 && es != 16)) continue;
			int w = (int)es * 8; auto at64 = [&](size_t o) { Z z = 0; for (int q = 7; q >= 0; q--) z = z * 256 + g.bytes[o + q]; return z; };
			for (int order = 0; order < (es == 16 ? 2 : 1); order++) {
				std::vector<Z> e; for (size_t q = 0; q < n; q++) e.push_back(es == 8 ? at64(q * 8) : order ? Z(at64(q * 16) + at64(q * 16 + 8) * pow2(64)) : Z(at64(q * 16) * pow2(64) + at64(q * 16 + 8)));
				for (int probe = 0; probe < 3; probe++) {
					size_t q0 = n * (probe + 1) / 4; bool hit = false;
					for (int k = -700; k <= 700 && !hit; k++) {
						if (power(k, w, true) != e[q0] && power(k, w, false) != e[q0]) continue;
						int vote[2][2] = {}; size_t good = 0; std::vector<std::pair<Z, Z>> pw;
						for (size_t q = 0; q < n; q++) { int kk = k - (int)q0 + (int)q; pw.push_back({ power(kk, w, false), power(kk, w, true) }); bool lo = e[q] == pw[q].first, hi = e[q] == pw[q].second; good += lo || hi; if (lo != hi) vote[kk < 0][hi]++; }
						if (good * 2 <= n) continue;
						hit = true; for (size_t q = 0; q < n; q++) { int kk = k - (int)q0 + (int)q; if (e[q] != (vote[kk < 0][1] > vote[kk < 0][0] ? pw[q].second : pw[q].first)) odd.insert(kk); }
					}
					if (hit) break;
				}
			}
		}
		for (int k : odd) std::cout << k << " "; std::cout << "\n";
		// large constants that values are compared with, read as bit patterns: their exponents
		std::set<std::string> pat; auto big = [&](const Z& z, int w) { if (w != 64 && w != 32) return; int p = w == 64 ? 52 : 23; long m = w == 64 ? 2047 : 255; Z u = fmod_(z, pow2(w)); long e = (long)(fmod_(fdiv(u, pow2(p)), Z(m + 1)).get_si()); bool zero = fmod_(u, pow2(p)) == 0; for (long x : { e, zero ? e - 1 : e }) if (x >= 1 && x < m) pat.insert((w == 64 ? "d" : "f") + std::to_string(x)); };
		for (auto& f : P.fns) for (auto& b : f.second->blocks) for (auto& i : b.ins) { if (i.op == Op::ICmp) for (int o : { i.a, i.b }) if (o < 0 && o != INT32_MIN) { auto& c = P.consts[-1 - o]; if (c.k == Const::Int) big(c.z, c.w); } if (i.op == Op::Switch) for (auto& z : i.exz) { big(z, 64); big(z, 32); } }
		for (auto& x : pat) std::cout << x << " "; std::cout << "\n"; return 0;
	}
	std::vector<Job> jobs; std::ifstream jf(argv[2]); std::string line;
	while (std::getline(jf, line)) {
		std::istringstream is(line); Job j; std::string fmt, mode, crs, sg, es; if (!(is >> j.kind)) continue; if (j.kind[0] == '#') continue;
		is >> j.id >> j.fn >> fmt >> mode >> crs >> sg >> es >> j.rules;
		j.dbl = fmt == "d"; j.sgnd = sg == "s";
		bool okm = false, okc = false; for (int q = 0; q < 14; q++) if (mode == modeNames[q]) { j.mode = (Mode)q; okm = true; } for (int q = 0; q < 5; q++) if (crs == crsNames[q]) { j.crs = (Crs)q; okc = true; }
		if (!okm || !okc) { std::cerr << "bad job " << line << "\n"; return 2; }
		std::istringstream ei(es); std::string tok; while (std::getline(ei, tok, ',')) { char which = 0; if (tok[0] == 'z' || tok[0] == 'p' || tok[0] == 't') { which = tok[0]; tok = tok.substr(1); } size_t e0 = j.Es.size(); int a, b, c = 1; if (sscanf(tok.c_str(), "%d-%d:%d", &a, &b, &c) >= 2) for (int q = a; q <= b; q += c) j.Es.push_back(q); else j.Es.push_back(atoi(tok.c_str())); for (size_t q = e0; q < j.Es.size(); q++) j.which.push_back(which); }
		if (!P.fns.count(j.fn)) { std::cerr << "no function " << j.fn << "\n"; return 2; }
		if (j.kind == "cache") { Runner r(P); r.types(); std::string t = j.fn.substr(j.fn.size() - 1); long a = r.constant("kmin_" + t), b = r.constant("kmax_" + t); j.Es.clear(); j.which.clear(); for (long q = a; q <= b && q < a + 3000; q++) { j.Es.push_back((int)q + 2000); j.which.push_back(0); } }
		jobs.push_back(j);
	}
	struct Item { int job, rank; Part p; }; std::vector<Item> items;
	double deadline = getenv("ENG_DEADLINE") ? atof(getenv("ENG_DEADLINE")) : 1e9, partCap = getenv("ENG_PARTCAP") ? atof(getenv("ENG_PARTCAP")) : 1e9; int stopAfter = getenv("ENG_STOP") ? atoi(getenv("ENG_STOP")) : 1000000;
	for (size_t k = 0; k < jobs.size(); k++) for (size_t q = 0, rk = 0; q < jobs[k].Es.size(); q++) { int E = jobs[k].Es[q]; if (jobs[k].which[q] != 'z') rk++;
		const Fmt& F = jobs[k].dbl ? F64 : F32; Part p{ &F, E, 0, pow2(F.p) - 1, 0, 1 };
		if (jobs[k].kind == "text") { int L = Runner::textLen(E); p.nlo = zpow(10, L - 1); p.nhi = zpow(10, L) - 1; items.push_back({ (int)k, (int)rk, p }); continue; }
		if (jobs[k].kind == "mul" || Runner::helper(jobs[k].kind)) { p.shi = 0; auto& kd = jobs[k].kind; p.nlo = kd == "div2" || kd == "div5"; p.nhi = kd == "div2" || kd == "div5" ? Z(pow2(F.w) - 1) : kd == "log" ? Z(2 * Runner::logRange(E)) : Z(0); items.push_back({ (int)k, (int)rk, p }); continue; }
		bool zeroToo = jobs[k].kind == "chars" || jobs[k].kind == "bits" || (jobs[k].kind == "pair" && jobs[k].sgnd);
		char wh = jobs[k].which[q]; // z: only the significand 0, p: only the others, t: of the others those with few significant bits and those at the ends
		if (wh == 't') { Part t = p; t.step = pow2(F.p - 6); t.nlo = t.step; t.nhi -= t.step - 1; items.push_back({ (int)k, (int)rk, t }); t.step = 1; t.nlo = 1; t.nhi = 4; items.push_back({ (int)k, (int)rk, t }); t.nhi = p.nhi; t.nlo = p.nhi - 3; items.push_back({ (int)k, (int)rk, t }); continue; }
		if (wh != 'p' && (E >= 1 || zeroToo)) { Part z = p; z.nhi = 0; items.push_back({ (int)k, (int)rk, z }); if (E == 0 && jobs[k].rules == "special") continue; }
		if (wh == 'z') continue; p.nlo = 1; items.push_back({ (int)k, (int)rk, p });
	}
	std::stable_sort(items.begin(), items.end(), [](const Item& a, const Item& b) { return a.rank < b.rank; });
	std::vector<PartResult> res(items.size()); std::vector<char> done(items.size(), 0); std::atomic<int> nviol{ 0 }; std::atomic<size_t> next{ 0 }; std::mutex mu; std::set<std::pair<int, int>> lines; std::set<std::string> fns; long droots = 0, dproof = 0, dcls = 0, ddec = 0;
	double t0 = now();
	auto work = [&]() {
		Runner r(P); r.verbose = verbose; r.types();
		while (true) { size_t k = next++; if (k >= items.size()) break; if (now() - t0 > deadline || nviol >= stopAfter) continue; r.M.tEnd = std::min(now() + partCap, t0 + deadline + std::min(3.0, partCap)); r.M.now = now; done[k] = 1; try { res[k] = r.part(jobs[items[k].job], items[k].p); } catch (std::exception& e) { res[k].undWhy[std::string("internal: ") + e.what()]++; res[k].undecided++; } if (!res[k].viol.empty()) nviol++; }
		std::lock_guard<std::mutex> g(mu); lines.insert(r.M.lines.begin(), r.M.lines.end()); fns.insert(r.M.coveredFns.begin(), r.M.coveredFns.end()); droots += r.M.D.st.roots; dproof += r.M.D.st.rootProofs; dcls += r.M.D.st.classes; ddec += r.M.D.st.decisions;
	};
	std::vector<std::thread> th; for (int q = 0; q < nth; q++) th.emplace_back(work); for (auto& t : th) t.join();
	// report
	std::cout << "{\"wall\":" << now() - t0 << ",\"decisions\":" << ddec << ",\"quotient_proofs\":" << dproof << ",\"residue_classes\":" << dcls << ",\"branch_sites\":" << lines.size() << ",\"functions\":[";
	{ bool f = true; for (auto& x : fns) { std::cout << (f ? "" : ",") << jstr(x); f = false; } } std::cout << "],\"jobs\":[\n";
	for (size_t k = 0; k < jobs.size(); k++) {
		PartResult T; long parts = 0, full = 0, skipped = 0; std::set<int> Ed; std::map<std::string, int> undPart;
		double mx = 0; int mxE = 0;
		for (size_t q = 0; q < items.size(); q++) if (items[q].job == (int)k) {
			auto& r = res[q]; if (!done[q]) { skipped++; continue; } parts++; Ed.insert(items[q].p.E); full += (r.undecided == 0 && r.unconfirmed == 0 && r.viol.empty()); T.leaves += r.leaves; T.proved += r.proved; T.undecided += r.undecided; T.unconfirmed += r.unconfirmed; T.points += r.points; T.steps += r.steps; T.splits += r.splits; T.secs += r.secs; T.unsupported += r.unsupported; if (r.secs > mx) { mx = r.secs; mxE = items[q].p.E; }
			for (auto& v : r.viol) if (T.viol.size() < 200) T.viol.push_back(v); for (auto& x : r.undWhy) { T.undWhy[x.first] += x.second; if (!undPart.count(x.first)) undPart[x.first] = items[q].p.E; } for (auto& x : r.ruleOk) T.ruleOk[x.first] += x.second;
		}
		std::cout << (k ? ",\n" : "") << "{\"id\":" << jstr(jobs[k].id) << ",\"fn\":" << jstr(jobs[k].fn) << ",\"parts\":" << parts << ",\"skipped\":" << skipped << ",\"exponents\":" << Ed.size() << ",\"parts_proved\":" << full << ",\"leaves\":" << T.leaves << ",\"proved\":" << T.proved << ",\"undecided\":" << T.undecided << ",\"unconfirmed\":" << T.unconfirmed << ",\"unsupported\":" << T.unsupported << ",\"points\":" << T.points << ",\"steps\":" << T.steps << ",\"splits\":" << T.splits << ",\"cpu\":" << T.secs << ",\"slowest\":[" << mxE << "," << mx << "],\"rules\":{";
		bool f = true; for (auto& x : T.ruleOk) { std::cout << (f ? "" : ",") << jstr(x.first) << ":" << x.second; f = false; } std::cout << "},\"why\":{";
		f = true; for (auto& x : T.undWhy) { std::cout << (f ? "" : ",") << jstr(x.first + " (first E=" + std::to_string(undPart[x.first]) + ")") << ":" << x.second; f = false; } std::cout << "},\"violations\":[";
		f = true; for (auto& v : T.viol) { std::cout << (f ? "" : ",") << "{\"rule\":" << jstr(v.rule) << ",\"what\":" << jstr(v.what) << ",\"path\":" << jstr(v.where) << ",\"input\":" << jstr(v.input) << ",\"output\":" << jstr(v.detail) << "}"; f = false; }
		std::cout << "]}";
	}
	std::cout << "\n]}\n";
	return 0;
}
