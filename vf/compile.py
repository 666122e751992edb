"""Witnesses that the compilers decide: programs that must be accepted, programs that must be rejected, static assertions."""
from .common import *

RM, CR, CH = "jkj::grisu_exact_rounding_modes::", "jkj::grisu_exact_correct_rounding::", "jkj::grisu_exact_case_handlers::"
COMPILERS = ["g++", "clang++"]


def use_all(text, tag, ns_local=True):
    """a function that uses every public configuration"""
    o = ["int use_%s(double d, float f, char* b) {" % tag, " int r = 0; (void)b;"]
    for m in NEAREST + STATIC + DIRECTED:
        for cr in CRS:
            for x in "df":
                o.append(" r += jkj::grisu_exact(%s, %s%s{}, %s%s{}).exponent;" % (x, RM, m, CR, cr))
        for x in "df":
            o.append(" r += jkj::grisu_exact<false>(%s, %s%s{}, %stie_to_even{}, %signore_special_cases{}).exponent;" % (x, RM, m, CR, CH))
            if text:
                o.append(" r += (int)(jkj::fp_to_chars_n(%s, jkj::fp_to_chars(%s, b, %s%s{}), %s%s{}, %sdo_not_care{}) - b);" % (x, x, RM, m, RM, m, CR))
    for x in "df":
        o += [" r += jkj::grisu_exact(%s).exponent + jkj::grisu_exact<true>(%s).is_negative + (int)jkj::grisu_exact<false>(%s).significand;" % (x, x, x),
              " { auto br = jkj::get_bit_representation(%s); r += br.is_finite() + br.is_nonzero() + br.is_subnormal() + br.is_negative() + br.is_positive() + br.is_positive_infinity() + br.is_negative_infinity() + br.is_infinity() + br.is_nan() + br.is_quiet_nan() + br.is_signaling_nan() + (int)br.extract_significand_bits() + (int)br.extract_exponent_bits() + (br.as_ieee754() == %s) + br.get_nan_payload().any(); }" % (x, x)]
        if text:
            o.append(" r += (int)(jkj::fp_to_chars(%s, b) - jkj::fp_to_chars_n(%s, b));" % (x, x))
    return "\n".join(o + [" return r;", "}", ""])


INCL = {
    "grisu_exact": (["grisu_exact.h"], False), "fp_to_chars": (["fp_to_chars.h"], True),
    "grisu_exact,fp_to_chars": (["grisu_exact.h", "fp_to_chars.h"], True), "fp_to_chars,grisu_exact": (["fp_to_chars.h", "grisu_exact.h"], True),
    "twice": (["fp_to_chars.h", "fp_to_chars.h", "grisu_exact.h", "grisu_exact.h"], True),
}

# expression, or declarations and an expression, that must be rejected; each with a twin that must be accepted
REJECT = {
    "long double": ("", "jkj::grisu_exact(1.0L)", "jkj::grisu_exact(1.0)"),
    "int": ("", "jkj::grisu_exact(1)", "jkj::grisu_exact(1.0f)"),
    "unsigned 64-bit integer": ("", "jkj::grisu_exact((unsigned long long)1)", "jkj::grisu_exact(1.0)"),
    "pointer": ("", "jkj::grisu_exact((double*)nullptr)", "jkj::grisu_exact(*(double*)nullptr)"),
    "struct": ("struct S { double x; };", "jkj::grisu_exact(S{1.0})", "jkj::grisu_exact(S{1.0}.x)"),
    "long double without sign": ("", "jkj::grisu_exact<false>(1.0L)", "jkj::grisu_exact<false>(1.0)"),
    "text of long double": ("extern char* b;", "jkj::fp_to_chars(1.0L, b)", "jkj::fp_to_chars(1.0, b)"),
    "text of int": ("extern char* b;", "jkj::fp_to_chars(1, b)", "jkj::fp_to_chars(1.0f, b)"),
    "text of long double, plain": ("extern char* b;", "jkj::fp_to_chars_n(1.0L, b)", "jkj::fp_to_chars_n(1.0, b)"),
    "text of int, plain": ("extern char* b;", "jkj::fp_to_chars_n(1, b)", "jkj::fp_to_chars_n(1.0f, b)"),
    "int as rounding mode": ("", "jkj::grisu_exact(1.0, 0)", "jkj::grisu_exact(1.0, %snearest_to_even{})" % RM),
    "struct as rounding mode": ("struct S {};", "jkj::grisu_exact(1.0, S{})", "jkj::grisu_exact(1.0, %stoward_zero{})" % RM),
    "correct rounding as rounding mode, struct as correct rounding": ("struct S {};", "jkj::grisu_exact(1.0, %stie_to_even{}, S{})" % CR, "jkj::grisu_exact(1.0, %stoward_zero{}, %stie_to_even{})" % (RM, CR)),
    "int as correct rounding": ("", "jkj::grisu_exact(1.0, %snearest_to_even{}, 0)" % RM, "jkj::grisu_exact(1.0, %snearest_to_even{}, %stie_to_odd{})" % (RM, CR)),
    "struct as correct rounding": ("struct S {};", "jkj::grisu_exact(1.0f, %snearest_to_even{}, S{})" % RM, "jkj::grisu_exact(1.0f, %snearest_to_even{}, %stie_to_up{})" % (RM, CR)),
    "struct as case handler": ("struct S {};", "jkj::grisu_exact(1.0, %snearest_to_even{}, %stie_to_even{}, S{})" % (RM, CR), "jkj::grisu_exact(1.0, %snearest_to_even{}, %stie_to_even{}, %sassert_finite{})" % (RM, CR, CH)),
    "int as case handler": ("", "jkj::grisu_exact(1.0, %snearest_to_even{}, %stie_to_even{}, 0)" % (RM, CR), "jkj::grisu_exact(1.0, %snearest_to_even{}, %stie_to_even{}, %signore_special_cases{})" % (RM, CR, CH)),
    "struct as rounding mode of the text": ("struct S {}; extern char* b;", "jkj::fp_to_chars(1.0, b, S{})", "jkj::fp_to_chars(1.0, b, %stoward_zero{})" % RM),
    "int as correct rounding of the text": ("extern char* b;", "jkj::fp_to_chars(1.0, b, %snearest_to_even{}, 0)" % RM, "jkj::fp_to_chars(1.0, b, %snearest_to_even{}, %stie_to_down{})" % (RM, CR)),
    "const buffer": ("extern const char* cb; extern char* b;", "jkj::fp_to_chars(1.0, cb)", "jkj::fp_to_chars(1.0, b)"),
    "representation of long double": ("", "jkj::get_bit_representation(1.0L)", "jkj::get_bit_representation(1.0)"),
    "representation of int": ("", "jkj::get_bit_representation(1)", "jkj::get_bit_representation(1.0f)"),
}

TYPES = r'''
#include <cstdint>
#include <type_traits>
#include <utility>
template <class T, class = void> struct has_sign : std::false_type {};
template <class T> struct has_sign<T, std::void_t<decltype(std::declval<T&>().is_negative)>> : std::true_type {};
extern char* buf;
namespace rm = jkj::grisu_exact_rounding_modes; namespace cr = jkj::grisu_exact_correct_rounding; namespace ch = jkj::grisu_exact_case_handlers;
template <class V, class F, bool S> constexpr bool good() {
	static_assert(std::is_unsigned_v<decltype(V::significand)>, "the significand is unsigned");
	static_assert(sizeof(V::significand) == sizeof(F), "the significand is as wide as the input");
	static_assert(std::is_signed_v<decltype(V::exponent)> && std::is_integral_v<decltype(V::exponent)>, "the exponent is a signed integer");
	static_assert(sizeof(V::exponent) >= 2, "the exponent holds every decimal exponent");
	static_assert(has_sign<V>::value == S, "there is a sign member exactly when the sign is asked for");
	if constexpr (S) static_assert(std::is_same_v<decltype(V::is_negative), bool>, "the sign member is a bool");
	static_assert(std::is_same_v<V, jkj::fp_t<F, S>>, "the result is the documented type");
	return true;
}
#define RES(F, S, ...) static_assert(good<decltype(__VA_ARGS__), F, S>());
#define TXT(...) static_assert(std::is_same_v<decltype(__VA_ARGS__), char*>, "the text routines return a character pointer");
template <class F> struct X { static F x; static const F c; static rm::toward_zero m; static const rm::nearest_to_odd n; static cr::tie_to_up u; static const cr::tie_to_down w; static ch::ignore_special_cases i; };
// policies of our own see the types of the defaults
template <class Want> struct spy {
	template <bool S, class F, class C> jkj::fp_t<F, S> delegate(jkj::bit_representation_t<F>, C&&) const {
		static_assert(std::is_same_v<std::remove_cv_t<std::remove_reference_t<C>>, Want>, "the correct rounding that reaches the rounding mode is the one asked for, tie_to_even by default");
		return {};
	}
};
template <class F> void defaults() {
	jkj::grisu_exact(F(1), spy<cr::tie_to_even>{}); jkj::grisu_exact<true>(F(1), spy<cr::tie_to_even>{}); jkj::grisu_exact<false>(F(1), spy<cr::tie_to_even>{});
	jkj::fp_to_chars(F(1), buf, spy<cr::tie_to_even>{}); jkj::fp_to_chars_n(F(1), buf, spy<cr::tie_to_even>{});
#define EACH(T) jkj::grisu_exact(F(1), spy<cr::T>{}, cr::T{}); jkj::grisu_exact<false>(F(1), spy<cr::T>{}, cr::T{}, ch::ignore_special_cases{}); jkj::fp_to_chars(F(1), buf, spy<cr::T>{}, cr::T{}); jkj::fp_to_chars_n(F(1), buf, spy<cr::T>{}, cr::T{});
	EACH(do_not_care) EACH(tie_to_even) EACH(tie_to_odd) EACH(tie_to_up) EACH(tie_to_down)
}
template void defaults<float>(); template void defaults<double>();
#define FORMS(F) \
	RES(F, true, jkj::grisu_exact(F(1))) RES(F, true, jkj::grisu_exact<true>(F(1))) RES(F, false, jkj::grisu_exact<false>(F(1))) \
	RES(F, true, jkj::grisu_exact(X<F>::x)) RES(F, true, jkj::grisu_exact(X<F>::c)) RES(F, false, jkj::grisu_exact<false>(X<F>::c)) \
	RES(F, true, jkj::grisu_exact(F(1), rm::toward_zero{})) RES(F, true, jkj::grisu_exact(F(1), X<F>::m)) RES(F, false, jkj::grisu_exact<false>(F(1), X<F>::n)) \
	RES(F, true, jkj::grisu_exact(F(1), X<F>::m, X<F>::u)) RES(F, true, jkj::grisu_exact(F(1), X<F>::n, X<F>::w)) RES(F, false, jkj::grisu_exact<false>(F(1), rm::away_from_zero{}, cr::do_not_care{})) \
	RES(F, true, jkj::grisu_exact(F(1), X<F>::m, X<F>::u, X<F>::i)) RES(F, false, jkj::grisu_exact<false>(F(1), rm::nearest_to_even{}, cr::tie_to_even{}, ch::assert_finite{})) \
	TXT(jkj::fp_to_chars(F(1), buf)) TXT(jkj::fp_to_chars_n(F(1), buf)) TXT(jkj::fp_to_chars(X<F>::c, buf)) TXT(jkj::fp_to_chars(F(1), buf, X<F>::m)) TXT(jkj::fp_to_chars_n(F(1), buf, X<F>::n, X<F>::w)) TXT(jkj::fp_to_chars(F(1), buf, rm::toward_zero{}, cr::tie_to_odd{})) \
	TXT(jkj::fp_to_chars_n(F(1), buf, rm::toward_zero{}, cr::tie_to_odd{}))
FORMS(float) FORMS(double)
static_assert(std::is_same_v<decltype(jkj::grisu_exact(1.0).significand), std::uint64_t> && std::is_same_v<decltype(jkj::grisu_exact(1.0f).significand), std::uint32_t>);
static_assert(std::is_same_v<jkj::unsigned_fp_t<double>, jkj::fp_t<double, false>> && std::is_same_v<jkj::signed_fp_t<float>, jkj::fp_t<float, true>>);
'''


class Compile:
    def __init__(self, c):
        self.c = c
        self.n = 0

    def src(self, text):
        self.n += 1
        p = os.path.join(self.c.tmp, "w%d.cpp" % self.n)
        open(p, "w").write(text)
        return p

    def cc(self, cxx, flags, src, out=None):
        """(accepted, messages); an internal error or a crash of the compiler is no answer"""
        cmd = [cxx] + flags + ["-w", "-I" + REPO, "-I" + os.path.join(REPO, "fp_to_chars")] + (["-fsyntax-only", src] if out is None else ["-c", src, "-o", out])
        r = self.c.run(cmd, check=False, timeout=240)
        if r.returncode not in (0, 1) or "internal compiler error" in r.stderr or "PLEASE submit a bug report" in r.stderr:
            raise Fatal("compiler gave no answer: " + " ".join(cmd) + "\n" + r.stderr[-500:])
        return r.returncode == 0, r.stderr


def first_error(msg):
    l = [x for x in msg.splitlines() if "error" in x]
    return (l or msg.splitlines() or [""])[0][:300]


def C17(c):
    w = Compile(c)
    stds = ["-std=c++17", "-std=c++20", "-std=c++23"]
    archs = ["-m64", "-m32"]
    tasks = []  # (what, construct, fn) ; fn returns an error text or None
    cov = dict(accepted=0, rejected=0, linked=0)

    def accept(what, cxx, flags, text):
        s = w.src(text)

        def f():
            ok, msg = w.cc(cxx, flags, s)
            cov["accepted"] += ok
            return None if ok else first_error(msg)
        tasks.append(("a program that uses the headers correctly is rejected (%s)" % what, "%s %s" % (cxx, " ".join(flags)), f))
    for cxx in COMPILERS:
        for arch in archs:
            for std in stds:
                for nd in ([], ["-DNDEBUG"]):
                    for name, (hs, text) in INCL.items():
                        if std != "-std=c++17" and name not in ("grisu_exact", "fp_to_chars"):
                            continue
                        accept(name, cxx, [arch, std] + nd, "".join('#include "%s"\n' % h for h in hs) + use_all(text, "x"))
                    s = os.path.join(REPO, "fp_to_chars", "fp_to_chars.cpp")

                    def f(cxx=cxx, fl=[arch, std] + nd, s=s):
                        ok, msg = w.cc(cxx, fl, s)
                        cov["accepted"] += ok
                        return None if ok else first_error(msg)
                    tasks.append(("the library source is rejected", "%s %s %s fp_to_chars.cpp" % (cxx, arch, std), f))

    # a header alone, with nothing used
    for cxx in COMPILERS:
        for h in ("grisu_exact.h", "fp_to_chars.h"):
            accept("only " + h, cxx, ["-std=c++17"], '#include "%s"\n' % h)
    # several units of one program
    for cxx in COMPILERS:
        for arch in archs:
            for std in ("-std=c++17", "-std=c++20"):
                units = [w.src('#include "fp_to_chars.h"\n' + use_all(True, "a")), w.src('#include "grisu_exact.h"\n#include "fp_to_chars.h"\n' + use_all(True, "b")),
                         w.src('#include "grisu_exact.h"\n' + use_all(False, "c")), w.src("int use_a(double, float, char*); int use_b(double, float, char*); int use_c(double, float, char*);\nint main() { char b[64]; return use_a(1, 1, b) + use_b(1, 1, b) + use_c(1, 1, b); }\n"),
                         os.path.join(REPO, "fp_to_chars", "fp_to_chars.cpp")]

                def f(cxx=cxx, arch=arch, std=std, units=units):
                    objs = []
                    for k, u in enumerate(units):
                        o = units[0] + "." + str(k) + ".o"
                        ok, msg = w.cc(cxx, [arch, std, "-O0"], u, o)
                        if not ok:
                            return first_error(msg)
                        objs.append(o)
                    r = c.run([cxx, arch] + objs + ["-o", units[0] + ".out"], check=False)
                    if r.returncode:
                        l = [x for x in r.stderr.splitlines() if "multiple definition" in x or "undefined reference" in x or "duplicate" in x]
                        if not l:
                            raise Fatal("link: " + r.stderr[-500:])
                        return l[0][-300:]
                    cov["linked"] += 1
                    return None
                tasks.append(("several units that include the headers do not link into one program", "%s %s %s" % (cxx, arch, std), f))
    for name, (decl, bad, good) in REJECT.items():
        for cxx in COMPILERS:
            for std in ("-std=c++17", "-std=c++20"):
                mk = lambda e: w.src('#include "fp_to_chars.h"\n%s\nvoid f() { (void)(%s); }\n' % (decl, e))
                b, g = mk(bad), mk(good)

                def f(cxx=cxx, std=std, b=b, g=g, bad=bad):
                    ok, msg = w.cc(cxx, [std], g)
                    if not ok:
                        return "the correct twin is rejected: " + first_error(msg)
                    ok, msg = w.cc(cxx, [std], b)
                    if ok:
                        return "%s compiles" % bad
                    cov["rejected"] += 1
                    return None
                tasks.append(("misuse is not rejected (%s)" % name, "%s %s" % (cxx, std), f))
    finish(c, tasks)
    c.cov.update(programs_accepted=cov["accepted"], misuses_rejected=cov["rejected"], programs_linked=cov["linked"])
    c.assumptions.append("the installed g++ and clang++ stand for GCC and Clang")


def finish(c, tasks):
    def go(t):
        return t, t[2]()
    with ThreadPoolExecutor(NCPU) as ex:
        for (what, con, _), r in ex.map(go, tasks):
            if r:
                c.violation(what, con, path=r)
    c.cov.update(obligations=len(tasks), rule="every listed program is accepted, or rejected, by the compilers' type checkers and the linker as stated",
                 samples=["%s [%s]" % (t[0], t[1]) for t in tasks[::max(1, len(tasks) // 8)]],
                 explanation="Type-level and linkage witnesses against the current headers: nothing is run; each obligation is one compilation or link of a program that includes the headers.")


def C18_types(c):
    w = Compile(c)
    tasks = []
    for cxx in COMPILERS:
        for arch in ("-m64", "-m32"):
            for std in ("-std=c++17", "-std=c++20"):
                s = w.src('#include "fp_to_chars.h"\n' + TYPES)

                def f(cxx=cxx, fl=[arch, std], s=s):
                    ok, msg = w.cc(cxx, fl, s)
                    return None if ok else first_error(msg)
                tasks.append(("the types or defaults are not the documented ones", "%s %s %s" % (cxx, arch, std), f))
    finish(c, tasks)
