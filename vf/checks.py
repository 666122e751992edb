from .common import *
from .conv import *

quick = TIER != "thorough"
DL = float(os.environ.get("VERIF_DEADLINE", "80" if quick else "3000"))
MODES = NEAREST + STATIC + DIRECTED
MIRROR = {m: m for m in MODES}
for _a, _b in (("nearest_toward_plus_infinity", "nearest_toward_minus_infinity"), ("toward_plus_infinity", "toward_minus_infinity"),
               ("nearest_toward_plus_infinity_static_boundary", "nearest_toward_minus_infinity_static_boundary")):
    MIRROR[_a], MIRROR[_b] = _b, _a


def conv(p, mode, items, rules, arch="m64", w=1.0, **kw):
    """items: (crs, flag, fmt, opts)"""
    g = p.group("conv", arch, ["MODE=" + mode], w)
    for crs, sg, fmt, o in items:
        if not quick:
            o = dict(full=True, thin=0)
        p.job(g, "conv", "%s/%s/%s/%s/%s" % (mode, arch, crs, "signed" if sg == "s" else "unsigned", NAMES[fmt]),
              "cv_%s_%s_%s" % (fmt, sg, crs), fmt, mode, crs, sg, rules, **o)
    return g


def spec(p, modes, crss, rules, arch="m64", main="nearest_to_even", wmain=6.0):
    """the main combination gets most of the time, all others an equal share"""
    if main in modes:
        conv(p, main, [("tie_to_even", "s", "f", dict(full=True, thin=1)), ("tie_to_even", "s", "d", dict(stride=3, wide=True, thin=1))], rules, arch, wmain)
    for m in modes:
        cs = [c for c in crss if quick is False or not (m == main and c == "tie_to_even")]
        conv(p, m, [(cr, "s", f, dict(stride=1)) for cr in cs for f in "fd"], rules, arch, 1.0)


def C01(c):
    p = Plan(c)
    spec(p, NEAREST, CRS, "interval")
    p.run(["interval"], DL)


def C02(c):
    p = Plan(c)
    spec(p, NEAREST, CRS, "shortest")
    p.run(["shortest"], DL)


def C03(c):
    p = Plan(c)
    spec(p, NEAREST, CRS[:4], "closest")
    p.run(["closest"], DL)


def C04(c):
    p = Plan(c)
    spec(p, DIRECTED, CRS, "interval,shortest,closest", main="")
    p.run(["interval", "shortest", "closest"], DL)


def C05(c):
    p = Plan(c)
    for m in MODES:
        g = p.group("pair", "m64", ["MODE=" + m, "MODE2=" + MIRROR[m], "P_SG"])
        for cr in CRS:
            for f in "fd":
                p.job(g, "pair", "%s/%s/%s" % (m, cr, NAMES[f]), "sg_%s_%s" % (f, cr), f, m, cr, "u", "equal:6", **(dict(stride=1) if quick else dict(full=True, thin=0)))
    p.run(["equal"], DL)


def C06(c):
    p = Plan(c)
    spec(p, STATIC, CRS, "interval,shortest,closest", main="")
    for m in STATIC:
        g = p.group("pair", "m64", ["MODE=" + m, "MODE2=" + m.replace("_static_boundary", ""), "P_MM"], 0.6)
        for cr in CRS[:4]:
            for f in "fd":
                p.job(g, "pair", "same/%s/%s/%s" % (m, cr, NAMES[f]), "mm_%s_%s" % (f, cr), f, m, cr, "u", "equal:3", **(dict(stride=1) if quick else dict(full=True, thin=0)))
    p.run(["interval", "shortest", "closest", "equal"], DL)


TEXT_EXP = {"f": (-45 - 8, 38), "d": (-324 - 16, 308)}   # exponents of the last digit that finite values can have
TEXT_LEN = {"f": 9, "d": 17}


def text_Es(fmt, rng):
    """(digit count, exponent) pairs that a conversion can return: exponent of the first digit within the format's range"""
    lo, hi = {"f": (-45, 38), "d": (-324, 308)}[fmt]
    out = []
    for L in range(1, TEXT_LEN[fmt] + 1):
        for e in range(lo - L + 1, hi - L + 2):
            out.append(L * 4096 + 2048 + e)
    rng.shuffle(out)
    # the widths of the printed exponent first
    key = [L * 4096 + 2048 + E - L + 1 for L in range(1, TEXT_LEN[fmt] + 1) for E in (-100, -99, -10, -9, -1, 0, 1, 9, 10, 99, 100, lo, hi) if lo <= E <= hi]
    return list(dict.fromkeys(key + out))


def text_groups(p, rules, z=True, n=False, w=1.0):
    for arch, defs in (("m64", ()), ("m64", ("FPTC_GCC_BRANCH",)), ("m32", ()), ("m32", ("FPTC_GCC_BRANCH",))):
        g = p.group("given", arch, defs, w, optional=True)
        for f in "df":
            for on, pre, flag in ((z, "gz", "z"), (n, "gn", "s")):
                if on:
                    p.job(g, "text", "%s/%s%s/%s/%s" % ("given-decimal", arch, "/" + defs[0] if defs else "", "terminated" if flag == "z" else "plain", NAMES[f]),
                          "%s_%s" % (pre, f), f, flag=flag, rules=rules, Es=text_Es(f, p.c.rng))


def chars_groups(p, rules, w=1.0, modes=(None,), Es=None, opts=None, z=True, n=True, archs=("m64",), crs="tie_to_even"):
    for m in modes:
        for arch in archs:
            g = p.group("text", arch, ["MODE=" + m, "CRS=" + crs] if m else [], w)
            for f in "df":
                for on, pre, flag in ((z, "tz", "z"), (n, "tn", "s")):
                    if on:
                        e = Es(f) if Es else None
                        p.job(g, "chars", "text/%s/%s/%s/%s" % (m or "default", arch, "terminated" if flag == "z" else "plain", NAMES[f]), "%s_%s" % (pre, f), f,
                              m or "nearest_to_even", crs, flag, rules, e, **(opts or (dict(stride=1) if quick else dict(full=True, thin=0))))


def C07(c):
    p = Plan(c)
    text_groups(p, "sign,grammar,value,end", True, False, 1.0)
    # from the value to the text
    chars_groups(p, "sign,grammar,interval,shortest,closest,end", 1.0, n=False)
    chars_groups(p, "sign,grammar,interval,shortest,closest,end", 0.25, modes=[m for m in MODES if m != "nearest_to_even"], n=False)
    p.run(["sign", "grammar", "value", "interval", "shortest", "closest", "end"], DL)


def special_Es(f):
    return [0, FMT[f]["emax"] + 1]


def C08(c):
    p = Plan(c)
    for arch in ("m64", "m32"):
        for defs in ((), ("FPTC_GCC_BRANCH",)):
            g = p.group("text", arch, defs)
            for f in "df":
                for pre, flag in (("tz", "z"), ("tn", "s")):
                    p.job(g, "chars", "text/%s%s/%s/%s" % (arch, "/" + defs[0] if defs else "", "terminated" if flag == "z" else "plain", NAMES[f]), "%s_%s" % (pre, f), f, flag=flag, rules="special", Es=special_Es(f))
    chars_groups(p, "special", modes=MODES, Es=special_Es)
    p.run(["special", "end"], DL)


def C09(c):
    p = Plan(c)
    text_groups(p, "end,extent", True, True, 1.0)
    chars_groups(p, "special,end,extent", 0.2, Es=special_Es, archs=("m64", "m32"))
    chars_groups(p, "end,extent", 1.0)
    p.run(["end", "extent"], DL)


def C11(c):
    p = Plan(c)
    for m in MODES:
        for arch in ("m64", "m32"):
            conv(p, m, [(cr, sg, f, dict(stride=1)) for cr in CRS for sg in "su" for f in "fd"], "-", arch, 1.0)
    for m in MODES:
        chars_groups(p, "-", 0.3, modes=[m], n=False, opts=dict(stride=1, top=True) if quick else dict(full=True, top=True))
    text_groups(p, "-", True, True, 0.5)
    p.run([], DL)


def C12(c):
    p = Plan(c)
    spec(p, MODES, CRS, "interval,shortest,closest", "m32", wmain=8.0)
    p.run(["interval", "shortest", "closest"], DL)


def C15(c):
    p = Plan(c)
    for arch in ("m64", "m32"):
        g = p.group("bits", arch)
        for f in "fd":
            p.job(g, "bits", "inspectors/%s/%s" % (arch, NAMES[f]), "bi_" + f, f, rules="inspector", Es=range(FMT[f]["emax"] + 2))
    p.run(["inspector"], DL)


def C16(c):
    p = Plan(c)
    for m in MODES:
        g = p.group("conv", "m64", ["MODE=" + m], 0.2)
        for cr in CRS:
            for sg in "su":
                for f in "fd":
                    p.job(g, "fin", "non-finite/%s/%s/%s/%s" % (m, cr, "signed" if sg == "s" else "unsigned", NAMES[f]), "cv_%s_%s_%s" % (f, sg, cr), f, m, cr, sg, "case-handler", [FMT[f]["emax"] + 1])
    g = p.group("pair", "m64", ["HANDLERS"], 0.2)
    for f in "fd":
        p.job(g, "pair", "ignoring-handler-returns/" + NAMES[f], "hi_" + f, f, flag="s", rules="equal:1", Es=range(FMT[f]["emax"] + 2))
        p.job(g, "pair", "asserting-handler-returns-on-finite/" + NAMES[f], "ha_" + f, f, flag="s", rules="equal:1", Es=range(FMT[f]["emax"] + 1))
    # with a stand-in for the conversion: what the entry does before it
    g = p.group("pair", "m64", ["STUB"], 0.6, optional=True)
    for f in "fd":
        every = range(FMT[f]["emax"] + 2)
        for n, cr in (("s", "tie_to_even"), ("u", "tie_to_even"), ("s", "do_not_care"), ("u", "tie_to_down")):
            t = "%s/%s/%s" % ("signed" if n == "s" else "unsigned", cr, NAMES[f])
            p.job(g, "pair", "entry/user-handler/" + t, "su%s_%s_%s" % (n, f, cr), f, flag="s", rules="equal:6", Es=every)
            p.job(g, "pair", "entry/ignoring-handler/" + t, "si%s_%s_%s" % (n, f, cr), f, flag="s", rules="equal:1", Es=every)
            p.job(g, "pair", "entry/default-handler-on-finite/" + t, "sd%s_%s_%s" % (n, f, cr), f, flag="s", rules="equal:1", Es=range(FMT[f]["emax"] + 1))
            p.job(g, "fin", "entry/default-handler-on-non-finite/" + t, "sf%s_%s_%s" % (n, f, cr), f, flag="s", rules="case-handler", Es=[FMT[f]["emax"] + 1])
    # a handler with state of its own, in a program of its own: a tree may not take one that is not const
    g = p.group("pair", "m64", ["STUB", "KEEPER"], 0.3, optional=True)
    for f in "fd":
        for n, cr in (("s", "tie_to_even"), ("u", "tie_to_even")):
            p.job(g, "pair", "entry/handler-of-the-caller/%s/%s/%s" % ("signed" if n == "s" else "unsigned", cr, NAMES[f]), "sk%s_%s_%s" % (n, f, cr), f, flag="s", rules="equal:6", Es=range(FMT[f]["emax"] + 2))
    for m in MODES:
        g = p.group("pair", "m64", ["MODE=" + m, "P_HI", "P_HU"])
        for f in "fd":
            p.job(g, "pair", "user-handler/%s/%s" % (m, NAMES[f]), "hu_" + f, f, m, "tie_to_even", "u", "equal:6", **(dict(stride=1) if quick else dict(full=True, thin=0)))
            for cr in CRS:
                p.job(g, "pair", "ignoring-handler/%s/%s/%s" % (m, cr, NAMES[f]), "hi_%s_%s" % (f, cr), f, m, cr, "u", "equal:3", **(dict(stride=1) if quick else dict(full=True, thin=0)))
    p.run(["case-handler", "equal"], DL)




HELPERS = {"mul": [("UMUL128", 0), ("UMUL128_UPPER64", 1), ("UMUL192_UPPER64", 2), ("UMUL96_UPPER32", 3)],
           "log": [("LOG10_POW2", 0), ("LOG2_POW10", 1), ("LOG5_POW2", 2)]}


def helpers(p, *names, archs=("m64", "m32")):
    for arch in archs:
        def g(h):
            return p.group("helpers", arch, ["H_" + h], 0.5, optional=True)
        for n in names:
            if n in ("mul", "log"):
                for h, E in HELPERS[n]:
                    p.job(g(h), n, "%s/%s" % (h.lower(), arch), "mul" if n == "mul" else "lg", "d", rules="product" if n == "mul" else "logarithm", Es=[E])
            elif n == "cache":
                q = g("CACHE")
                for f in "fd":
                    p.job(q, "cache", "cached-powers/%s/%s" % (arch, NAMES[f]), "ca_" + f, f, rules="cached-power", Es=[0])
            elif n == "div":
                # the exponents for which the conversion asks
                q = g("DIV2")
                for f, m in (("f", 140), ("d", 800)):
                    p.job(q, "div2", "divisible_by_power_of_2/%s/%s" % (arch, NAMES[f]), "dv_" + f, f, rules="divisibility", Es=range(1, m + 1))
                q = g("DIV5")
                for f, m in (("f", 10), ("d", 23)):
                    p.job(q, "div5", "divisible_by_power_of_5/%s/%s" % (arch, NAMES[f]), "dv_" + f, f, rules="divisibility", Es=range(1, m + 1))


def asked(p, w=0.4):
    """the conversion itself, only for what it hands to its helpers: every exponent, at least with the significand 0"""
    for m in MODES:
        for arch in ("m64", "m32"):
            conv(p, m, [("tie_to_even", "s", f, dict(stride=1)) for f in "fd"], "-", arch, w)


def C10(c):
    from .effects import C10 as f
    f(c)


def C13(c):
    p = Plan(c)
    helpers(p, "cache")
    asked(p)
    p.run(["cached-power"], min(DL, 40) if quick else DL, where="cache")


def C14(c):
    p = Plan(c)
    helpers(p, "log")
    asked(p)
    p.run(["logarithm"], min(DL, 40) if quick else DL, where="floor_log")


def C19(c):
    p = Plan(c)
    helpers(p, "mul", "div")
    asked(p, 0.05)
    p.run(["product", "divisibility"], DL, where="umul|divisible_by|div_test|divisibility")


def C17(c):
    from .compile import C17 as f
    f(c)


def C18(c):
    from .compile import C18_types
    C18_types(c)
    e1, o1 = c.cov.pop("explanation"), c.cov.pop("samples")
    p = Plan(c)
    tie = lambda f: dict(Es=tie_Es(f, c.rng)) if quick else dict(full=True, thin=0)
    g = p.group("pair", "m64", ["DEFAULTS"], 2.0)
    for f in "fd":
        for n in ("df0", "df1", "df2", "df3"):
            p.job(g, "pair", "omitted-arguments/%s/%s" % (n, NAMES[f]), "%s_%s" % (n, f), f, flag="u", rules="equal:3", **tie(f))
        p.job(g, "pair", "omitted-arguments/toward_zero/%s" % NAMES[f], "pm_" + f, f, "toward_zero", flag="u", rules="equal:3", **tie(f))
        p.job(g, "pair", "omitted-arguments/nearest_to_odd/%s" % NAMES[f], "pn_" + f, f, "nearest_to_odd", flag="u", rules="equal:3", **tie(f))
    # the text with its defaults is that of nearest_to_even, tie_to_even
    chars_groups(p, "sign,grammar,interval,shortest,closest", 2.0, Es=lambda f: tie_Es(f, c.rng) if quick else exponents(f, [], [], c.rng, full=True))
    p.run(["equal", "sign", "grammar", "interval", "shortest", "closest"], DL - 6 if quick else DL)
    c.cov["explanation"] = e1 + " " + c.cov["explanation"]
    c.cov["samples"] = o1 + c.cov["samples"]


def tie_Es(f, rng):
    """exponents at which ties and end points that are decimals occur, then some others"""
    F = FMT[f]
    near = list(range(F["bias"] - 8, F["bias"] + F["p"] + 8))
    rest = list(range(0, F["emax"] + 1))
    rng.shuffle(near)
    rng.shuffle(rest)
    return list(dict.fromkeys(near[:12] + rest[:4] + near + rest[:200]))


CHECKS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
