"""C10: effects of the code reachable from the public entry points."""
from .checks import MODES
import re
from .common import *

WORD = {"state": "state", "floating": "floating-point", "allocation": "allocation", "lock": "lock", "exception": "exception", "environment": "environment"}


def effects(c, bc, entries):
    return json.loads(c.run([c.engine(), bc, "--effects", entries]).stdout)


def build(c, driver, out, arch, defs=()):
    return c.bitcode(os.path.join(VERIF, "drivers", driver + ".cpp"), out, arch, defs, passes="function(sroa)")


def C10(c):
    # does the analysis notice what it has to
    ex = build(c, "effects", "ex", "m64")
    names = re.findall(r"\b((?:ef|clean)_\w+)\(", open(os.path.join(VERIF, "drivers", "effects.cpp")).read())
    for n in names:
        d = effects(c, ex, n)
        want = WORD[n.split("_")[1]] if n.startswith("ef_") else None
        got = set(x[0] for x in d["found"])
        if d["entries"] != 1 or (want not in got if want else got):
            raise Fatal("the analysis does not judge the example %s as it should: %s" % (n, d["found"]))
    todo = []
    for arch in ("m64", "m32"):
        for nd in ((), ("NDEBUG",)):
            for br in ((), ("FPTC_GCC_BRANCH",)):
                todo.append(("text", arch, nd + br, "t[nz]_."))
            for m in MODES:
                todo.append(("conv", arch, nd + ("MODE=" + m,), "cv_.*"))
                todo.append(("text", arch, nd + ("MODE=" + m, "CRS=do_not_care"), "t[nz]_."))
            todo.append(("bits", arch, nd, "bi_.*"))

    def one(t):
        k, (driver, arch, defs, entries) = t
        bc = build(c, driver, "f%d" % k, arch, defs)
        try:
            return effects(c, bc, entries)
        finally:
            os.unlink(bc)
    tot = dict(entry_points=0, functions=0, instructions=0, stores=0, calls=0, mutable_globals=0)
    notes, per, fns = set(), {}, set()
    with ThreadPoolExecutor(NCPU) as pool:
        for (driver, arch, defs, entries), d in zip(todo, pool.map(one, enumerate(todo))):
            if not d["entries"] or not d["functions"]:
                raise Fatal("no entry points in %s" % driver)
            name = "/".join((driver, arch) + defs)
            tot["entry_points"] += d["entries"]; tot["functions"] += len(d["functions"])
            for k in ("instructions", "stores", "calls", "mutable_globals"):
                tot[k] += d[k]
            fns.update(d["functions"])
            notes.update(d["notes"])
            per[name] = dict(entries=d["entries"], functions=len(d["functions"]), instructions=d["instructions"], found=len(d["found"]))
            for rule, what, where in d["found"]:
                if not any(v["what"] == rule + ": " + what and v["construct"] == where for v in c.violations):
                    c.violation(rule + ": " + what, where, path=name, rule=rule)
    c.cov.update(tot)
    c.cov.update(rules=sorted(WORD.values()), examples_judged=len(names), builds=per, functions_sample=sorted(fns)[:60], unresolved=sorted(notes),
                 explanation="For every build listed, all functions in the transitive call graph of the entry points are walked, instruction by instruction: stores, copies and calls "
                             "that reach an object of static or thread storage, atomic operations, guards, allocation, locks, throwing, access to the environment and floating-point "
                             "arithmetic, comparison and conversion. The examples in drivers/effects.cpp are judged first.")
    c.assumptions += ["clang's translation of the source to IR before optimisation is faithful", "indirect calls and unknown outside functions are listed under unresolved and raise no alarm"]
    for n in sorted(notes):
        c.notes.append(n)
