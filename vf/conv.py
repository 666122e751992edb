"""Running the abstract interpreter: choice of partitions, sharing of the time, gathering of the results."""
import math, re, threading
from .common import *

LOG2_10 = math.log2(10)


def exponents(fmt, thresholds, odd, rng, stride=1, full=False, wide=False, max=None, top=False, zeros=1.0, thin=2, new=(), big=(), **_):
    """Partitions in the order in which they are analysed: a biased exponent, "z" before it for the significand 0 only,
    "p" for all others only, "t" for a few of the others."""
    F = FMT[fmt]
    emax, off = F["emax"], F["bias"] + F["p"]
    # what a constant of the code may be compared with: the exponent of the value, of the significand as an integer of the
    # format's precision or of the word's width, or the biased exponent itself
    offs = [F["bias"] + F["w"] - 1, off, F["bias"], 0]
    front = []
    for k in odd[:6]:
        front += [int(round(-k * LOG2_10)) + offs[0] + i for i in range(-11, 6)]
    # constants that the code had not when it was last analysed in full
    front += [int(x[1:]) for x in big if x[0] == fmt]
    for d in (0, 1, -1):
        for o in offs:
            front += [t + o + d for t in new]
    for t in new:
        for s in (t, -t):
            e = int(math.floor(s * LOG2_10)) + off
            front += [e, e + 1]
    front = list(dict.fromkeys(x for x in front if 0 <= x <= emax))[:120]
    pts = list(range(1, emax + 1))
    rng.shuffle(pts)
    if full:
        rest = list(range(emax + 1))
        rng.shuffle(rest)
        out = list(dict.fromkeys(front + rest))
    else:
        first = [0, emax, 1, F["bias"], off, off + 1, off - 1, emax - 1, 2, 3]
        a, b, c = [], [], []
        for t in thresholds:
            for o in offs:
                (a if o == offs[0] else b).append(t + o)
                b += [t + o + 1, t + o - 1]
            # t as a decimal exponent
            for s in (t, -t):
                e = int(math.floor(s * LOG2_10)) + off
                c += [e, e + 1]
        # where exact ties are possible: 5^k fits into the significand
        d = list(range(F["bias"] - 12, off + 12))
        for l in (a, b, c, d):
            rng.shuffle(l)
        o = rng.randrange(stride)
        r = list(range(o, emax + 1, stride))
        rng.shuffle(r)
        out, seen = [], set()
        # interleave the exponents at thresholds with the evenly spread ones
        pri = [x for x in a if 0 <= x <= emax]
        sec = [x for x in b + c if 0 <= x <= emax]
        mix = front + first[:2]
        for k in range(builtin_max(len(pri), len(r), len(d))):
            mix += pri[k:k + 1] + r[2 * k:2 * k + 2] + pri[k:k + 1] + d[k:k + 1] + first[2 + k:3 + k] + (sec[k:k + 1] if wide else [])
        for x in mix + sec:
            if 0 <= x <= emax and x not in seen:
                seen.add(x)
                out.append(x)
        pts = [x for x in dict.fromkeys(pri + sec + pts) if x >= 1]
    if max:
        return ([emax + 1] if top else []) + out[:max]
    # the significand 0 costs next to nothing: it comes first, for all exponents
    if zeros < 1:
        pts = pts[:int(len(pts) * zeros)]
    z = set(pts)
    # a new constant: the likeliest exponents in full, of the others the cheap partitions at once and the rest before all other exponents
    n = 2 + builtin_min(len(front), len(set(int(x[1:]) for x in big if x[0] == fmt)) + 4)
    head, rest = out[:n], out[n:]
    near = [x for x in rest if x in front and x in z][:60]
    # "t": of an exponent only the significands with few bits and those at the ends; first where ties and exact end points are possible
    t = []
    if thin:
        d = list(range(F["bias"] - 20, off + 24))
        rng.shuffle(d)
        t = [x for x in d if 1 <= x <= emax and x not in head and x not in near]
        o = set(t + near)
        if thin > 1:
            t += [x for x in pts if x not in o and x not in head]
    mix, k = [], 0
    for x in rest:
        mix += ["t%d" % y for y in t[k:k + 3]] + ["p%d" % x if x in z else x]
        k += 3
    mix += ["t%d" % y for y in t[k:]]
    return ([emax + 1] if top else []) + head + (["t%d" % x for x in near] if thin else []) + ["z%d" % e for e in pts if e not in head] + mix


builtin_min = __builtins__["min"] if isinstance(__builtins__, dict) else __builtins__.min
builtin_max = __builtins__["max"] if isinstance(__builtins__, dict) else __builtins__.max
ALWAYS = ("assertion", "undefined-behaviour", "terminates")
NAMES = {"f": "float", "d": "double"}


class Plan:
    """A list of engine runs: each a bitcode file, its jobs and its share of the time."""

    def __init__(self, c):
        self.c = c
        self.groups = []   # (key, jobs, weight, optional)
        self.bcs = {}
        self.failed = {}
        self.found = []

    def group(self, driver, arch="m64", defs=(), w=1.0, optional=False):
        g = dict(key=(driver, arch, tuple(defs)), jobs=[], w=w, optional=optional)
        self.groups.append(g)
        return g

    @staticmethod
    def job(g, kind, name, fn, fmt, mode="nearest_to_even", crs="tie_to_even", flag="s", rules="-", Es=None, **opts):
        g["jobs"].append(dict(kind=kind, id=name, fn=fn, fmt=fmt, mode=mode, crs=crs, flag=flag, rules=rules, Es=Es, opts=opts))

    def build(self):
        keys = sorted(set(g["key"] for g in self.groups))
        opt = {k: all(g["optional"] for g in self.groups if g["key"] == k) for k in keys}

        def one(t):
            n, (driver, arch, defs) = t
            try:
                return self.c.bitcode(os.path.join(VERIF, "drivers", driver + ".cpp"), "b%d" % n, arch, defs)
            except Fatal as e:
                if opt[(driver, arch, defs)]:
                    return e
                raise
        with ThreadPoolExecutor(NCPU) as ex:
            for k, r in zip(keys, ex.map(one, enumerate(keys))):
                if isinstance(r, Fatal):
                    self.failed[k] = str(r)
                    self.c.notes.append("not analysed: %s %s %s does not compile" % (k[0], k[1], " ".join(k[2])))
                else:
                    self.bcs[k] = r

    def schedule(self, groups, deadline, partcap, stop):
        """runs the groups on the processors, the longest first; a group holds as many processors as it has threads"""
        cond = threading.Condition()
        free = [NCPU]
        t_end = time.time() + deadline
        out, err = [], []

        def go(g):
            try:
                if len(self.found) >= stop:
                    return
                d = self.c.eng(self.bcs[g["key"]], g["lines"], builtin_max(1.0, builtin_min(g["secs"], t_end - time.time())), partcap, stop, g["threads"])
                out.append((g, d))
                self.found += [v for j in d["jobs"] for v in j["violations"]]
            except Exception as e:
                err.append(e)
            finally:
                with cond:
                    free[0] += g["threads"]
                    cond.notify_all()
        ths = []
        for g in sorted(groups, key=lambda g: -g["secs"] * 100 - g["threads"]):
            with cond:
                while free[0] < g["threads"]:
                    cond.wait()
                free[0] -= g["threads"]
            t = threading.Thread(target=go, args=(g,))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        if err:
            raise err[0]
        order = {id(g): k for k, g in enumerate(groups)}
        return sorted(out, key=lambda x: order[id(x[0])])

    def baseline(self, th):
        """for vf/baseline.py: what the code looked like"""
        p = os.environ["VERIF_BASELINE"]
        d = json.load(open(p)) if os.path.exists(p) else {}
        for k, t in th.items():
            d["|".join((k[0], k[1]) + k[2])] = dict(small=t["small"], big=t["big"], code=t["code"])
        with open(p, "w") as f:
            json.dump(d, f, sort_keys=True, separators=(",", ":"))
        self.c.violations, self.c.dry = [], True

    def first_what_changed(self, groups, th):
        """shares the time: the instantiations whose code differs from that of the recorded analysis get most of it. Every job is
        still run, whatever the record says."""
        try:
            known = json.load(open(os.path.join(VERIF, "vf", "known_code.json")))
        except (OSError, ValueError):
            return groups, None
        new = set()
        out = []
        for g in groups:
            k, t = known.get("|".join((g["key"][0], g["key"][1]) + g["key"][2])), th[g["key"]]
            if k is None:
                return groups, None
            g["new"] = [x for x in t["small"] if x not in k["small"]]
            g["big"] = [x for x in t["big"] if x not in k["big"]]
            a = [j for j in g["jobs"] if k["code"].get(j["fn"]) != t["code"].get(j["fn"])]
            b = [j for j in g["jobs"] if k["code"].get(j["fn"]) == t["code"].get(j["fn"])]
            new.update(j["id"] for j in a)
            for jobs, w in ((a, 1.0), (b, 0.15)):
                if jobs:
                    out.append(dict(g, jobs=jobs, w=g["w"] * w * len(jobs) / len(g["jobs"])))
        n = sum(len(g["jobs"]) for g in groups)
        return (out if 0 < len(new) < n else groups), sorted(new)

    def run(self, rules, deadline, partcap=20, stop=4, where=None):
        c = self.c
        self.build()
        groups = [g for g in self.groups if g["key"] in self.bcs]
        th = {}
        keep = set(rules) | set(ALWAYS)
        T = dict(partitions=0, partitions_fully_decided=0, partitions_left_out_by_the_time_budget=0, path_classes=0, path_classes_decided=0,
                 path_classes_undecided=0, unconfirmed=0, singleton_partitions=0, instructions_interpreted=0, branch_sites=0)
        und, fns, per, samples = {}, set(), {}, []
        allth = set()
        keys = sorted(set(g["key"] for g in groups))
        with ThreadPoolExecutor(NCPU) as ex:
            for k, t in zip(keys, ex.map(lambda k: c.thresholds(self.bcs[k]), keys)):
                th[k] = t
                allth.update(t["small"])
        if os.environ.get("VERIF_BASELINE"):
            return self.baseline(th)
        groups, changed = self.first_what_changed(groups, th)
        for g in groups:
            g["lines"] = []
            for j in g["jobs"]:
                Es = j["Es"] if j["Es"] is not None else exponents(j["fmt"], th[g["key"]]["small"], th[g["key"]]["odd"], c.rng, new=g.get("new", ()), big=g.get("big", ()), **j["opts"])
                g["lines"].append("%s %s %s %s %s %s %s %s %s" % (j["kind"], j["id"], j["fn"], j["fmt"], j["mode"], j["crs"], j["flag"], ",".join(map(str, Es)), j["rules"]))
        tot = sum(g["w"] for g in groups) or 1
        for g in groups:
            share = deadline * NCPU * g["w"] / tot          # processor seconds
            g["threads"] = builtin_min(NCPU, int(math.ceil(share / deadline)))
            g["secs"] = share / g["threads"]
        for g, d in self.schedule(groups, deadline, partcap, stop):
            T["branch_sites"] = builtin_max(T["branch_sites"], d["branch_sites"])
            fns.update(d["functions"])
            for j in d["jobs"]:
                T["partitions"] += j["parts"]; T["partitions_fully_decided"] += j["parts_proved"]; T["partitions_left_out_by_the_time_budget"] += j["skipped"]
                T["path_classes"] += j["leaves"]; T["path_classes_decided"] += j["proved"]; T["path_classes_undecided"] += j["undecided"]
                T["unconfirmed"] += j["unconfirmed"]; T["singleton_partitions"] += j["points"]; T["instructions_interpreted"] += j["steps"]
                per[j["id"]] = dict(exponents=j["exponents"], partitions=j["parts"], decided=j["parts_proved"], left_out=j["skipped"], classes=j["leaves"])
                for k, v in j["why"].items():
                    und[k] = und.get(k, 0) + v
                for v in j["violations"]:
                    if v["rule"] in keep and (where is None or v["rule"] not in ALWAYS or re.search(where, v["what"])):
                        c.violation("%s: %s" % (v["rule"], v["what"]), j["id"], input=v["input"], output=v["output"], path=v["path"], rule=v["rule"])
                if len(samples) < 6 and j["parts"]:
                    samples.append("%s: %d partitions, the slowest at %s, split into %d path classes" % (j["id"], j["parts"], j["slowest"][0], j["leaves"]))
        for k, v in T.items():
            c.cov[k] = c.cov.get(k, 0) + v
        c.cov.update(rules=sorted(keep), jobs=per, functions_analysed=len(fns), functions=sorted(fns)[:200], undecided_reasons=und, samples=samples, thresholds_found_in_the_code=sorted(allth),
                     explanation="Abstract interpretation of the LLVM IR of every instantiation listed under jobs. A partition is one biased exponent with all significands "
                                 "and both signs (or the one significand 0); for texts of given decimals it is one digit count and exponent. Inside a partition paths are split by "
                                 "exact interval, residue and mixed-radix digit constraints. A path class counts as decided when every listed rule is shown to hold for all of its "
                                 "inputs. Undecided classes raise no alarm and are counted.")
        c.assumptions += ["clang's translation of the source to IR before optimisation is faithful", "IEEE-754 binary32/binary64, two's complement, little endian",
                          "partitions left out by the time budget and exponents not listed under jobs were not analysed in this run"]
        if changed is not None:
            c.cov["instantiations_whose_code_changed_since_the_recorded_analysis"] = len(changed)
        if T["partitions"] == 0:
            raise Fatal("nothing was analysed")
