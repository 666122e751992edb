"""Shared parts of the checks: building bitcode from /repo's current tree, running the engine, reporting."""
import json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 8
T0 = time.time()

NEAREST = ["nearest_to_even", "nearest_to_odd", "nearest_toward_plus_infinity", "nearest_toward_minus_infinity",
           "nearest_toward_zero", "nearest_away_from_zero"]
STATIC = ["nearest_to_even_static_boundary", "nearest_to_odd_static_boundary",
          "nearest_toward_plus_infinity_static_boundary", "nearest_toward_minus_infinity_static_boundary"]
DIRECTED = ["toward_plus_infinity", "toward_minus_infinity", "toward_zero", "away_from_zero"]
CRS = ["tie_to_even", "tie_to_odd", "tie_to_up", "tie_to_down", "do_not_care"]
FMT = {"f": dict(p=23, bias=127, emax=254, w=32), "d": dict(p=52, bias=1023, emax=2046, w=64)}


class Fatal(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.violations = []   # dicts: what, construct, detail
        self.notes = []
        self.cov = {}
        self.level = "other"
        self.assumptions = []
        self.rng = random.Random("%s/%d" % (pid, SEED))

    # ------------------------------------------------------------ tools
    def run(self, cmd, timeout=600, check=True, cwd=None, env=None):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=cwd or self.tmp, env=env)
        except subprocess.TimeoutExpired:
            raise Fatal("timeout: " + " ".join(cmd[:6]))
        if check and r.returncode != 0:
            raise Fatal("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-3000:]))
        return r

    def engine(self):
        e = os.path.join(VERIF, "engine", "bin", "engine")
        if not os.path.exists(e):
            d = os.path.join(self.tmp, "eng")
            e = os.path.join(d, "engine")
            if not os.path.exists(e):
                self.run(["bash", os.path.join(VERIF, "engine", "build.sh"), d])
        return e

    # the IR the engine reads: -O1 without the optimiser's passes, then scalar replacement and inlining only, so that
    # every operation of the source, and its overflow flags, are still there
    def bitcode(self, src, out, arch="m64", defs=(), extra=(), passes="cgscc(inline),function(sroa,early-cse)"):
        raw = os.path.join(self.tmp, out + ".raw.bc")
        dst = os.path.join(self.tmp, out + ".bc")
        self.run(["clang++", "-" + arch, "-std=c++17", "-I" + REPO, "-I" + os.path.join(REPO, "fp_to_chars")] + ["-D" + d for d in defs] +
                 ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-emit-llvm", "-w", "-c", src, "-o", raw] + list(extra))
        self.run(["opt", "-passes=" + passes, raw, "-o", dst])
        os.unlink(raw)
        return dst

    def conv_bitcodes(self, modes, archs=("m64",)):
        src = os.path.join(VERIF, "drivers", "conv.cpp")
        todo = [(m, a) for m in modes for a in archs]
        with ThreadPoolExecutor(NCPU) as ex:
            r = list(ex.map(lambda t: self.bitcode(src, t[0] + "." + t[1], t[1], ["MODE=" + t[0]]), todo))
        return dict(zip(todo, r))

    def thresholds(self, bc):
        """small constants of the code; decimal exponents whose entry in a table of powers of ten is not that power;
        exponents of the large constants, read as bit patterns; fingerprints of the functions. They only tell where to look first."""
        a, b, d = (self.run([self.engine(), bc, "--thresholds"]).stdout.split("\n") + ["", ""])[:3]
        f = dict(l.split() for l in self.run([self.engine(), bc, "--fingerprints"]).stdout.split("\n") if l)
        return dict(small=sorted(set(int(x) for x in a.split())), odd=[int(x) for x in b.split()], big=d.split(), code=f)

    def eng(self, bc, jobs, deadline, partcap=60, stop=4, threads=None):
        fd, jf = tempfile.mkstemp(suffix=".jobs", dir=self.tmp)
        os.close(fd)
        with open(jf, "w") as f:
            f.write("\n".join(jobs) + "\n")
        env = dict(os.environ, ENG_DEADLINE=str(deadline), ENG_PARTCAP=str(partcap), ENG_STOP=str(stop))
        r = self.run([self.engine(), bc, jf, str(threads or NCPU)], timeout=deadline + 300, env=env)
        return json.loads(r.stdout)

    # ------------------------------------------------------------ reporting
    def violation(self, what, construct="", **kw):
        self.violations.append(dict(what=what, construct=construct, **kw))

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        if getattr(self, "dry", False):
            return 0
        known = load_known(self.pid)
        new = []
        for v in self.violations:
            hit = [k for k in known if all(s in json.dumps(v) for s in k["match"])]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, hit[0]["what"]))
            else:
                new.append(v)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for n in self.notes[:20]:
            print("note: " + n)
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".replay.json")
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, violations=new[:100]), f, indent=1)
            for v in new[:5]:
                print("  %s%s" % (v["what"], (" [" + v["construct"] + "]") if v["construct"] else ""))
                for k in ("input", "output", "path"):
                    if v.get(k):
                        print("     %s: %s" % (k, v[k]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s %s" % (self.pid, summary(self.cov)))
        return 0


def summary(c):
    return " ".join("%s=%s" % (k, v) for k, v in c.items() if isinstance(v, (int, float, bool)))


def load_known(pid):
    """known_findings.jsonl: {"property":..., "kind":"finding","match":[substrings],"what":...}; 'fixed' lines suppress nothing"""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("kind") == "finding" and k.get("property") == pid:
                    out.append(k)
    return out
