#!/usr/bin/env python3
"""Records what the code looked like when it was last analysed in full (fingerprints and constants per instantiation). The checks
use the record only to decide where to look first. Run by hand after a thorough run, never by a check."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, "vf", "known_code.json")
if os.path.exists(out):
    os.unlink(out)
env = dict(os.environ, VERIF_BASELINE=out)
for n in range(1, 20):
    p = "C%02d" % n
    if p not in ("C10", "C17"):
        subprocess.run([sys.executable, os.path.join(V, "check.py"), p], env=env, stdout=subprocess.DEVNULL)
        print(p, os.path.getsize(out))
