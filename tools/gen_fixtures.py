#!/usr/bin/env python3
"""Writes the recorded ids and repositories of C21 (fixtures/) from the program as it is now.

Run only to record a release: `tools/gen_fixtures.py` for this one, with `original REPO` for the
repository written by another version of the program (built from REPO)."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, VX_PART="gen")
if len(sys.argv) > 2:
    env.update(VX_PART="gen-original", VX_REPO=sys.argv[2], VX_TARGET="/tmp/gen-fixtures-target")
out = subprocess.run([os.path.join(here, "check"), "C21", "quick"], env=env, capture_output=True, text=True).stdout
texts = {}
for l in out.split("\n"):
    p = l.split("\t")
    if p[0] == "HEX":
        open(os.path.join(here, "fixtures", p[1]), "wb").write(bytes.fromhex(p[2]))
    elif p[0] == "TXT":
        texts.setdefault(p[1], []).append(p[2] + "\t" + p[3])
for n, ls in texts.items():
    open(os.path.join(here, "fixtures", n), "w").write("".join(x + "\n" for x in ls))
print({n: len(ls) for n, ls in texts.items()}, out[-300:])
