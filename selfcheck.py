#!/usr/bin/env python3
"""Each broken design (spec/mc/*_bad_*.cfg) must be refuted by its model: no invariant is vacuous."""
import concurrent.futures as cf
import glob, os, re, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from check import SPEC, java  # noqa: E402


def refuted(cfg):
    name, rest = os.path.basename(cfg)[:-4].split("_", 1)
    with tempfile.TemporaryDirectory() as meta:
        cmd = java(meta, heap="3g", workers="2") + ["-deadlock", "-config", f"mc/{name}_{rest}.cfg", f"mc/{name}.tla"]
        cmd[1:1] = [f"-DTLA-Library={SPEC}:{SPEC}/mc"]
        out = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors="replace", timeout=1800).stdout
    m = re.search(r"(Invariant|Action property|Temporal properties?) ?(\S*) (is|were|was) violated", out)
    return f"{name}_{rest}", m.group(0) if m else "NOT REFUTED\n" + out[-800:]


with cf.ThreadPoolExecutor(4) as ex:
    rs = list(ex.map(refuted, sorted(glob.glob(os.path.join(SPEC, "mc", "*_bad_*.cfg")))))
for n, r in rs:
    print(f"{n:28} {r}")
sys.exit(any("NOT" in r for _, r in rs))
