#!/usr/bin/env python3
"""Sensitivity probe: apply small source changes to a scratch copy of amtl and see which scenarios notice.

  mutate.py PROPERTY FILE.json [N]     FILE.json: [[name, file, old, new, old2, new2, ...], ...]

Not a check: development aid. Prints one line per change.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402


def one(pid, m, n, cpu):
    name, f = m[0], m[1]
    d = tempfile.mkdtemp(prefix="amtl-mut-")
    try:
        subprocess.check_call(["cp", "-a", "/repo/amtl", d + "/"])
        path = os.path.join(d, f)
        t = open(path).read()
        for o, w in zip(m[2::2], m[3::2]):
            if o not in t:
                return name, "NO MATCH " + o
            t = t.replace(o, w)
        open(path, "w").write(t)
        env = dict(os.environ, AMTL_REPO=d, AMTL_SIM_BUILD=os.path.join(d, "b"))
        r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), "--build", pid], env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return name, "DOES NOT BUILD " + r.stdout[-600:]
        found, clean = [], []
        for job in CHECKS[pid]["jobs"]:
            for scen in job["scens"]:
                for var in job.get("variants", ["dbg", "rel"]):
                    args = [os.path.join(d, "b", pid, job["src"] + "." + var), "run", "--scen", scen, "--seed", "3",
                            "--count", str(n), "--cap", "60", "--cpu", str(cpu), "--maxviol", "3",
                            "--ignore", ",".join(job.get("ignore", []))]
                    if job.get("scratch"):
                        args += ["--scratch", os.path.join(d, "fs")]
                        os.makedirs(os.path.join(d, "fs"), exist_ok=True)
                    o = subprocess.run(args, stdout=subprocess.PIPE, text=True).stdout
                    s = [json.loads(x[8:]) for x in o.splitlines() if x.startswith("SUMMARY")]
                    if not s:
                        found.append("%s/%s NO SUMMARY" % (scen, var))
                    elif s[0]["violations"]:
                        v = s[0]["violations"][0]
                        found.append("%s/%s@%d %s: %s" % (scen, var, s[0]["runs"], v["class"], v["msg"][:90]))
                    else:
                        clean.append("%s/%s%s" % (scen, var, "(ign %d)" % s[0]["ignored"] if s[0]["ignored"] else ""))
        if found:
            return name, "caught  " + " | ".join(found[:2])
        return name, "MISSED"
    finally:
        shutil.rmtree(d)


def main():
    pid, ms = sys.argv[1], json.load(open(sys.argv[2]))
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 6000
    with ThreadPoolExecutor(8) as ex:
        for name, res in ex.map(lambda a: one(pid, a[1], n, a[0] % 8), enumerate(ms)):
            print("%-28s %s" % (name, res), flush=True)


main()
