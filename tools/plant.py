#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a spec directory and confirms it (development aid, not a check).

  plant.py [--nocheck] SPECDIR...     SPECDIR/<spec.json, demo.cpp>: spec.json has property, needs, what_it_breaks,
                                      edits [[file, old, new], ...], flags (for g++), runs (of the demo; default 1)
  plant.py --recheck [ID...]          re-confirms what is in /verif/seeded
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "4fd85ab"
DEMO = '''#!/bin/bash
# cwd: the repository. Exits 0 if the guarantee holds, nonzero if not.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -f "$t/demo"; rmdir "$t"' EXIT
g++ -std=c++17 @FLAGS@ -pthread -D_LINUX -DPOSIX -Dstricmp=strcasecmp -I"$PWD" "$d/demo.cpp" -o "$t/demo" -ldl || exit 3
timeout @TIME@ "$t/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy_repo(d):
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    os.makedirs(d)
    for x in os.listdir("/repo"):
        if x not in (".git", "_build"):
            subprocess.check_call(["cp", "-a", "/repo/" + x, d + "/"])
    sh(["git", "init", "-q", d])


def stable(d):
    """Builds the copy and runs the stable tests."""
    c = d + ".cmake"
    os.makedirs(c)
    t = open("/opt/vp/amtl-build/CMakeLists.txt").read().replace("set(REPO /repo)", "set(REPO %s)" % d)
    open(c + "/CMakeLists.txt", "w").write(t)
    b = d + ".build"
    r = sh(["cmake", "-S", c, "-B", b, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=/usr/bin/g++"])
    if r.returncode:
        return "CONFIGURE " + r.stdout[-500:]
    r = sh(["ninja", "-C", b])
    if r.returncode:
        return "BUILD " + r.stdout[-1500:]
    r = sh(["ctest", "--test-dir", b, "-j2", "--timeout", "60"])
    want = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    bad = [w for w in want if not re.search(r"Test\s+#\d+: %s \.+\s+Passed" % re.escape(w.split("::")[-1]), r.stdout)]
    return "ok" if not bad else "TESTS FAIL %s" % bad[:5]


def blame(edits_patch):
    """Lines removed by the patch have to be original ones."""
    cur = None
    bad, n = [], 0
    for l in edits_patch.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m:
            line = int(m.group(1))
            continue
        if l.startswith("-") and not l.startswith("---"):
            r = sh(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (line, line), "HEAD", "--", cur]).stdout
            h = r.split()[0].lstrip("^")
            base = subprocess.check_output(["git", "-C", "/repo", "rev-parse", BASE], text=True)
            if not base.startswith(h[:7]):
                bad.append(r.strip())
            n += 1
            line += 1
        elif l.startswith(" "):
            line += 1
    return bad, n


def demo(out, d):
    t = tempfile.mkdtemp(prefix="amtl-demo-")
    for x in os.listdir(out):
        if x not in ("patch.diff", "meta.json"):
            shutil.copy(os.path.join(out, x), t)
    s = time.time()
    r = sh(["bash", t + "/demo.sh"], cwd=d)
    shutil.rmtree(t)
    return r.returncode, round(time.time() - s, 1), r.stdout[-300:]


def plant(spec, nocheck, cpu):
    name = os.path.basename(spec.rstrip("/"))
    out = os.path.join(ROOT, "seeded", name)
    msgs = []
    w = tempfile.mkdtemp(prefix="amtl-plant-")
    try:
        good, bug = w + "/good", w + "/bug"
        copy_repo(good)
        copy_repo(bug)
        if os.path.exists(spec + "/spec.json"):
            s = json.load(open(spec + "/spec.json"))
            for f, o, n in s["edits"]:
                p = os.path.join(bug, f)
                t = open(p).read()
                if t.count(o) != 1:
                    return name, "MATCHES %d times: %s" % (t.count(o), o)
                open(p, "w").write(t.replace(o, n))
            r = subprocess.run(["diff", "-ru", "good/amtl", "bug/amtl"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
            lines = []
            for l in r.splitlines():
                if l.startswith("diff -ru"):
                    continue
                l = re.sub(r"^--- good/(\S+).*", r"--- a/\1", l)
                l = re.sub(r"^\+\+\+ bug/(\S+).*", r"+++ b/\1", l)
                lines.append(l)
            patch = "\n".join(lines) + "\n"
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(patch)
            json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
            open(out + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", s.get("flags", "-O1 -g")).replace("@TIME@", str(s.get("time", 120))))
            os.chmod(out + "/demo.sh", 0o755)
            for x in os.listdir(spec):
                if x != "spec.json":
                    shutil.copy(os.path.join(spec, x), out)
            r = sh(["git", "apply", "--check", out + "/patch.diff"], cwd=good)
            if r.returncode:
                msgs.append("DOES NOT APPLY " + r.stdout)
        else:
            r = sh(["git", "apply", out + "/patch.diff"], cwd=bug)
            if r.returncode:
                return name, "DOES NOT APPLY " + r.stdout
        pid = json.load(open(out + "/meta.json"))["property"]
        bad, n = blame(open(out + "/patch.diff").read())
        if bad or not n:
            msgs.append("BLAME %d %s" % (n, bad))
        st = stable(bug)
        if st != "ok":
            msgs.append(st)
        g = demo(out, good)
        if g[0]:
            msgs.append("DEMO FAILS ON GOOD %s" % (g,))
        b = demo(out, bug)
        if not b[0] or b[0] == 3:
            msgs.append("DEMO DOES NOT SHOW IT %s" % (b,))
        msgs.append("demo %ss/%ss rc=%d %s" % (g[1], b[1], b[0], b[2].strip().splitlines()[-1][:80] if b[2].strip() else ""))
        if not nocheck:
            env = dict(os.environ, AMTL_REPO=bug, AMTL_SIM_BUILD=w + "/b", AMTL_SIM_OUT=w + "/o", VERIF_SEED="1", VERIF_TIER="quick")
            s = time.time()
            r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid], env=env, text=True, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            msgs.append("check rc=%d %ds %s" % (r.returncode, time.time() - s, "CAUGHT" if r.returncode == 1 and v else "MISSED " + r.stdout[-300:]))
        return name, " | ".join(msgs)
    finally:
        shutil.rmtree(w)


def main(a):
    nocheck = "--nocheck" in a
    re_ = "--recheck" in a
    a = [x for x in a if not x.startswith("--")]
    if re_:
        a = [os.path.join("/nonexistent", x) for x in (a or sorted(os.listdir(ROOT + "/seeded")))]
    with ThreadPoolExecutor(2 if nocheck else 1) as ex:
        for name, m in ex.map(lambda x: plant(x, nocheck, 0), a):
            print("%-28s %s" % (name, m), flush=True)


main(sys.argv[1:])
