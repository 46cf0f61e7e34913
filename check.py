#!/usr/bin/env python3
"""Deterministic simulation checks for alliedmodders/amtl.

  check.py C01                    run the check of one property (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE [-v]     rebuild and re-execute a replay file
  check.py --build C01            only build

Exit 0: held on everything explored. Exit 1: "VIOLATION property=<id> replay=<path>".
Anything else: the check itself is in error.
"""
import array
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import zlib

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AMTL_REPO", "/repo")
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

COMMON = ["-std=c++17", "-g", "-fsanitize=thread", "-fstack-protector-all", "-U_FORTIFY_SOURCE",
          "-fno-threadsafe-statics", "-Wno-unused", "-D_LINUX", "-DPOSIX", "-Dstricmp=strcasecmp",
          "-D_stricmp=strcasecmp", "-D_snprintf=snprintf", "-D_vsnprintf=vsnprintf"]
# Unoptimised, so that nothing the code does is dropped as dead; but these would take too long.
SLOW = ("hash", "fixedarray", "pqueue", "sysalloc")
VARIANTS = {"dbg": ["-O0", "-DDEBUG", "-D_DEBUG"], "rel": ["-O2", "-DNDEBUG"]}


class Failed(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise Failed("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build(pid):
    """Builds the simulator and this property's scenarios against REPO's current tree."""
    cfg = CHECKS[pid]
    out = os.path.join(os.environ.get("AMTL_SIM_BUILD", os.path.join(ROOT, "build")), pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    errs = []
    lib = os.path.join(out, "libsimrt.so")

    def rt():
        sh(["g++", "-std=c++17", "-O2", "-fPIC", "-ftls-model=initial-exec", "-shared", "-Wl,-Bsymbolic",
            "-Wl,--version-script=" + ROOT + "/sim/rt.map", ROOT + "/sim/rt.cpp", "-o", lib])

    def obj(src, var):
        o = os.path.join(out, "%s.%s.o" % (src, var))
        cmd = ["g++"] + COMMON + VARIANTS[var] + (["-O1"] if var == "dbg" and src in SLOW else []) + ["-I" + REPO, "-I" + REPO + "/amtl", "-c", "%s/scen/%s.cpp" % (ROOT, src), "-o", o]
        try:
            sh(cmd)
        except Failed:
            # Without the rarer ways of calling the interface.
            sh(cmd + ["-DSIM_LITE"])
        sh(["objcopy", "--redefine-syms=" + ROOT + "/sim/redirect.syms", o])

    def guard(fn, *a):
        try:
            fn(*a)
        except Exception as e:  # noqa
            errs.append(e)

    jobs = {(j["src"], v) for j in cfg["jobs"] for v in j.get("variants", ["dbg", "rel"])}
    ths = [threading.Thread(target=guard, args=(rt,))]
    ths += [threading.Thread(target=guard, args=(obj, s, v)) for s, v in jobs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    for s, v in jobs:
        sh(["g++", "-no-pie", "-o", os.path.join(out, s + "." + v), ROOT + "/sim/main.cpp",
            os.path.join(out, "%s.%s.o" % (s, v)), "-L" + out, "-lsimrt", "-Wl,-rpath," + out, "-ldl", "-lpthread"])
    return out


def result_of(text):
    for line in text.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    raise Failed("no result: " + text[-500:])


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.cfg = CHECKS[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.cpus = sorted(os.sched_getaffinity(0))[:16]
        self.t0 = time.time()

    def exe(self, job, var):
        return os.path.join(self.out, job["src"] + "." + var)

    def scratch_args(self, job):
        return ["--scratch", self.scratch] if job.get("scratch") else []

    def run_proc(self, args, timeout):
        return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout).stdout

    # The same seeds in two processes, on different CPUs, must give identical executions.
    def self_check(self):
        n = self.cfg.get("selfcheck", 60)
        bad = []
        total = [0]

        def one(job, scen, var, k):
            outs = []
            for rep in range(2):
                cpu = self.cpus[(k + rep) % len(self.cpus)]
                outs.append(self.run_proc([self.exe(job, var), "run", "--scen", scen, "--seed", str(self.seed + 7777),
                                           "--count", str(n), "--dump", "1", "--maxviol", "1000000", "--cap", "60",
                                           "--cpu", str(cpu), "--start", "0"] + self.scratch_args(job), 200))
            a, b = ([l for l in o.splitlines() if not l.startswith("SUMMARY")] for o in outs)
            m = min(len(a), len(b))
            total[0] += m
            if not m or a[:m] != b[:m]:
                bad.append("%s/%s" % (scen, var))

        ths = []
        for k, (job, scen, var) in enumerate(self.combos()):
            t = threading.Thread(target=one, args=(job, scen, var, k))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        return bad, total[0]

    def combos(self):
        return [(j, s, v) for j in self.cfg["jobs"] for s in j["scens"] for v in j.get("variants", ["dbg", "rel"])]

    def explore(self):
        tier = self.tier
        combos = self.combos()
        # wall clock for the whole search, and a number of runs that normally fits into it
        wall = self.cfg.get("wall", {}).get(tier, 40 if tier == "quick" else 600)
        runs = self.cfg.get("runs", {}).get(tier, 120000 if tier == "quick" else 4000000)
        ncpu = len(self.cpus)
        deadline = time.time() + wall
        shards = queue.Queue()
        total_w = sum(j.get("weight", 1) for j, _, _ in combos)
        # every combination is cut into slices; all combinations advance together
        nslice = 2 if tier == "quick" else 12
        for sl in range(nslice):
            for job, scen, var in combos:
                w = job.get("weight", 1) / total_w
                per = max(50, int(runs * w / ncpu / nslice))
                # even share of the remaining wall clock
                share = wall * w / nslice
                for c in range(ncpu):
                    idx = sl * ncpu + c
                    shards.put((job, scen, var, per, share, idx, nslice * ncpu))
        results, errors = [], []
        stop = threading.Event()
        lock = threading.Lock()
        known = self.known()

        def worker(cpu):
            while not stop.is_set():
                try:
                    job, scen, var, per, share, idx, stride = shards.get_nowait()
                except queue.Empty:
                    return
                left = deadline - time.time()
                cap = min(max(share * 1.6, 1.0), max(left, 0.3))
                hf = os.path.join(self.tmp, "h_%s_%s_%d" % (scen, var, idx))
                args = [self.exe(job, var), "run", "--scen", scen, "--seed", str(self.seed), "--start", str(idx),
                        "--stride", str(stride), "--count", str(per), "--cap", "%.2f" % cap, "--cpu", str(cpu),
                        "--hashes", hf, "--ignore", ",".join(job.get("ignore", []))] + self.scratch_args(job)
                try:
                    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                    with lock:
                        procs.add(p)
                    out = p.communicate(timeout=cap + 150)[0]
                    with lock:
                        procs.discard(p)
                except Exception as e:  # noqa
                    errors.append("%s: %s" % (scen, e))
                    continue
                s = None
                for line in out.splitlines():
                    if line.startswith("SUMMARY "):
                        s = json.loads(line[8:])
                if s is None:
                    if not stop.is_set():
                        errors.append("%s/%s: no summary: %s" % (scen, var, out[-300:]))
                    continue
                s["variant"], s["job"], s["hf"] = var, job, hf
                with lock:
                    results.append(s)
                fresh = [v for v in s["violations"] if not any(self.matches_known(k, scen, v) for k in known)]
                if fresh and not stop.is_set():
                    stop.set()
                    with lock:
                        for q in procs:
                            if q is not p:
                                q.kill()

        procs = set()
        ths = [threading.Thread(target=worker, args=(c,)) for c in self.cpus]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errors and not any(r["violations"] for r in results):
            raise Failed("; ".join(errors[:3]))
        return results

    def known(self):
        out = []
        path = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith("known:"):
                    head, _, text = line[6:].strip().partition(" :: ")
                    d = dict(kv.split("=", 1) for kv in head.split())
                    d["text"] = text
                    if d.get("property") == self.pid:
                        out.append(d)
        return out

    def matches_known(self, k, scen, v):
        return (k.get("scenario", scen) == scen and k.get("class", v["class"]) == v["class"]
                and k.get("match", "").replace("_", " ") in v["msg"])

    def confirm(self, job, scen, var, v):
        """Fresh-process reproduction, minimisation, replay file. Returns path or None."""
        exe = self.exe(job, var)
        a = result_of(self.run_proc([exe, "one", "--scen", scen, "--seed", str(v["seed"])] + self.scratch_args(job), 200))
        if not a["bad"] or a["class"] != v["class"] or a["hash"] != v["hash"]:
            return None, "seed %s of %s does not reproduce (%s vs %s)" % (v["seed"], scen, a, v)
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s-%s.replay" % (self.pid, scen, var, v["seed"]))
        raw = path + ".full"
        self.run_proc([exe, "one", "--scen", scen, "--seed", str(v["seed"]), "--save", raw, "--property", self.pid,
                       "--build", var] + self.scratch_args(job), 200)
        cap = 25 if self.tier == "quick" else 120
        out = self.run_proc([exe, "minimize", raw, "--out", path, "--cap", str(cap)] + self.scratch_args(job), cap + 200)
        used, ok = None, False
        for cand in ([path] if "MINIMIZED" in out else []) + [raw]:
            rs = [result_of(self.run_proc([exe, "replay", cand] + self.scratch_args(job), 200)) for _ in range(2)]
            if all(r["bad"] and r["class"] == v["class"] and r["hash"] == r["want_hash"] for r in rs):
                used, ok = cand, True
                v["min"] = rs[0]
                break
        if not ok:
            return None, "replay of seed %s of %s does not reproduce: %s" % (v["seed"], scen, out[-300:])
        if used == raw:
            os.replace(raw, path)
        elif os.path.exists(raw):
            os.remove(raw)
        v["minimized"] = out.strip().splitlines()[-1] if out.strip() else ""
        return path, None

    def main(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = os.path.join(ROOT, "evidence", self.pid + ".json")
        if os.path.exists(ev):
            os.remove(ev)
        print("%s seed=%d tier=%s cpus=%d" % (self.pid, self.seed, self.tier, len(self.cpus)), flush=True)
        self.out = build(self.pid)
        tb = time.time()
        self.tmp = tempfile.mkdtemp(prefix="amtl-sim-")
        self.scratch = os.path.join(self.tmp, "fs")
        os.makedirs(self.scratch)
        try:
            return self.main2(ev, tb)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def main2(self, ev, tb):
        bad, nself = self.self_check()
        results = self.explore()
        t_search = time.time() - tb
        viol = []
        for r in results:
            for v in r["violations"]:
                viol.append((r["job"], r["scenario"], r["variant"], v))
        known = self.known()
        rc, lines, reported = 0, [], []
        fresh = []
        for job, scen, var, v in viol:
            if v["class"] == "harness":
                print("ERROR harness: %s seed %s: %s" % (scen, v["seed"], v["msg"]))
                return 2
            if not any(self.matches_known(k, scen, v) for k in known):
                fresh.append((job, scen, var, v))
        for k in known:
            lines.append("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        fails = []
        fresh.sort(key=lambda x: (x[3]["class"] == "hang", x[3]["seed"]))
        for job, scen, var, v in fresh[:6]:
            path, why = self.confirm(job, scen, var, v)
            if path:
                lines.append("class %s: %s" % (v["class"], v["msg"]))
                lines.append("minimised: %s -> %s" % (v["minimized"], v["min"]["msg"]))
                lines.append("VIOLATION property=%s replay=%s" % (self.pid, path))
                reported.append(dict(scenario=scen, build=var, seed=v["seed"], cls=v["class"], message=v["min"]["msg"],
                                     replay=path))
                rc = 1
                break
            fails.append(why)
        if fresh and not rc:
            print("ERROR unconfirmed: " + "; ".join(fails))
            return 2
        if bad and not rc:
            # May be the simulator or an unrepeatable change under test; either way nothing can be claimed.
            print("ERROR not deterministic: %s" % ", ".join(bad))
            return 2
        self.write_evidence(ev, results, t_search, nself, reported)
        for line in lines:
            print(line)
        n = sum(r["runs"] for r in results)
        print("%s: %d simulated runs in %.1f s" % (self.pid, n, time.time() - self.t0))
        return rc

    def write_evidence(self, path, results, t_search, nself, reported):
        seen = set()
        per = {}
        faults, probes = {}, {}
        tot = dict(runs=0, steps=0, sim_ns=0, preempts=0, switches=0, nontrivial=0, ignored=0, preempted_runs=0)
        samples = []
        cpu_s = 0.0
        for r in results:
            for k in tot:
                tot[k] += r[k]
            cpu_s += r["wall"]
            for k, v in r["faults"].items():
                d = faults.setdefault(k, dict(queries=0, injected=0, runs=0))
                for x in d:
                    d[x] += v[x]
            for k, v in r["probes"].items():
                d = probes.setdefault(k, dict(hits=0, runs=0))
                for x in d:
                    d[x] += v[x]
            key = r["scenario"] + "/" + r["variant"]
            p = per.setdefault(key, dict(runs=0, steps=0))
            p["runs"] += r["runs"]
            p["steps"] += r["steps"]
            if len(samples) < 6 and r["samples"]:
                samples.append(r["samples"][0])
            if os.path.exists(r["hf"]):
                a = array.array("Q")
                data = open(r["hf"], "rb").read()
                a.frombytes(data[:len(data) // 8 * 8])
                # executions of different scenarios or builds are different
                tag = zlib.crc32(key.encode()) & 0xffff
                seen.update(x ^ (tag << 40) for x in a)
        missing = [p for p in self.cfg.get("probes", []) if p not in probes]
        doc = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": tot["runs"],
                "distinct_nontrivial": len(seen),
                "rule": "One evaluation is one simulated run: a generated multi-thread program plus a seeded schedule "
                        "and fault sequence, executed against the real AMTL code. Non-trivial: at least one preemptive "
                        "context switch or one injected fault. Distinct: different 64-bit hash over the program, the "
                        "sequence of (thread, access kind, address) at every scheduling point and the injected faults.",
                "samples": samples,
                "runs_per_hour": int(tot["runs"] / max(t_search, 1e-9) * 3600),
                "seeds_per_hour": int(tot["runs"] / max(t_search, 1e-9) * 3600),
                "simulated_steps": tot["steps"],
                "simulated_seconds": tot["sim_ns"] / 1e9,
                "context_switches": tot["switches"],
                "preemptive_switches": tot["preempts"],
                "runs_with_preemption": tot["preempted_runs"],
                "worker_seconds": round(cpu_s, 1),
                "faults": faults,
                "probes": probes,
                "probes_never_hit": missing,
                "per_scenario": per,
                "determinism_self_check_runs": nself,
                "real_components": self.cfg.get("real", []),
                "stub_components": self.cfg.get("stub", []),
                "other_property_violations_ignored": tot["ignored"],
            },
            "assumptions": self.cfg.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(reported),
        }
        if reported:
            doc["coverage"]["reported"] = reported
        json.dump(doc, open(path, "w"), indent=1)
        print("coverage: %d runs, %d distinct non-trivial, %d steps, faults %s" %
              (tot["runs"], len(seen), tot["steps"], {k: v["injected"] for k, v in faults.items()}))
        if missing:
            print("warning: probes never hit: %s" % ", ".join(missing))


def replay(path, verbose):
    path = os.path.abspath(path)
    head = {}
    for line in open(path):
        k, _, v = line.strip().partition(" ")
        head.setdefault(k, v)
    pid = head["property"]
    out = build(pid)
    job = [j for j in CHECKS[pid]["jobs"] if head["scenario"] in j["scens"]][0]
    tmp = tempfile.mkdtemp(prefix="amtl-sim-")
    try:
        args = [os.path.join(out, job["src"] + "." + head["build"]), "replay", path, "--scratch", tmp]
        if verbose:
            args += ["--verbose", "1"]
        text = subprocess.run(args, stdout=subprocess.PIPE, text=True).stdout
        print(text, end="")
        r = result_of(text)
        same = r["bad"] and r["class"] == r["want_class"] and r["hash"] == r["want_hash"]
        print("REPRODUCED exactly" if same else "NOT reproduced (this tree behaves differently)")
        if r["bad"]:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1 if r["bad"] else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(argv):
    try:
        if len(argv) >= 2 and argv[0] == "--replay":
            return replay(argv[1], "-v" in argv)
        if argv == ["--setup"]:
            # Nothing is kept from here: every check rebuilds from the current tree. This only proves the tool chain.
            print(sh(["g++", "--version"]).splitlines()[0])
            return 0
        if len(argv) == 2 and argv[0] == "--build":
            print(build(argv[1]))
            return 0
        if len(argv) == 1 and argv[0] in CHECKS:
            return Check(argv[0]).main()
    except (Failed, subprocess.TimeoutExpired) as e:
        print("ERROR %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
