"""Driver: builds the monitors from /repo's tree, runs them, judges, reports."""

import json
import os
import resource
import shutil
import struct
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
GV = os.path.join(TARGET, "debug", "gv")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
STABLE = "stable-x86_64-unknown-linux-gnu"
JOBS = max(1, min(8, os.cpu_count() or 1))


def env(toolchain=TOOLCHAIN):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_TARGET_DIR"] = TARGET if toolchain == TOOLCHAIN else TARGET + "-" + toolchain
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_BUILD_TARGET", None)
    return e


class CheckError(Exception):
    """The check itself could not do its work: neither held nor violated."""


class Result:
    """What one run of a check observed."""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []  # (message, replay dict)
        self.known = []  # messages

    def saw(self, what, n=1):
        self.counters[what] = self.counters.get(what, 0) + n

    def evaluated(self, key, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hash(key))

    def violation(self, message, **replay):
        self.violations.append((message, replay))


class Run:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.start = time.time()
        self.res = Result()
        self.work = os.path.join(BUILD, "work", f"{prop}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.start:6.1f}s]", *a, file=sys.stderr, flush=True)

    # -- building

    def build(self):
        p = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")],
            env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("the harness does not build:\n" + p.stdout[-4000:])
        self.log("built")

    # -- the harness

    def shards(self, prop=None, cases=None, wall=None):
        """Run the cases of a property over all cores and merge what was seen."""
        prop = prop or self.prop
        if wall is None:
            wall = 3000 if self.thorough else 240
        quick, thorough = map(int, subprocess.run([GV, "plan", prop], capture_output=True, text=True, check=True).stdout.split())
        if cases is None:
            cases = thorough if self.thorough else quick
        procs = []
        for i in range(JOBS):
            out = os.path.join(self.work, f"{prop}.{i}.json")
            cmd = [GV, "run", prop, "--seed", str(self.seed), "--tier", self.tier, "--shard", str(i),
                   "--shards", str(JOBS), "--wall", str(wall), "--cases", str(cases), "--out", out]
            procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limit)))
        evals = 0
        for out, p in procs:
            try:
                err = p.communicate(timeout=wall + 300)[1].decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise CheckError(f"a shard of {prop} did not end")
            evals += self.merge(prop, out, p.returncode, err)
        if not self.res.violations and evals < cases * 0.05:
            raise CheckError(f"only {evals} of {cases} cases of {prop} were run")
        self.log(f"{prop}: {evals} evaluations")

    def merge(self, prop, out, code, err):
        if not os.path.exists(out):
            return self.died(prop, out, code, err)
        with open(out) as f:
            d = json.load(f)
        with open(out + ".hashes", "rb") as f:
            b = f.read()
        self.res.distinct.update((prop, h) for (h,) in struct.iter_unpack("<Q", b))
        self.res.evaluations += d["evaluations"]
        for k, n in d["counters"].items():
            self.res.saw(k, n)
        for s in d["samples"]:
            if len(self.res.samples) < 12:
                self.res.samples.append(s)
        if "error" in d:
            raise CheckError(d["error"])
        if "violation" in d:
            v = d["violation"]
            self.res.violation(v["message"], kind="case", property=prop, seed=self.seed, tier=self.tier, case=v["case"])
        return d["evaluations"]

    def died(self, prop, out, code, err):
        """A shard ended without a result: run its last case again, alone."""
        crumb = out + ".crumb"
        if not os.path.exists(crumb):
            raise CheckError(f"a shard of {prop} ended with {code}: {err[-500:]}")
        with open(crumb, "rb") as f:
            b = f.read(8)
        if len(b) != 8:
            raise CheckError(f"a shard of {prop} ended with {code}: {err[-500:]}")
        (case,) = struct.unpack("<Q", b)
        codes = []
        for _ in range(2):
            o = os.path.join(self.work, "again.json")
            if os.path.exists(o):
                os.remove(o)
            cmd = [GV, "run", prop, "--seed", str(self.seed), "--tier", self.tier, "--only", str(case), "--out", o]
            try:
                p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300, preexec_fn=limit)
            except subprocess.TimeoutExpired:
                raise CheckError(f"case {case} of {prop} did not end")
            codes.append(None if os.path.exists(o) else p.returncode)
        if None in codes or codes[0] != codes[1] or codes[0] >= 0:
            raise CheckError(f"a shard of {prop} ended with {code}, which does not happen again: {err[-500:]}")
        self.res.violation(f"the process dies ({codes[0]}): {err[-300:]}", kind="case", property=prop, seed=self.seed,
                           tier=self.tier, case=case)
        return 0


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def known_findings(prop):
    """Entries of the committed list, as signature -> description."""
    out = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: "):
                head, what = line[len("known: "):].split(" :: ", 1)
                fields = dict(x.split("=", 1) for x in head.split())
                if fields["property"] == prop:
                    out[fields["signature"]] = what
    return out


def report(run, meta):
    """Write the evidence, print the verdict and return the exit code."""
    r = run.res
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = {
        "evaluations": r.evaluations,
        "distinct_nontrivial": len(r.distinct),
        "rule": meta["rule"],
        "samples": r.samples[:12],
        "observed": dict(sorted(r.counters.items())),
    }
    ev = {
        "property": run.prop,
        "tier": run.tier,
        "seed": run.seed,
        "level": meta["level"],
        "coverage": cov,
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - run.start, 2),
        "violations": len(r.violations),
    }
    path = os.path.join(ROOT, "evidence", f"{run.prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(path + ".tmp", path)
    for k in r.known:
        print(f"KNOWN-FINDING: property={run.prop} {k}")
    if r.violations:
        rdir = os.path.join(ROOT, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (msg, rep) in enumerate(r.violations[:5]):
            f = os.path.join("replay", f"{run.prop}-{run.tier}-{run.seed}-{i}.json")
            with open(os.path.join(ROOT, f), "w") as h:
                json.dump({"property": run.prop, "message": msg, **rep}, h, indent=1, ensure_ascii=False)
            print(msg[:2500])
            print(f"VIOLATION property={run.prop} replay={f}")
        return 1
    if r.evaluations == 0:
        print("nothing was observed")
        return 2
    print(f"{run.prop}: held on {r.evaluations} executions ({len(r.distinct)} distinct and non-trivial), "
          f"{ev['wall_s']} s")
    return 0
