#!/usr/bin/env python3
"""run.py ID [quick|thorough]   decide a property on /repo's working tree
run.py replay FILE            run the execution of a violation again
run.py setup                  build the monitors
run.py manifest               write MANIFEST.json"""

import json
import os
import subprocess
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True

from gv import checks, core  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cmd = sys.argv[1]
    if cmd == "manifest":
        return manifest()
    if cmd == "setup":
        run = core.Run("setup", "quick", 1)
        try:
            run.build()
        finally:
            run.close()
        return 0
    if cmd == "replay":
        with open(sys.argv[2]) as f:
            d = json.load(f)
        run = core.Run(d["property"], d.get("tier", "quick"), d.get("seed", 1))
        try:
            run.build()
            if d.get("kind") != "case":
                print(json.dumps(d, indent=1, ensure_ascii=False))
                return 1
            return subprocess.run([core.GV, "run", d["property"], "--seed", str(d["seed"]), "--tier", d["tier"], "--only",
                                   str(d["case"]), "--out", os.path.join(run.work, "o.json")]).returncode
        finally:
            run.close()

    prop = cmd
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    run = core.Run(prop, tier, seed)
    meta = dict(checks.CHECKS[prop])
    meta.setdefault("level", checks.LEVEL)
    try:
        checks.runner(prop)(run)
        return core.report(run, meta)
    except core.CheckError as e:
        # What was observed up to here still counts.
        if run.res.violations:
            return core.report(run, meta)
        print(f"error: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


def manifest():
    root = core.ROOT
    with open(os.path.join(root, "properties.jsonl")) as f:
        ids = [json.loads(x)["id"] for x in f]
    out = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "checks": [],
        "not_applicable": [],
        "notes": "No hooks are needed in /repo: everything is observed through the public API and generated programs. "
        "known-findings.txt lists the recorded finding and the repaired defects.",
    }
    for i in ids:
        c = checks.CHECKS.get(i)
        if c is None:
            out["not_applicable"].append({"property": i, "reason": "The check is not built yet."})
            continue
        out["checks"].append({
            "property": i,
            "quick_cmd": f"python3 run.py {i} quick",
            "thorough_cmd": f"python3 run.py {i} thorough",
            "technique": c["technique"],
            "level": c.get("level", checks.LEVEL),
            "level_note": c["note"],
        })
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1, ensure_ascii=False)
        f.write("\n")
    return 0


if __name__ == "__main__":
    sys.exit(main())
