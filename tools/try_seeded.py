#!/usr/bin/env python3
"""Runs checks against the planted bugs in /verif/seeded, one at a time.

    tools/try_seeded.py [--all-checks] [--seed N] [BUG ...]

Applies each patch to /repo, runs the check of its property (or all checks),
and puts /repo back as it was.  Not used by any check.
"""
import json, os, subprocess, sys, time

args = sys.argv[1:]
everything = "--all-checks" in args
seed = args[args.index("--seed") + 1] if "--seed" in args else "1"
names = [a for i, a in enumerate(args)
         if not a.startswith("--") and (i == 0 or args[i - 1] != "--seed")]
root = "/verif/seeded"
names = names or sorted(os.listdir(root))
claimed = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]


def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True)


if git("status", "--porcelain").stdout.strip():
    sys.exit("/repo is not clean")
for name in names:
    meta = json.load(open(f"{root}/{name}/meta.json"))
    r = git("apply", f"{root}/{name}/patch.diff")
    if r.returncode:
        print(name, "does not apply:", r.stderr)
        continue
    try:
        out = []
        for c in claimed if everything else [meta["property"]]:
            t = time.time()
            p = subprocess.run(["bash", "check.sh", c], cwd="/verif", text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick"))
            hit = p.returncode == 1 and f"VIOLATION property={c}" in p.stdout
            if not everything or p.returncode:
                out.append(f"{c}:{'caught' if hit else p.returncode}({time.time() - t:.0f}s)")
            if not everything and (not hit or "-v" in args):
                print(p.stdout[-1500:])
        print(name, meta["property"], " ".join(out), flush=True)
    finally:
        git("checkout", "--", ".")
