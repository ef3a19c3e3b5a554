#!/usr/bin/env python3
"""catch.py [--only PROP ...] BUG...: which checks catch a planted bug (quick tier).  Works on a scratch clone of /repo."""
import json, os, shutil, subprocess, sys, tempfile

args = sys.argv[1:]
props = None
if args and args[0] == "--all":
    props = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
    args = args[1:]
elif args and args[0] == "--only":
    props = args[1].split(",")
    args = args[2:]
for b in args or sorted(os.listdir("/verif/seeded")):
    d = os.path.join("/verif/seeded", b)
    meta = json.load(open(d + "/meta.json"))
    repo = tempfile.mkdtemp(prefix="catch")
    subprocess.run("git clone -q /repo %s" % repo, shell=True, check=True)
    subprocess.run(["git", "-C", repo, "apply", d + "/patch.diff"], check=True)
    try:
        for p in props or [meta["property"]]:
            r = subprocess.run(["./run.sh", p, "quick"], cwd="/verif", capture_output=True, text=True,
                               env=dict(os.environ, PSRPMON_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            line = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "why" in x or "message" in x][:2]
            print("%-28s %s rc=%d %s" % (b, p, r.returncode, line), flush=True)
    finally:
        shutil.rmtree(repo)
