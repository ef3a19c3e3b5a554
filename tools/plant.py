#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO python text)

Confirms in a scratch clone of /repo: applies, touches original lines, builds, stable tests pass, the
demonstration passes without and fails with the change; then writes seeded/<ID>/.
"""
import json, os, shutil, subprocess, sys, tempfile

REPO = tempfile.mkdtemp(prefix="plantrepo")  # a scratch clone
subprocess.run("git clone -q /repo %s && cp /repo/src/psrpcore/_version.py %s/src/psrpcore/ 2>/dev/null" % (REPO, REPO), shell=True)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import ENV, deselect  # noqa: E402
BASE = "133b265"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(path):
    ns = {}
    exec(open(path).read(), ns)
    id_, files = ns["ID"], set()
    assert sh("git -C %s status --porcelain" % REPO).stdout == "", "repo not clean"
    out = os.path.join("/verif/seeded", id_)
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        demo = "#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=src /opt/venv/bin/python -B \"$(dirname \"$0\")/demo.py\"\n"
        open(tmp + "/demo.sh", "w").write(demo)
        open(tmp + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
        r = sh("bash %s/demo.sh" % tmp, cwd=REPO)
        if r.returncode:
            return "demo fails on the unchanged tree: " + r.stdout + r.stderr
        for f, old, new in ns["EDITS"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (f, s.count(old), old)
            blame = sh("git blame -s %s" % f, cwd=REPO).stdout.splitlines()
            open(p, "w").write(s.replace(old, new))
            files.add(f)
        diff = sh("git diff", cwd=REPO).stdout
        open(tmp + "/patch.diff", "w").write(diff)
        # removed (or neighbouring) lines have to be original ones
        fixes = set(sh("git log --format=%%h %s.." % BASE + "HEAD", cwd=REPO).stdout.split())
        sh("git checkout -- .", cwd=REPO)
        bad = []
        cur, ln = None, 0
        for line in diff.splitlines():
            if line.startswith("+++ "):
                cur = line[6:]
                bl = sh("git blame -s %s" % cur, cwd=REPO).stdout.splitlines()
            elif line.startswith("@@"):
                ln = int(line.split()[1].split(",")[0][1:])
            elif line.startswith("-") and not line.startswith("---"):
                if any(bl[ln - 1].lstrip("^").startswith(h) for h in fixes):
                    bad.append(line)
                ln += 1
            elif line.startswith(" "):
                ln += 1
        r = sh("git apply %s/patch.diff" % tmp, cwd=REPO)
        if r.returncode:
            return "does not apply: " + r.stderr
        r = sh("bash %s/demo.sh" % tmp, cwd=REPO)
        if r.returncode == 0:
            return "demo passes with the change"
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov"] + deselect(),
                           cwd=REPO, env=dict(ENV, PYTHONPATH=REPO + "/src"), capture_output=True, text=True)
        if r.returncode:
            return "tests fail: %s" % [x for x in r.stdout.splitlines() if x.startswith("FAILED")][:4]
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(tmp + "/meta.json", "w"), indent=1)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        os.chmod(out, 0o755)
        return "planted (%s)%s" % (why, " BUT own lines: %s" % bad if bad else "")
    finally:
        sh("git checkout -- .", cwd=REPO)
        shutil.rmtree(tmp, ignore_errors=True)


for a in sys.argv[1:]:
    print(a, "->", plant(a), flush=True)
shutil.rmtree(REPO)
