"""(re)writes /verif/seeded from tools/seeds/list.py; --test confirms each one in a scratch copy"""
import sys, os, json, subprocess, shutil
sys.path.insert(0, "/verif/tools/seeds")
import list as L
W = "/tmp/seedwork"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(ids):
    for id, prop, edits, needs, what, demo in L.S:
        if ids and id not in ids: continue
        d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
        sh("rm -rf /tmp/seedwork"); sh("git -C /repo worktree prune; git clone -q /repo /tmp/seedwork")
        for f, old, new in edits:
            p = W + "/vrpy/" + f; s = open(p).read()
            if s.count(old) != 1: print(id, "anchor count", s.count(old)); break
            open(p, "w").write(s.replace(old, new))
        else:
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
            open(d + "/demo.py", "w").write(demo)
            open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd /repo\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VP_REPO:-/repo}"\ncd "$(mktemp -d)" || exit 1\ntimeout 250 /opt/venv/bin/python "$D/demo.py"; rc=$?\nrm -rf "$PWD"\nexit $rc\n')
            json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
            a = sh("cd /repo && bash %s/demo.sh" % d); b = sh("cd %s && VP_REPO=%s bash %s/demo.sh" % (W, W, d))
            print(id, prop, "clean", a.returncode, "bug", b.returncode, (a.stdout + a.stderr)[-200:] if a.returncode else "", b.stdout[-120:].strip() if b.returncode == 1 else b.stderr[-300:])
    sh("rm -rf /tmp/seedwork")
main(sys.argv[1:])
