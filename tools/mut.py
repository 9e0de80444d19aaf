"""mut.py FILE OLD NEW PATTERN...: run contracts on a copy of vrpy with one textual change (self-test of the verifier)"""
import sys, os, shutil, subprocess, tempfile
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix="mut"); shutil.copytree("/repo/vrpy", d + "/vrpy")
p = d + "/vrpy/" + f; s = open(p).read(); old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
if s.count(old) < 1: print("TEXT NOT FOUND"); sys.exit(2)
open(p, "w").write(s.replace(old, new, 1))
subprocess.run(["python3-vt", "/verif/tools/run1.py"] + sys.argv[4:], env=dict(os.environ, VP_REPO=d))
shutil.rmtree(d)
