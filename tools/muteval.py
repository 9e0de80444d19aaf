"""muteval.py [ids]: the checks (contracts touching the changed function, then bounded runs) on surviving mutants of tools/mutants.py"""
import sys, os, json, glob, subprocess, multiprocessing as mp, shutil
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/tools'); sys.dont_write_bytecode = True
import mutants
D = "/tmp/mu"; PY = "/opt/venv/bin/python"; PROCS = int(os.environ.get("PROCS", "7"))


def touched():
    f = D + "/map.json"
    if os.path.exists(f): return json.load(open(f))
    code = '''
import sys, json, multiprocessing as mp
sys.path.insert(0, "/verif"); sys.dont_write_bytecode = True
from contracts import registry, run_once
def one(i):
    c = registry()[i]
    try: r = run_once(c, "quick", None); return c.name, sorted(set(c.targets) | set(r["inlined"])), c.props
    except Exception: return c.name, c.targets, c.props
with mp.Pool(%d, maxtasksperchild=1) as p: print(json.dumps(p.map(one, range(len(registry())), chunksize=1)))
''' % PROCS
    r = subprocess.run(["python3-vt", "-c", code], capture_output=True, text=True); m = json.loads(r.stdout.strip().split("\n")[-1]); json.dump(m, open(f, "w")); return m


def a_layer(w, names):
    code = '''
import sys, json, multiprocessing as mp
sys.path.insert(0, "/verif"); sys.dont_write_bytecode = True
from contracts import registry, run_contract
names = json.loads(sys.argv[1])
def one(n):
    c = [c for c in registry() if c.name == n][0]
    try:
        r = run_contract(c, "quick"); return n, c.props, [k for k, o in r["obligations"].items() if o["refuted"]], [k for k, o in r["obligations"].items() if o["proved"] < o["paths"]], r["error"]
    except Exception as e: return n, c.props, [], [], "CRASH " + repr(e)
with mp.Pool(%d, maxtasksperchild=1) as p: print(json.dumps(p.map(one, names, chunksize=1)))
''' % PROCS
    r = subprocess.run(["python3-vt", "-c", code, json.dumps(names)], capture_output=True, text=True, env=dict(os.environ, VP_REPO=w))
    return json.loads(r.stdout.strip().split("\n")[-1])


if __name__ == "__main__":
    M = touched()
    for f in sorted(glob.glob(D + "/m[0-9]*.json")):
        m = json.load(open(f))
        if not m.get("survives") or m.get("verdict") and m["id"] not in sys.argv[1:]: continue
        if sys.argv[1:] and m["id"] not in sys.argv[1:]: continue
        w = D + "/e"; mutants.copy(m, w); q = m["file"][:-3]
        rel = [(n, ps) for n, fs, ps in M if any(x.split(".")[0] == q and x.split(".")[-1] == m["func"] for x in fs)]
        A = a_layer(w, [n for n, _ in rel]) if rel else []
        ref = [(n, k, p) for n, p, r, u, e in A for k in r]; und = [(n, k) for n, p, r, u, e in A for k in u]; props = sorted({p for n, ps in rel for p in ps})
        v = dict(contracts=len(rel), refuted=ref[:3], undecided=und[:3], props=props, bounded={})
        for p in ([] if os.environ.get("AONLY") else (sorted({x for _, _, ps in ref for x in ps}) or props)):
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=w, VP_REPO=w, PYTHONHASHSEED="0", VP_PROCS=str(PROCS))
            try: r = subprocess.run([PY, "/verif/rt/bounded.py", p, "1", "34"], capture_output=True, text=True, env=e, timeout=200); b = json.loads(r.stdout.strip().split("\n")[-1]); v["bounded"][p] = [x["tag"] for x in b["violations"]][:2]
            except Exception as ex: v["bounded"][p] = ["ERR %r" % ex][:1]  # noqa
            if any(v["bounded"].values()) : break
        hit = bool(ref) or any(v["bounded"].values()); m["verdict"] = ("CAUGHT" if hit else "MISSED"); m["detail"] = v; json.dump(m, open(f, "w"))
        print(m["id"], m["file"], m["func"], m["line"], m["what"], repr(m["old"][:60]), "->", repr(m["new"][:40]), m["verdict"], "A:", [(a, b) for a, b, _ in ref][:2], "und:", und[:1], "B:", {k: x for k, x in v["bounded"].items() if x}, "props", props if not hit else "", flush=True)
        shutil.rmtree(w, ignore_errors=True)
