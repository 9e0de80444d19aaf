import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NOTE = {}
NA = {"C20": "Wall-clock behaviour of external solvers (CBC, cspy) and of the interpreter: no contract over the values of the program states or decides it; the functions that would carry it only read a clock."}
T = "contracts on the real functions of /repo, verification conditions generated from their current AST (pyvc) and discharged by z3/cvc5; functions out of reach: bounded executions of the same contracts"
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd="python3-vt /verif/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3-vt /verif/check.py %s" % i,
        technique=T, level="proof" if i in json.load(open("/verif/tools/levels.json")) else "exploration",
        level_note=json.load(open("/verif/tools/notes.json")).get(i, "see DESIGN.md")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import networkx, pulp, cspy'", checks=checks,
     not_applicable=[dict(property=k, reason=v) for k, v in NA.items()], notes="See DESIGN.md. Known findings: known_findings.jsonl."), open("/verif/MANIFEST.json", "w"), indent=1)
