"""CONTRACTS.md: the contracts, their functions and the properties they serve (from the registry)"""
import sys; sys.path.insert(0, "/verif"); sys.dont_write_bytecode = True
from contracts import registry
out = ["# Contracts", "", "Generated by tools/mkcontracts.py from /verif/contracts.  Each is discharged for every state meeting its preconditions, from the current source of the functions named (callees inlined or replaced by their own contract).", ""]
mod = None
for c in registry():
    m = c.body.__module__.split(".")[-1]
    if m != mod: mod = m; out += ["", "## contracts/%s.py" % m, "", "| contract | properties | functions | statement |", "|---|---|---|---|"]
    out.append("| %s | %s | %s | %s%s |" % (c.name, " ".join(c.props), ", ".join("`%s`" % t for t in c.targets), c.what.replace("|", "/"), " *(refutation mode: loops unrolled, %d elements)*" % c.opts["unroll"] if c.opts.get("unroll") else ""))
fs = sorted({t for c in registry() for t in c.targets}); out += ["", "%d contracts, %d functions named as targets." % (len(registry()), len(fs)), ""]
open("/verif/CONTRACTS.md", "w").write("\n".join(out))
