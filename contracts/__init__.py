"""The contracts.  Each module registers Contract objects; every obligation is
generated from the source of /repo as it is now (pyvc.repo) and discharged by
z3/cvc5.  A contract body builds an arbitrary state meeting the preconditions,
runs the real function (callees inlined unless their own contract is used) and
states the postconditions with S.ensure."""
import time, importlib, z3
from pyvc.core import *
from pyvc.objs import *
from pyvc.repo import Repo, Func, Cls
from pyvc.interp import Interp

ALL = []
MODULES = ["reports", "checks", "prep", "pricing", "master", "columns", "adaptive", "glue", "schedule", "flow", "construct"]


class Contract:
    def __init__(s, name, props, targets, what, body, cost=1, limits=(100, 400), opts=None):
        s.name, s.props, s.targets, s.what, s.body, s.cost, s.limits, s.opts = name, props, targets, what, body, cost, limits, opts or {}
    def limit(s, tier): return s.limits[0] if tier != "thorough" else s.limits[1]


def contract(name, props, targets, what, **kw):
    def deco(fn):
        ALL.append(Contract(name, props.split(), targets.split(), what, fn, **kw)); return fn
    return deco


def registry():
    if not ALL:
        import contracts
        for m in contracts.MODULES: importlib.import_module("contracts." + m)
    return ALL


def has_q(f):
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st += x.children()
    return False


class Session:
    """what a contract body works with"""
    def __init__(s, ctx, repo, tier):
        s.ctx, s.repo, s.tier = ctx, repo, tier
        s.it = Interp(ctx, repo); s.named = {}

    # symbols
    def fn(s, name, *sorts): return z3.Function(name, *sorts) if len(sorts) > 1 else z3.Const(name, sorts[0])
    def int(s, n): return z3.Int(n)
    def real(s, n): return z3.Real(n)
    def bool(s, n): return z3.Bool(n)
    def node(s, n): return z3.Const(n, NodeS)
    def assume(s, *fs):
        for f in fs: s.ctx.assume(B(f) if not isinstance(f, bool) else f)
    def ensure(s, name, goal, extra=()): return s.ctx.ensure(name, goal, extra)
    def all(s, bs, guard, body): return forall(bs, B(IMP(guard, body)))

    # program
    def cls(s, qual):
        m, c = qual.split(".")
        d = s.repo.mod(m).defs.get(c)
        if not isinstance(d, Cls): raise Unsupported("class %s not found" % qual)
        return d
    def func(s, qual):
        f = s.repo.func(qual)
        if f is None: raise Unsupported("function %s not found" % qual)
        return f
    def obj(s, qual, **attrs):
        o = SObj(s.cls(qual), qual.split(".")[1]); o.partial = True      # attributes not set here are unknown, not missing
        for k, v in attrs.items(): o.cell(k).v = v
        return o
    def call(s, o, name, *args, **kw): return s.it.method(o, name, list(args), kw)
    def callf(s, qual, *args, **kw): return s.it.call_func(s.func(qual), list(args), kw)
    def get(s, o, a):
        try: return s.it.getattr(o, a)
        except PyRaise as e:
            if e.kind != "AttributeError": raise
            raise Unsupported("attribute %s" % a)

    def raised(s, fn):
        """-> (kind or None, result)"""
        try: return None, fn()
        except PyRaise as e: return e.kind, None

    def prove(s, f, timeout=None):
        f = B(f)
        if z3.is_quantifier(f) and f.is_forall():       # skolemise and instantiate by hand first
            sk = [fresh_const(f.var_sort(i), "sk") for i in range(f.num_vars())]
            g = z3.substitute_vars(f.body(), *reversed(sk)); fs = []
            for h in s.ctx.pc:
                if z3.is_quantifier(h) and h.is_forall() and [h.var_sort(i) for i in range(h.num_vars())] == [x.sort() for x in sk] and not has_q(h.body()): fs.append(z3.substitute_vars(h.body(), *reversed(sk)))
                elif not has_q(h): fs.append(h)
            if s.ctx.check(fs + [z3.Not(g)], timeout)[0] == z3.unsat: return True
        few = s.ctx.relevant(s.ctx.pc, B(f))
        if few is not None and s.ctx.check(few + [z3.Not(B(f))], timeout)[0] == z3.unsat: return True
        r, _ = s.ctx.check(s.ctx.pc + [z3.Not(B(f))], timeout); return r == z3.unsat


    def ensure_by(s, name, goal, instances):
        """ensure, trying first with the quantifier-free facts and these instances of the quantified ones only"""
        fs = [h for h in s.ctx.pc if not has_q(h)] + [B(f) for f in instances] + [z3.Not(B(goal))]
        if s.ctx.check(fs)[0] == z3.unsat:
            s.ctx.backends["z3"] = s.ctx.backends.get("z3", 0) + 1
            st = s.ctx.results.setdefault(name, dict(paths=0, proved=0, refuted=[], unknown=[])); st["paths"] += 1; st["proved"] += 1; return True
        return s.ctx.ensure(name, goal)

    def hint_at(s, name, goal, terms):
        """a lemma (an obligation), used from here on if it is proved"""
        if s.ensure_at(name, goal, terms): s.assume(goal)

    def ensure_at(s, name, goal, terms):
        """ensure, trying first with the universally quantified facts instantiated at these terms only"""
        import itertools
        g = B(goal); fs = list(s.ctx.pc) + [z3.Not(g)]; out = []
        for h in fs + s.ctx.sum_axioms(fs):
            if not (z3.is_quantifier(h) and h.is_forall()): out.append(h); continue
            cs = [[t for t in terms if t.sort() == h.var_sort(i)] for i in range(h.num_vars())]
            for c in itertools.islice(itertools.product(*cs), 200): out.append(z3.substitute_vars(h.body(), *reversed(c)))
        if s.ctx.check(out)[0] == z3.unsat:
            s.ctx.backends["z3"] = s.ctx.backends.get("z3", 0) + 1
            st = s.ctx.results.setdefault(name, dict(paths=0, proved=0, refuted=[], unknown=[])); st["paths"] += 1; st["proved"] += 1; return True
        return s.ctx.ensure(name, goal)

    def hint(s, f):
        """a lemma: used only if it is proved here"""
        if s.prove(f): s.assume(f); return True
        return False


I, R, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def run_contract(c, tier="quick"):
    r = run_once(c, tier, None)
    if (r["error"] or any(o["proved"] < o["paths"] for o in r["obligations"].values())) and c.opts.get("unroll") and not any(o["refuted"] for o in r["obligations"].values()):
        # no proof with the invariants: look for a counterexample with the loops unrolled (sound refutation only)
        u = run_once(c, tier, c.opts["unroll"])
        for n, o in u["obligations"].items():
            if o["refuted"]: r["obligations"]["%s [loops unrolled, sequences of %d]" % (n, c.opts["unroll"])] = dict(paths=o["paths"], proved=0, refuted=o["refuted"], unknown=[])
        r["solver_time"] += u["solver_time"]; r["queries"] += u["queries"]; r["wall"] += u["wall"]
    return r


def run_once(c, tier, unroll):
    t0 = time.time()
    ctx = Ctx(timeout=4000 if tier != "thorough" else 20000, budget=(c.limit(tier) - 3) * (0.6 if c.opts.get("unroll") and not unroll else 0.35 if unroll else 1))
    err = None; S = None; reach = 0
    if c.opts.get("unroll") and not unroll: ctx.fail_limit = 3
    ctx.pairs = False; ctx.zeros = bool(c.opts.get("zeros"))
    if unroll: ctx.timeout = min(ctx.timeout, 2500); ctx.nocvc5 = True
    try:
        repo = Repo()
        S = Session(ctx, repo, tier); S.unroll = unroll
        def body():
            S.inl = getattr(S, "inl", set()) | S.it.inlined      # functions executed on every path explored
            S.it.__init__(ctx, repo); S.it.unroll = unroll; S.ctx.taint = None; S.ctx.late = []
            for k in ("status", "statusno", "splen", "objval", "path_hook", "anymethod", "anyattr", "anyitem", "anyset", "none_values"): S.it.__dict__.pop(k, None)
            c.body(S)
        for kind, r in ctx.explore(body):
            reach += 1
            if kind == "raise": ctx.ensure("no undocumented exception (%s)" % r.kind, False) if r.kind != "Skip" else None
    except Unsupported as e: err = "outside the verifier's reach: %s" % e
    except Stop as e: err = str(e)
    except RecursionError: err = "recursion"
    return dict(name=c.name, obligations=ctx.results, solver_time=ctx.solver_time, queries=ctx.queries, backends=ctx.backends, assumptions=sorted(ctx.assumptions),
                inlined=sorted(S.it.inlined | getattr(S, "inl", set())) if S else [], paths=ctx.paths, reachable=reach, wall=time.time() - t0, error=err)


if __name__ == "__main__":
    pass
