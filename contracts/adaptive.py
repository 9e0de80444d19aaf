"""The adaptive pricing strategy (C19): the class invariant is established by
the constructor and kept by every step, for every history."""
from . import *
from pyvc import ext

H = "hyper_heuristic._HyperHeuristic"
OPT = ("BestPaths", "BestEdges1", "BestEdges2", "Exact")


def maths(S):
    """library contracts: sqrt and log are functions, non-negative from 0 resp. 1 on; choice returns an
    element; insort adds one element and bisect returns an index of the sorted list; the clock is arbitrary"""
    it = S.it
    it.ext["numpy.random.RandomState"] = lambda i, a, kw: ext.AnyObj("RandomState")
    def fn(name, frm):
        f = z3.Function(name, R, R)
        def go(i, a, kw):
            x = real(i.force(a[0])); S.assume(z3.Implies(x >= frm, f(x) >= 0)); return f(x)
        return go
    it.ext["math.sqrt"], it.ext["math.log"] = fn("sqrt", 0), fn("log", 1)
    it.ext["math.exp"] = lambda i, a, kw: i.ctx.fresh("exp", R)
    def meth(i, o, n, a, kw):
        if o.what == "RandomState" and n == "choice":
            l = i.force(a[0]); ps = l.c.v
            if any(p.bs or p.guard is not True for p in ps): raise Unsupported("choice of a symbolic list")
            return i.force(ps[i.ctx.choose(len(ps))].elem)
        if o.what == "RandomState" and n == "uniform":
            x = i.ctx.fresh("u", R); S.assume(x >= 0, x < 1); return x
        if o.what == "sorted runtimes" and n == "__len__": return o.n
        raise Unsupported("method %s" % n)
    it.anymethod = meth


def start(S):
    maths(S)
    return S.it.construct(S.cls(H), [], {})


def val(S, o, d, h): return S.it.getmap(S.it.force(S.get(o, d)).c, (h,))


def inv(S, o):
    f = {}
    th = real(S.it.force(S.get(o, "theta"))); st = real(S.it.force(S.get(o, "step")))
    f["the exploration weight is in (0,1]"] = z3.And(th > 0, th <= 1, st > 0, st <= 1)
    f["normalised measures are in [0,1]"] = z3.And(*[z3.And(real(val(S, o, d, h)) >= 0, real(val(S, o, d, h)) <= 1) for d in ("norm_objective_decrease", "norm_runtime") for h in OPT])
    ob = [real(val(S, o, "objective_decrease", h)) for h in OPT]
    f["the decreases add up"] = z3.And(*[x >= 0 for x in ob] + [sum(ob) == real(S.it.force(S.get(o, "total_objective_decrease")))])
    f["untried strategies have the top score"] = z3.And(*[z3.Implies(real(val(S, o, "iterations", h)) == 0, real(val(S, o, "heuristic_points", h)) >= 10 ** 10) for h in OPT])
    f["the score of a tried strategy is below the top score"] = z3.And(*[z3.Implies(real(val(S, o, "iterations", h)) != 0, z3.And(real(val(S, o, "heuristic_points", h)) >= 0, real(val(S, o, "heuristic_points", h)) < 10 ** 10)) for h in OPT])
    f["counts are non-negative"] = z3.And(*[z3.And(real(val(S, o, d, h)) >= 0) for d in ("iterations", "added_columns", "exp") for h in OPT])
    return f


@contract("adaptive: constructor", "C19", H + ".__init__", "the invariant holds at the start: untried strategies have the top score")
def _(S):
    o = start(S)
    ensure_inv(S, o, "adaptive, start: ")


SEEN = ("the exploration weight is in (0,1]", "normalised measures are in [0,1]")


def ensure_inv(S, o, what, skip=()):
    """the weight and the measures are observable; the rest of the invariant is about the private
    representation, whose failure alone is no violation"""
    for n, f in inv(S, o).items():
        if n in SEEN: S.ensure(what + n, f)
    t = S.ctx.taint; S.ctx.taint = t or "private invariant"
    for n, f in inv(S, o).items():
        if n not in SEEN and not any(x in n for x in skip): S.ensure(what + n, f)
    S.ctx.taint = t


def havoc(S, o, which=None):
    """an arbitrary state"""
    for d in ("iterations", "added_columns"): o.cell(d).v = SDict(sort=None); o.cell(d).v.c.v = mk(lambda h, d=d: z3.Int(d + "_" + h))
    for d in ("q", "exp", "heuristic_points", "objective_decrease", "norm_objective_decrease", "norm_runtime", "last_runtime_dict"): o.cell(d).v = SDict(mk(lambda h, d=d: z3.Real(d + "_" + h)))
    for a in ("theta", "step", "current_objective_value", "total_objective_decrease", "start_time", "end_time", "last_runtime", "new_objective_value"): o.cell(a).v = z3.Real(a)
    o.cell("step").v = z3.RealVal("1/10")
    n = z3.Int("n_runs"); S.assume(n >= 0); o.cell("runtime_dist").v = SList([seqpart(n, lambda i: z3.Function("run", I, R)(i))])
    o.cell("current_heuristic").v = OPT[S.ctx.choose(4) if which is None else which]


def mk(f):
    m = FMap(EmptyBase())
    for h in OPT: m = m.put((h,), f(h))
    return m


def sorted_list(S):
    def insort(it, a, kw): ext.method(it, it.force(a[0]), "append", [a[1]], {}); return None       # the position does not matter to bisect's range
    def bis(it, a, kw):
        n = num(it.force(a[0]).seq()[0])
        k = it.ctx.fresh("index", I); S.assume(k >= 0, k <= n); return k
    for n in ("insort", "insort_right", "insort_left"): S.it.ext["bisect." + n] = insort
    for n in ("bisect", "bisect_right", "bisect_left"): S.it.ext["bisect." + n] = bis


def history(S, which=None):
    o = start(S); sorted_list(S); havoc(S, o, which)
    f = inv(S, o)
    for x in f.values(): S.assume(x)
    cur = o.cell("current_heuristic").v
    act = {h: z3.Int("active_" + h) for h in OPT + ("Other",)}; S.assume(*[z3.And(x >= 0, x <= 10 ** 9) for x in act.values()]); S.assume(sum(act.values()) > 0)
    prod = z3.Bool("produced"); S.assume(z3.Or(prod, z3.Int("added_columns_" + cur) >= 1), *[z3.Implies(z3.Int("iterations_" + h) > 0, z3.Int("added_columns_" + h) >= 1) for h in OPT])
    m = FMap(EmptyBase())
    for h, x in act.items(): m = m.put((h,), x)
    return o, cur, prod, SDict(m)


@contract("adaptive: measures", "C19", H + ".current_performance", "after one more run of any history the normalised measures are in [0,1] and the strategy just used counts as tried", limits=(180, 400))
def _(S):
    o, cur, prod, act = history(S)
    S.call(o, "current_performance", new_objective_value=z3.Real("objective"), produced_column=prod, active_columns=act)
    ensure_inv(S, o, "adaptive, run: ", ("score",))
    S.ctx.taint = S.ctx.taint or "private invariant"
    S.ensure("adaptive, run: the strategy just used counts as tried, no other", z3.And(*[real(val(S, o, "iterations", h)) == z3.Int("iterations_" + h) + (h == cur) for h in OPT]))
    S.ensure("adaptive, run: a strategy that was used added a column", z3.And(*[z3.Implies(real(val(S, o, "iterations", h)) > 0, real(val(S, o, "added_columns", h)) > 0) for h in OPT]))
    S.ensure("adaptive, run: scores unchanged", z3.And(*[real(val(S, o, "heuristic_points", h)) == z3.Real("heuristic_points_" + h) for h in OPT]))


@contract("adaptive: scores", "C19", H + ".move_acceptance " + H + ".update_parameters", "the weight stays in (0,1]; every tried strategy scores below the untried ones, which keep the top score")
def _(S):
    o, cur, prod, act = history(S, 0); S.assume(z3.Int("iterations_" + cur) > 0)
    o.cell("active_columns").v = act; o.cell("produced_column").v = prod; o.cell("obj_has_decreased").v = z3.Bool("decreased")
    S.call(o, "move_acceptance")
    S.call(o, "update_parameters", z3.Int("iteration"), z3.Int("no_improvement"))
    ensure_inv(S, o, "adaptive, scores: ", ("tried strategy",)); S.ctx.taint = S.ctx.taint or "private invariant"
    se = sum(z3.Real("exp_" + h) for h in OPT); sa = sum(z3.Int("active_" + h) for h in OPT + ("Other",)); th = real(S.it.force(S.get(o, "theta")))
    for h in OPT:
        if S.ctx.decide(z3.Int("iterations_" + h) > 0) is not True: continue
        e, a, n = z3.Real("exp_" + h), z3.ToReal(z3.Int("active_" + h)), z3.ToReal(z3.Int("added_columns_" + h))
        x, y, w = e / se, a / z3.ToReal(sa), a / n
        S.hint(z3.And(y >= 0, y <= 1)); S.hint(z3.And(w >= 0, w <= 10 ** 9)); S.hint(z3.Implies(se > 0, z3.And(x >= 0, x <= 1)))
        q = real(val(S, o, "q", h)); S.hint(z3.And(q >= 0, q <= 10 ** 9)); S.hint(z3.And(th * q >= 0, th * q <= q)); S.hint(z3.Implies(se > 0, z3.And(x * (1 - th) >= 0, x * (1 - th) <= 1)))
        p = real(val(S, o, "heuristic_points", h))
        S.ensure("adaptive, scores: a tried strategy scores below the top score", z3.And(p >= 0, p < 10 ** 10))


@contract("adaptive: pick", "C19", H + ".pick_heuristic", "a configured strategy with the highest score is picked, an untried one while there is one")
def _(S):
    o, cur, prod, act = history(S, 0)
    r = S.it.force(S.call(o, "pick_heuristic"))
    S.ensure("adaptive, pick: one of the configured strategies", r in OPT)
    if r not in OPT: return
    p = lambda h: z3.Real("heuristic_points_" + h)
    S.ensure("adaptive, pick: highest score", z3.And(*[p(r) >= p(h) for h in OPT]))
    S.ensure("adaptive, pick: untried ones first", z3.Implies(z3.Or(*[z3.Int("iterations_" + h) == 0 for h in OPT]), z3.Int("iterations_" + r) == 0))
    S.ensure("adaptive, pick: remembered as the current one", S.it.equal(S.get(o, "current_heuristic"), r))


@contract("adaptive: pick, other measure", "C19", H + ".pick_heuristic", "with scores by relative improvement: a configured strategy, and from the first averaged iteration on one with the highest score")
def _(S):
    maths(S); a, n = z3.Int("first_averaged"), z3.Int("iteration"); S.assume(a >= 0, n >= 0)
    o = S.it.construct(S.cls(H), [], {"performance_measure_type": "relative_improvement", "start_computing_average": a})
    havoc(S, o); o.cell("iteration").v = n
    r = S.it.force(S.call(o, "pick_heuristic"))
    S.ensure("adaptive, pick: one of the configured strategies", r in OPT)
    if r not in OPT: return
    p = lambda h: z3.Real("heuristic_points_" + h)
    S.ensure("adaptive, pick: highest score", z3.Implies(n >= a, z3.And(*[p(r) >= p(h) for h in OPT])))


@contract("adaptive: scores, other measure", "C19", H + ".update_scaling_factor " + H + "._compute_last_runtime " + H + ".move_acceptance", "the weight stays in (0,1] for every history and way of accepting a move; a run is timed for the strategy used", limits=(120, 300))
def _(S):
    maths(S); o = S.it.construct(S.cls(H), [], {"acceptance_type": ("accept_all", "table", "objective_threshold", "objective_decrease")[S.ctx.choose(4)]})
    havoc(S, o); th, st = z3.Real("theta"), z3.Real("step"); o.cell("step").v = st; S.assume(th > 0, th <= 1, st > 0, st <= 1)
    o.cell("obj_has_decreased").v = z3.Bool("decreased"); o.cell("produced_column").v = z3.Bool("produced"); o.cell("d").v = z3.Real("d")
    S.call(o, "move_acceptance"); S.call(o, "update_scaling_factor", z3.Int("no_improvement"))
    t = real(S.it.force(S.get(o, "theta"))); S.ensure("adaptive, weight: in (0,1] for any step in (0,1]", z3.And(t > 0, t <= 1))
    S.ensure("adaptive, weight: scores untouched", z3.And(*[real(val(S, o, "heuristic_points", h)) == z3.Real("heuristic_points_" + h) for h in OPT]))
