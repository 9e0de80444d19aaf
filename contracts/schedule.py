"""The timetable of a planning period (C15)."""
from . import *
from .prep import vnet, depot
from pyvc import ext

D_ = "schedule._Schedule"


@contract("timetable", "C15", D_ + ".solve " + D_ + "._formulate " + D_ + ".routes_per_day", "a timetable returned has every route on exactly one day of the period, no customer twice a day and no type more often than available", opts=dict(unroll=2))
def _(S):
    g, A = vnet(S, costs=False); depot(S, g); n, T = z3.Ints("n_routes span"); S.assume(n >= 0, T >= 1); S.ctx.pairs = True
    if S.unroll: n, T = z3.IntVal(S.unroll), z3.IntVal(S.unroll + 1)
    ln, at, ty = z3.Function("len", I, I), z3.Function("at", I, I, NodeS), z3.Function("type", I, I)
    if S.unroll: ln = lambda r: z3.IntVal(3)
    r, i, v = z3.Int("r"), z3.Int("i"), z3.Const("v", NodeS)
    isr = lambda r: z3.And(r >= 1, r <= n)
    S.assume(S.all([r, i], AND(isr(r), i >= 0, i < ln(r)), g.hasN(at(r, i))))
    if S.unroll:
        routes, types = SDict(), SDict()
        for q in range(1, S.unroll + 1):
            S.it.putmap(routes.c, (q,), SList.of(*[at(z3.IntVal(q), z3.IntVal(x)) for x in range(3)])); S.it.putmap(types.c, (q,), ty(z3.IntVal(q)))
    else:
        routes = SDict(FMap(FnBase(lambda r: isr(num(r)), lambda r: SList([seqpart(ln(r), lambda i: at(r, i))]))), [I])
        types = SDict(FMap(FnBase(lambda r: isr(num(r)), lambda r: ty(r))), [I])
    K = z3.Int("K") if not S.unroll else z3.IntVal(S.unroll); NV = z3.Function("NV", I, I); S.assume(K >= 1)
    fleet = S.ctx.branch(z3.Bool("fleet")); k = z3.Int("k")
    nv = SList([seqpart(K, lambda k: NV(k))]) if fleet else None
    o = S.it.construct(S.cls(D_), [g, T if not S.unroll else S.unroll + 1, routes, types, nv, "cbc"], {})
    S.call(o, "solve", None)
    pr = [c.v for c in o.attrs.values() if isinstance(c.v, LProb)]
    if len(pr) != 1 or pr[0].obj.v is None: raise Unsupported("scheduling problem")
    st = ext.status(S.it)
    fs = [ext.row_formula(S.ctx, p) for p in pr[0].rows.v]
    for p in S.it.lp.decl.v:
        p = p.fresh(); d = p.elem
        if d.cat == "Binary": continue
        x = ext.value(d.var); cs = ([x >= real(d.low)] if d.low is not None else []) + ([x <= real(d.up)] if d.up is not None else []) + ([z3.IsInt(x)] if d.cat == "Integer" else [])
        fs.append(forall(p.bs, B(IMP(p.guard, AND(*cs)))))
    opt = S.ctx.branch(st == strnode("Optimal"))
    if opt:
        for f in fs: S.assume(f)      # what an optimal status means
    day = S.it.force(S.get(o, "routes_per_day"))
    if not isinstance(day, SDict): raise Unsupported("timetable")
    r0, r1, t0, t1, k0 = z3.Ints("r0 r1 t0 t1 k0"); v0 = z3.Const("v0", NodeS)
    has = lambda t: B(day.c.v.has((t,)))
    lst = lambda t: S.it.force(S.ctx.under([], has(t), lambda: day.c.v.get((t,), S.ctx)))
    on = lambda t, r: AND(has(t), S.it.contains(r, lst(t)))
    if not opt: S.ensure("timetable: none without a feasible schedule", z3.Not(has(t0))); return
    if z3.is_false(z3.simplify(has(t0))): S.ensure("timetable: every route is scheduled", z3.Not(isr(r0))); return
    S.assume(isr(r0))
    S.ensure_at("timetable: every route is scheduled", z3.Exists([t1], z3.And(t1 >= 0, t1 < T, B(on(t1, r0)))), [r0])
    mark = len(S.ctx.pc)
    S.assume(has(t0), B(on(t0, r0)))
    S.ensure("timetable: on a day of the period", z3.And(t0 >= 0, t0 < T))
    cnt = z3.RealVal(0)
    for p in S.it.parts(lst(t0)):
        p = p.fresh(); cnt = cnt + S.ctx.sum(p.bs, AND(p.guard, S.it.equal(p.elem, r0)), z3.RealVal(1))
    S.ensure("timetable: once a day", cnt == 1)
    S.ensure("timetable: nothing but routes", forall([r1], B(IMP(on(t0, r1), isr(r1)))))
    m2 = len(S.ctx.pc); S.assume(has(t1), B(on(t1, r0)))
    S.ensure("timetable: on one day only", t0 == t1)
    del S.ctx.pc[m2:]
    S.assume(r1 != r0, B(on(t0, r1)), B(g.hasN(v0)), v0 != SRC, v0 != SNK, z3.Int("p0") >= 0, z3.Int("p0") < ln(r0), at(r0, z3.Int("p0")) == v0, z3.Int("p1") >= 0, z3.Int("p1") < ln(r1), at(r1, z3.Int("p1")) == v0)
    S.ensure("timetable: no customer is visited twice on the same day", False)
    del S.ctx.pc[m2:]
    if fleet:
        S.assume(k0 >= 0, k0 < K); cnt = z3.RealVal(0)
        for p in S.it.parts(lst(t0)):
            p = p.fresh(); cnt = cnt + S.ctx.sum(p.bs, AND(p.guard, ty(num(p.elem)) == k0), z3.RealVal(1))
        S.ensure_at("timetable: no day uses more vehicles of a type than available", cnt <= z3.ToReal(NV(k0)), [k0, t0])


@contract("timetable wiring", "C15", "vrp.VehicleRoutingProblem._post_process vrp.VehicleRoutingProblem.schedule", "with a planning period the timetable reported is that of the routes reported, their types, the period and the vehicles per day; without one there is none")
def _(S):
    V_ = "vrp.VehicleRoutingProblem"; per = S.ctx.branch(z3.Bool("periodic")); g, A = vnet(S, costs=False); depot(S, g); it = S.it
    routes, types, fleet, day = SDict(name="routes"), SDict(name="types"), SList([seqpart(z3.Int("K"), lambda i: z3.Function("nv", I, I)(i))]), SDict(name="days")
    def lists(i_, so, a, kw): i_.wr(so.cell("_best_routes"), routes); i_.wr(so.cell("_best_routes_vehicle_type"), types)      # own contract
    it.summaries[V_ + "._best_routes_as_node_lists"] = lists
    T = z3.Int("period"); S.assume(T >= 1); made = []; log = []
    def mk(i_, so, a, kw): made.append((so, [i_.force(x) for x in a], {k: i_.force(x) for k, x in kw.items()}))
    it.summaries[D_ + ".__init__"] = mk
    it.summaries[D_ + ".solve"] = lambda i_, so, a, kw: log.append("solve")
    def rd(i_, so, a, kw): log.append("read"); return day
    it.summaries[D_ + ".routes_per_day"] = rd
    o = S.obj(V_, G=g, _best_routes=SDict(name="old"), _best_routes_vehicle_type=SDict(name="oldtypes"), periodic=T if per else None, drop_penalty=None, _num_vehicles_schedule=fleet, num_vehicles=SList(), _time_limit=None, _start_time=z3.Real("start"), _schedule=SDict(name="none"), comp_time=None)
    S.call(o, "_post_process", "cbc")
    if not per: S.ensure("timetable wiring: none without a period", not made and S.it.force(S.get(o, "schedule")) is None); return
    S.ensure("timetable wiring: one timetable is made", len(made) >= 1)
    ns = [x.arg for x in S.func(D_ + ".__init__").node.args.args][1:]; a = dict(zip(ns, made[-1][1])); a.update(made[-1][2])
    vs = [a.get(n) for n in ns]
    if len(vs) < 5 or ns[:5] != ["G", "time_span", "routes", "route_type", "num_vehicles"]: raise Unsupported("arguments of the timetable")
    S.ensure("timetable wiring: on the current network", isinstance(vs[0], SGraph) and vs[0].st is g.st)
    S.ensure("timetable wiring: over the period given", isz(vs[1]) and vs[1].eq(T))
    S.ensure("timetable wiring: of the routes reported", vs[2] is routes)
    S.ensure("timetable wiring: with their types", vs[3] is types)
    S.ensure("timetable wiring: with the vehicles available per day", vs[4] is fleet)
    S.ensure("timetable wiring: read after it is solved", "solve" in log and "read" in log and log.index("solve") < log.index("read"))
    S.ensure("timetable wiring: reported", S.it.force(S.get(o, "schedule")) is day)
