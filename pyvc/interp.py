"""pyvc interpreter: executes the AST of the real functions symbolically.

Functions are inlined unless the contract under verification supplies a summary
(its own contract) for them.  Loops over symbolic collections are summarised by
running the body once for an arbitrary element and proving, with the solver,
that iterations do not read or overwrite what other iterations write (so the
summary is exact); loops that do need an invariant from the contract."""
import ast
import z3
from .core import *
from .objs import *
from .repo import Repo, Func, Cls, Mod


class ReturnEx(Exception):
    def __init__(s, v): s.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass


class MergeFail(Exception): pass


class BoundMethod:
    def __init__(s, obj, name): s.obj, s.name = obj, name
class ExtRef:
    def __init__(s, path): s.path = path
class FuncRef:
    def __init__(s, f, selfobj=None): s.f, s.self = f, selfobj
class LambdaRef:
    def __init__(s, node, env, mod): s.node, s.env, s.mod = node, env, mod
class SuperRef:
    def __init__(s, obj, cls): s.obj, s.cls = obj, cls
class LoggerRef: pass


DUMMY = z3.Const("!dummy", z3.IntSort())


def freeze(v, frm): return subst(v, [(DUMMY, DUMMY)], {"from": frm})


EXC = {"KeyError": ["KeyError", "LookupError", "Exception"], "ValueError": ["ValueError", "Exception"], "TypeError": ["TypeError", "Exception"],
       "IndexError": ["IndexError", "LookupError", "Exception"], "AttributeError": ["AttributeError", "Exception"], "ZeroDivisionError": ["ZeroDivisionError", "ArithmeticError", "Exception"],
       "NetworkXError": ["NetworkXError", "NetworkXException", "Exception"], "NetworkXNoPath": ["NetworkXNoPath", "NetworkXUnfeasible", "NetworkXException", "Exception"], "NodeNotFound": ["NodeNotFound", "NetworkXException", "Exception"],
       "NotImplementedError": ["NotImplementedError", "RuntimeError", "Exception"], "Exception": ["Exception"], "AssertionError": ["AssertionError", "Exception"]}


class Summaries(dict):
    """contracts used instead of bodies; naming a function that is not there (any more) is outside the verifier's reach"""
    def __init__(s, repo): s.repo = repo
    def __setitem__(s, qual, f):
        if s.repo.func(qual) is None: raise Unsupported("function %s not found" % qual)
        dict.__setitem__(s, qual, f)


class Interp:
    def __init__(s, ctx, repo=None):
        s.ctx, s.repo = ctx, repo or Repo()
        s.summaries = Summaries(s.repo)          # qual -> fn(interp, selfobj, args, kwargs)
        s.loopspecs = {}; s.unroll = None; s.dry = 0          # qual -> fn(interp, env, ...) invariants
        s.depth = 0; s.stack = []; s.inlined = set(); s.dropped = set(); s.nomerge = set()
        s.ext = {}
        from . import ext
        ext.install(s)

    # ------------------------------------------------------------ helpers
    def getmap(s, cell, key, missing="KeyError"):
        key = tuple(scal(k) if isinstance(k, (str, DynNum)) else s.force(k) for k in key)
        s.ctx.read(cell, key)
        h = cell.v.has(key)
        if not s.ctx.branch(h): raise PyRaise(missing, str(key))
        return cell.v.get(key, s.ctx)

    def putmap(s, cell, key, val, present=True, bs=(), guard=True):
        key = tuple(scal(k) if isinstance(k, (str, DynNum)) else s.force(k) for k in key)
        if bs:
            n = len(s.ctx.binders); m = len(s.ctx.pc); s.ctx.binders += list(bs); s.ctx.pc.append(B(guard))
            s.ctx.write(cell, key); del s.ctx.pc[m:]; del s.ctx.binders[n:]
        else: s.ctx.write(cell, key)
        s.ctx.set(cell, cell.v.put(key, val, bs, guard, present))

    def hasmap(s, cell, key):
        key = tuple(scal(k) if isinstance(k, (str, DynNum)) else s.force(k) for k in key)
        s.ctx.read(cell, key)
        return cell.v.has(key)

    def rd(s, cell):
        s.ctx.read(cell, ())
        v = cell.v
        return v

    def wr(s, cell, v):
        if cell.v is v and isinstance(v, (LProb, SObj, SGraph, SList, SDict)): return
        s.ctx.write(cell, ())
        s.ctx.set(cell, v)

    def force(s, v):
        """resolve lazies and unions by forking"""
        while True:
            if isinstance(v, Lazy):
                k = ("lazy", id(v))
                v = v.make()
            elif isinstance(v, SUnion): v = v.a if s.ctx.branch(v.cond) else v.b
            elif isinstance(v, Poison): raise Unsupported(v.why)
            elif v is UNDEF: raise Unsupported("undefined variable or attribute")
            else: return v

    def truth(s, v):
        """-> bool or z3 Bool (not forked)"""
        v = s.force(v)
        if v is None: return False
        if isinstance(v, DynNum): return v.term != 0
        if isinstance(v, (bool, int, float, str)): return bool(v)
        if isz(v):
            if z3.is_bool(v): return v
            if z3.is_arith(v): return v != 0
            if v.sort() == NodeS:      # any name may be empty or 0, but not those of the depot
                f = z3.Function("truthy", NodeS, z3.BoolSort()); s.ctx.assume(z3.And(f(SRC), f(SNK))); return f(v)
        if isinstance(v, (SList, SDict, NodesView, EdgesView)) or isinstance(v, tuple):
            return NOT(s.is_empty(v))
        if isinstance(v, (SGraph, SObj, OpaqueStr, AttrView, LVar, Func, Cls, ExtRef)): 
            if isinstance(v, SGraph): raise Unsupported("truth value of a graph")
            return True
        raise Unsupported("truth of %r" % (v,))

    def is_empty(s, v):
        conds = []
        for p in s.parts(v):
            if not p.bs: conds.append(NOT(p.guard))
            elif p.n is not None: conds.append(num(p.n) <= 0)
            else: conds.append(forall(p.bs, B(NOT(p.guard))))
        return AND(*conds)

    def test(s, v): return s.ctx.branch(s.truth(v))

    # ------------------------------------------------------------ collections
    def parts(s, v):
        v = s.force(v)
        c = s.ctx
        if isinstance(v, tuple): return [Part([], True, x) for x in v]
        if isinstance(v, SList): c.read(v.c, None); return list(v.c.v)
        if isinstance(v, SDict): c.read(v.c, None); return v.keyparts()
        if isinstance(v, NodesView): return s.nodeparts(v.g)
        if isinstance(v, SGraph): return s.nodeparts(v)
        if isinstance(v, EdgesView):
            g = v.g; c.read(g.st.E, None)
            if not g.st.symbolic and isinstance(g.st.E.v.base, EmptyBase) and all(u.present for u in g.st.E.v.ups) and not g.ids and g.st.E.v.ups:
                ups = g.st.E.v.ups; out = []
                for n, u in enumerate(ups):
                    prev = [AND(match(w, u.key)[0]) for w in ups[:n]]
                    if any(p is True for p in prev): continue
                    if any(p is not False for p in prev) and s.ctx.decide(OR(*prev)) is not False: out = None; break
                    k = u.key
                    out.append(Part(u.bs, u.guard, (k[0], k[1]) + ((AttrView(g, "ea", k),) if v.data else ()), None, True))
                if out is not None: return out
            a, b = fresh_const(NodeS, "u"), fresh_const(NodeS, "v")
            e = (a, b, AttrView(g, "ea", (a, b))) if v.data else (a, b)
            return [Part([a, b], g.hasE(a, b), e, None, True)]
        if isinstance(v, s.Range):
            if isinstance(v.lo, int) and isinstance(v.hi, int) and v.hi - v.lo <= 64: return [Part([], True, i) for i in range(v.lo, v.hi)]
            return [seqpart(sub(v.hi, v.lo), lambda i: z3.simplify(i + num(v.lo)))]
        if isinstance(v, s.Bag): return v.parts
        if type(v).__name__ == "ProbConstraints":
            from . import ext
            return ext.row_names(s, v.prob)
        if isinstance(v, AttrView) and v.which == "ga": raise Unsupported("iteration over graph attributes")
        raise Unsupported("iteration over %r" % (v,))

    class Range:
        def __init__(s, lo, hi): s.lo, s.hi = lo, hi
    class Bag:
        """unordered collection (generator, set, view)"""
        def __init__(s, parts): s.parts = list(parts)

    class Neigh(Bag):
        """successors / predecessors of a node"""
        def __init__(s, it, g, v, succ): s.it, s.g, s.v, s.succ = it, g, v, succ
        @property
        def parts(s):
            from . import ext
            return ext.neigh_parts(s.it, s.g, s.v, s.succ)

    def nodeparts(s, g):
        s.ctx.read(g.st.N, None)
        if not g.st.symbolic and not g.ids and isinstance(g.st.N.v.base, EmptyBase) and all(u.present and not u.bs and u.guard is True for u in g.st.N.v.ups):
            out = []; ups = g.st.N.v.ups
            for n, u in enumerate(ups):
                prev = [eq(u.key[0], w.key[0]) for w in ups[:n]]
                if any(p is True for p in prev): continue
                if any(p is not False for p in prev) and s.ctx.decide(OR(*prev)) is not False: out = None; break
                out.append(Part([], True, u.key[0]))
            if out is not None: return out
        a = fresh_const(NodeS, "v")
        return [Part([a], g.hasN(a), a, None, True)]

    def contains(s, x, coll):
        coll = s.force(coll); x = s.force(x)
        if isinstance(coll, s.Neigh):
            e = (coll.v, scal(x)) if coll.succ else (scal(x), coll.v)
            s.ctx.read(coll.g.st.E, coll.g.ids + e)
            return coll.g.hasE(*e)
        if isinstance(coll, (NodesView, SGraph)):
            s.ctx.read(coll.g.st.N if isinstance(coll, NodesView) else coll.st.N, (scal(x),))
            return (coll.g if isinstance(coll, NodesView) else coll).hasN(x)
        if isinstance(coll, EdgesView):
            s.ctx.read(coll.g.st.E, coll.g.ids + tuple(scal(k) for k in x))
            return coll.g.hasE(*x)
        if isinstance(coll, SDict): return s.hasmap(coll.c, x if isinstance(x, tuple) else (x,))
        if isinstance(coll, AttrView):
            a = s.conststr(x)
            return s.hasmap(coll.g.st.attr(coll.which, a), coll.g.ids + coll.key)
        if isinstance(coll, OpaqueStr) and isinstance(x, str):
            args = [a for a in coll.args[1:] if isz(a) and not z3.is_arith(a)]
            if x in coll.args[0]: return True
            if not args: return False
            return z3.Function("contains_%s_in_%s" % (x, coll.args[0]), *([a.sort() for a in args] + [z3.BoolSort()]))(*args)
        if isinstance(coll, str) and isinstance(x, str): return x in coll
        conds = []
        for p in s.parts(coll):
            p = p.fresh()
            conds.append(exists(p.bs, B(AND(p.guard, s.equal(x, p.elem)))))
        return OR(*conds)

    def conststr(s, x):
        if isinstance(x, str): return x
        if isz(x):
            from .core import _names
            for k, v in _names.items():
                if v.eq(x): return k
        raise Unsupported("attribute name %r" % (x,))

    def equal(s, a, b):
        a, b = s.force(a), s.force(b)
        if isinstance(a, SList) and isinstance(b, SList):
            if a is b: return True
            x, y = a.seq(), b.seq()
            if x is None or y is None:
                if not b.c.v: return s.is_empty(a)
                if not a.c.v: return s.is_empty(b)
                s.ctx.read(a.c, None); s.ctx.read(b.c, None)
                s.ctx.taint = s.ctx.taint or "comparison of unordered lists left open"
                return s.ctx.fresh("same_list", z3.BoolSort())
            s.ctx.read(a.c, None); s.ctx.read(b.c, None)
            if isinstance(y[0], int): x, y = y, x
            if isinstance(x[0], int) and x[0] <= 4: return AND(eq(x[0], y[0]), *[s.equal(x[1](i), y[1](i)) for i in range(x[0])])
            i = fresh_const(z3.IntSort(), "i")
            return AND(eq(x[0], y[0]), forall([i], B(IMP(AND(i >= 0, i < num(x[0])), s.equal(x[1](i), y[1](i))))))
        if isinstance(a, SDict) and isinstance(b, SDict):
            if not b.c.v.ups and isinstance(b.c.v.base, EmptyBase): return s.is_empty(a)
            if not a.c.v.ups and isinstance(a.c.v.base, EmptyBase): return s.is_empty(b)
            raise Unsupported("comparison of dicts")
        if isinstance(a, SGraph) and isinstance(b, SGraph):
            return AND(*[eq(x, y) for x, y in zip(a.ids, b.ids)]) if a.st is b.st else False
        if isinstance(a, (SList, SDict)) or isinstance(b, (SList, SDict)): return False
        if isinstance(a, OpaqueStr) and isinstance(b, OpaqueStr) and a.args[0] == b.args[0] and len(a.args) == len(b.args): return AND(*[s.equal(x, y) for x, y in zip(a.args[1:], b.args[1:])])
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr): raise Unsupported("comparison of formatted strings")
        return eq(a, b)

    def length(s, v):
        v = s.force(v)
        if isinstance(v, s.SetOf): return v.card(s)
        n = 0
        for p in s.parts(v):
            if not p.bs: n = add(n, ite(p.guard, 1, 0) if p.guard is not True else 1)
            elif p.n is not None: n = add(n, p.n)
            else:
                t = s.ctx.sum(p.bs, p.guard, z3.RealVal(1))
                c = z3.ToInt(t)
                if isz(t): s.ctx.assume(t == z3.ToReal(c)); s.ctx.assume(t >= 0)
                n = add(n, c)
        if isz(n) and not isinstance(v, s.Range):
            s.ctx.assume(n >= 0)
        return n

    class SetOf:
        def __init__(s, lst): s.lst = lst
        def card(s, it):
            q = s.lst.seq()
            if q is None: raise Unsupported("cardinality of a set")
            n, at = q
            i, j = fresh_const(z3.IntSort(), "i"), fresh_const(z3.IntSort(), "j")
            dist = forall([i, j], z3.Implies(z3.And(i >= 0, i < j, j < num(n)), B(NOT(eq(at(i), at(j))))))
            c = it.ctx.fresh("card", z3.IntSort())
            it.ctx.assume(z3.And((c == num(n)) == B(dist), c <= num(n)))
            return c

    # ------------------------------------------------------------ calls
    def call_func(s, f, args, kw, selfobj=None):
        if f.qual in s.summaries and (not s.stack or s.stack[-1] is not f or True) and f.qual not in s.nosum():
            return s.summaries[f.qual](s, selfobj, args, kw)
        if len(s.stack) > 25: raise Unsupported("recursion")
        s.inlined.add(f.qual)
        a = f.node.args
        env = {}
        names = [x.arg for x in a.args]
        vals = list(args)
        if f.cls is not None and not f.static: vals = [selfobj] + vals
        if a.vararg:
            extra = vals[len(names):]; vals = vals[:len(names)]
            env[a.vararg.arg] = Cell(tuple(extra), a.vararg.arg)
        if len(vals) > len(names): raise PyRaise("TypeError", "arguments")
        for n, v in zip(names, vals): env[n] = Cell(v, n)
        kw = dict(kw)
        for n in names[len(vals):]:
            if n in kw: env[n] = Cell(kw.pop(n), n)
        for x in a.kwonlyargs:
            if x.arg in kw: env[x.arg] = Cell(kw.pop(x.arg), x.arg)
        menv = {"__mod__": f.mod, "__cls__": f.cls, "__func__": f}
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defs:
            if n not in env: env[n] = Cell(s.ev(d, dict(menv)), n)
        if kw:
            if a.kwarg: raise Unsupported("**kwargs")
            raise PyRaise("TypeError", "unexpected argument %s" % list(kw))
        missing = [n for n in names if n not in env]
        if missing: raise PyRaise("TypeError", "missing %s" % missing)
        env.update(menv)
        s.stack.append(f)
        try:
            s.block(f.node.body, env)
            return None
        except ReturnEx as r: return r.v
        finally: s.stack.pop()

    def nosum(s): return s._nosum if hasattr(s, "_nosum") else ()

    def method(s, obj, name, args=(), kw=None):
        f = obj.cls.find(name) if obj.cls else None
        if f is None: raise Unsupported("no method %s" % name)
        return s.call_func(f, list(args), kw or {}, obj)

    def construct(s, cls, args, kw):
        o = SObj(cls, cls.name)
        f = cls.find("__init__")
        if f: s.call_func(f, args, kw, o)
        return o

    def call(s, fn, args, kw):
        fn = s.force(fn)
        if isinstance(fn, FuncRef): return s.call_func(fn.f, args, kw, fn.self)
        if isinstance(fn, Func): return s.call_func(fn, args, kw)
        if isinstance(fn, Cls):
            if fn.qual in s.summaries: return s.summaries[fn.qual](s, None, args, kw)
            return s.construct(fn, args, kw)
        if isinstance(fn, BoundMethod): return s.call_method(fn.obj, fn.name, args, kw)
        if isinstance(fn, LambdaRef):
            env = dict(fn.env)
            for p, v in zip(fn.node.args.args, args): env[p.arg] = Cell(v, p.arg)
            return s.ev(fn.node.body, env)
        if isinstance(fn, ExtRef):
            if fn.path in s.ext: return s.ext[fn.path](s, args, kw)
            raise Unsupported("call of %s" % fn.path)
        if isinstance(fn, NodesView):
            d = s.force(kw.get("data", args[0] if args else False))
            if not isinstance(d, bool) or set(kw) - {"data"}: raise Unsupported("nodes(data)")
            return s.Bag([Part(p.bs, p.guard, (p.elem, AttrView(fn.g, "na", (scal(p.elem),))), None, p.uniq) for p in s.nodeparts(fn.g)]) if d else fn
        if isinstance(fn, EdgesView):
            d = s.force(kw.get("data", args[0] if args else False))
            if not isinstance(d, bool): raise Unsupported("edges(data=...)")
            return EdgesView(fn.g, d)
        if callable(fn): return fn(s, args, kw)
        raise Unsupported("call of %r" % (fn,))

    def call_method(s, o, name, args, kw):
        from . import ext
        return ext.method(s, o, name, args, kw)

    # ------------------------------------------------------------ names, attributes
    def name(s, n, env):
        if n in env and isinstance(env[n], Cell):
            v = s.rd(env[n])
            if v is UNDEF: raise Unsupported("variable %s not assigned" % n)
            return v
        r = env["__mod__"].lookup(n)
        if isinstance(r, Func): return r
        if isinstance(r, Cls): return r
        if isinstance(r, tuple):
            if r[0] == "ext":
                from . import ext
                return ext.CONSTS[r[1]] if r[1] in ext.CONSTS else ExtRef(r[1])
            if r[0] == "repomod": return r[1]
            if n == "logger": return LoggerRef()
            return s.ev(r[1], {"__mod__": env["__mod__"], "__cls__": None, "__func__": None})
        return ExtRef("builtins." + n)

    def getattr(s, o, a):
        o = s.force(o)
        if isinstance(o, SObj):
            f = o.cls.find(a) if o.cls else None
            if f is not None:
                if f.prop: return s.call_func(f, [], {}, o)
                return FuncRef(f, o)
            c = o.cell(a)
            v = s.rd(c)
            if v is UNDEF:
                if o.cls and a in o.cls.consts: return s.ev(o.cls.consts[a], {"__mod__": o.cls.mod, "__cls__": None, "__func__": None})
                if getattr(o, "partial", False): raise Unsupported("attribute %s of an object the contract sets up" % a)
                raise PyRaise("AttributeError", a)
            return v
        if isinstance(o, SuperRef):
            for b in o.cls.bases():
                f = b.find(a)
                if f: return FuncRef(f, o.obj)
            raise Unsupported("super().%s" % a)
        if isinstance(o, ExtRef):
            from . import ext
            q = o.path + "." + a
            return ext.CONSTS[q] if q in ext.CONSTS else ExtRef(q)
        if isinstance(o, Mod): return s.name(a, {"__mod__": o})
        if isinstance(o, SGraph):
            if a == "nodes": return NodesView(o)
            if a == "edges": return EdgesView(o)
            if a == "graph": return AttrView(o, "ga", ())
        from . import ext
        r = ext.attribute(s, o, a)
        if r is not None: return r
        return BoundMethod(o, a)

    def setattr(s, o, a, v):
        o = s.force(o)
        if isinstance(o, SObj):
            if getattr(o, "frozen", False): raise Unsupported("mutation of an object of a summarised loop")
            s.wr(o.cell(a), v); return
        from . import ext
        if ext.setattribute(s, o, a, v): return
        raise Unsupported("attribute assignment %s on %r" % (a, o))

    # ------------------------------------------------------------ subscripts
    def getitem(s, o, k):
        o = s.force(o)
        k = k if isinstance(k, slice) else s.force(k)
        if isinstance(o, SDict):
            v = s.getmap(o.c, k if isinstance(k, tuple) else (k,))
            return s.orig(v, o.c, k if isinstance(k, tuple) else (k,), o)
        if isinstance(o, NodesView):
            s.ctx.read(o.g.st.N, o.g.ids + (scal(k),))
            if not s.ctx.branch(o.g.hasN(k)): raise PyRaise("KeyError", "node")
            return AttrView(o.g, "na", (scal(k),))
        if isinstance(o, EdgesView):
            u, v = k
            s.ctx.read(o.g.st.E, o.g.ids + (scal(u), scal(v)))
            if not s.ctx.branch(o.g.hasE(u, v)): raise PyRaise("KeyError", "edge")
            return AttrView(o.g, "ea", (scal(u), scal(v)))
        if isinstance(o, AttrView):
            a = s.conststr(k)
            cell = o.g.st.attr(o.which, a)
            v = s.getmap(cell, o.g.ids + o.key)
            return s.orig(v, cell, o.g.ids + o.key, None)
        if isinstance(o, SGraph): return AdjView(o, k)
        if isinstance(o, AdjView): return s.getitem(EdgesView(o.g), (o.u, k))
        if isinstance(o, tuple) and isinstance(k, int): return o[k]
        if isinstance(o, tuple): o = SList([Part([], True, x) for x in o])
        if isinstance(o, SList): return s.listitem(o, k)
        if isinstance(o, VarDict):
            key = o.prefix + (tuple(scal(x) for x in k) if isinstance(k, tuple) else (scal(k),))
            if o.depth and len(key) < o.depth: return VarDict(o.tpl, o.dom, o.depth, key)
            inside = s.contains_key(o.dom, key) if not o.depth else AND(*[s.contains_key(d, (k2,)) for d, k2 in zip(o.dom, key)])
            if not s.ctx.branch(inside): raise PyRaise("KeyError", "variable")
            return LVar(o.tpl, key)
        from . import ext
        return ext.getitem(s, o, k)

    def contains_key(s, dom, key):
        conds = []
        for p in dom:
            p = p.fresh()
            e = p.elem if isinstance(p.elem, tuple) else (p.elem,)
            if len(e) != len(key): continue
            conds.append(exists(p.bs, B(AND(p.guard, *[eq(a, b) for a, b in zip(e, key)]))))
        return OR(*conds)

    def orig(s, v, cell, key, owner):
        if isinstance(v, (SList, SDict)) and owner_is_value(v): v.origin = (cell, key)
        return v

    def listitem(s, o, k):
        s.ctx.read(o.c, None)
        if isinstance(k, slice):
            return s.slice(o, k)
        q = o.seq()
        if q is None:
            ps = o.c.v
            if isinstance(k, int) and k == -1 and ps and not ps[-1].bs and ps[-1].guard is True: return ps[-1].elem
            if isinstance(k, int) and k == 0 and ps and not ps[0].bs and ps[0].guard is True: return ps[0].elem
            if isinstance(k, int) and k in (0, -1) and hasattr(o, "minkey"): return o.minkey(s, k)
            raise Unsupported("index into a filtered list")
        n, at = q
        k = k.term if isinstance(k, DynNum) else k
        if isz(k) and k.sort() == z3.RealSort(): k = z3.ToInt(k)
        if isinstance(k, int):
            if k < 0: idx = add(n, k); ok = s.ctx.branch(num(n) >= -k) if isz(n) else n >= -k
            else: idx = k; ok = s.ctx.branch(num(n) > k) if isz(n) else n > k
            if not ok: raise PyRaise("IndexError")
        else:
            ok = s.ctx.branch(z3.And(k >= 0, k < num(n)))
            if not ok:
                if s.ctx.branch(z3.And(k < 0, k >= -num(n))): idx = z3.simplify(k + num(n)); 
                else: raise PyRaise("IndexError")
            else: idx = k
        v = at(idx)
        if isinstance(v, SList) and v.origin is None and not any(p.elem is v for p in o.c.v): v.c.rows = False      # not to be changed through this reference
        return v

    def slice(s, o, k):
        if k.step is not None: raise Unsupported("slice step")
        q = o.seq()
        lo, hi = k.start, k.stop
        if q is None:
            if hasattr(o, "minkey"):      # part of a sorted collection: some of its elements
                from . import ext
                r = SList(ext.subset_of(s, o.c.v))
                if lo in (None, 0) and hi is not None and (isz(hi) or isinstance(hi, int) and hi > 0):      # at least one of the first ones
                    s.ctx.assume(z3.Implies(z3.And(B(NOT(s.is_empty(o))), B(num(hi) > 0)), B(NOT(s.is_empty(r)))))
                return r
            if lo is None and hi is None: return SList(o.c.v)
            raise Unsupported("slice of a filtered list")
        n, at = q
        if isinstance(n, int) and all(not p.bs for p in o.c.v) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return SList([p for p in o.c.v[lo:hi]])
        def clamp(x, dflt):
            if x is None: return dflt
            if isinstance(x, int) and x < 0: y = add(n, x); return ite(num(y) < 0, 0, y) if isz(y) else max(0, y)
            return ite(num(x) > num(n), n, x) if isz(x) or isz(n) else min(x, n)
        a, b = clamp(lo, 0), clamp(hi, n)
        if isz(a): a = s.simp(a)
        if isz(b): b = s.simp(b)
        ln = sub(b, a)
        if isz(ln):
            d = s.ctx.decide(ln >= 0)
            if d is not True: ln = z3.If(ln >= 0, ln, z3.IntVal(0))
        elif ln < 0: ln = 0
        return SList([seqpart(ln, lambda i: at(add(i, a)))])

    def simp(s, x):
        """drop decided ites"""
        x = z3.simplify(x)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            d = s.ctx.decide(x.arg(0))
            if d is True: return s.simp(x.arg(1))
            if d is False: return s.simp(x.arg(2))
        return x

    def setitem(s, o, k, v):
        o = s.force(o); k = s.force(k) if not isinstance(k, slice) else k
        if isinstance(o, SDict):
            s.putmap(o.c, k if isinstance(k, tuple) else (k,), v); s.writeback(o); return
        if isinstance(o, AttrView):
            if o.which == "ga" and not o.g.st.symbolic or True:
                s.putmap(o.g.st.attr(o.which, s.conststr(k)), o.g.ids + o.key, v); return
        if isinstance(o, SList):
            q = o.seq()
            if q is None: raise Unsupported("item assignment in a filtered list")
            n, at = q
            s.ctx.read(o.c, None); s.ctx.write(o.c, None)
            if isinstance(k, int) and isinstance(n, int) and all(not p.bs for p in o.c.v):
                ps = list(o.c.v)
                if not -n <= k < n: raise PyRaise("IndexError")
                ps[k] = Part([], True, v); s.ctx.set(o.c, tuple(ps))
            else:
                kk = num(k) if not (isinstance(k, int) and k < 0) else num(add(n, k))
                if kk.sort() == z3.RealSort(): kk = z3.ToInt(kk)
                if not s.ctx.branch(z3.And(kk >= 0, kk < num(n))): raise PyRaise("IndexError")
                s.ctx.set(o.c, (seqpart(n, lambda i: ite(i == kk, v, at(i))),))
                if o.origin is not None and (isz(v) or isinstance(v, (int, float))):
                    cell, key = o.origin
                    key = tuple(scal(k_) if isinstance(k_, (str, DynNum)) else k_ for k_ in key)
                    for u in reversed(cell.v.ups):
                        c, w = match(u, key)
                        if c is False: continue
                        if c is True and w is o: s.ctx.read(cell, key); return
                        break
                    s.ctx.write(cell, key + (kk,))
                    s.ctx.set(cell, cell.v.put(key + (kk,), v, (), True, True, True))
                    for pc in s.sharing(cell): s.ctx.write(pc, key + (kk,)); s.ctx.set(pc, pc.v.put(key + (kk,), v, (), True, True, True))
                    return
            s.writeback(o); return
        if isinstance(o, AdjView):
            raise Unsupported("assignment through adjacency")
        from . import ext
        if ext.setitem(s, o, k, v): return
        raise Unsupported("item assignment on %r" % (o,))

    def writeback(s, o):
        if o.origin is not None:
            cell, key = o.origin
            key = tuple(scal(k) if isinstance(k, (str, DynNum)) else k for k in key)
            for u in reversed(cell.v.ups):          # the map already refers to this very object
                c, v = match(u, key)
                if c is False: continue
                if c is True and v is o: s.ctx.read(cell, key); return
                break
            for pc in s.sharing(cell): s.putmap(pc, key, o)
            s.putmap(cell, key, o)

    def sharing(s, cell):
        """cells of shallow copies whose lists are changed along with those of this cell"""
        for pc, n, m in cell.peers:
            if any(not u.item for u in cell.v.ups[n:]) or any(not u.item for u in pc.v.ups[m:]): raise Unsupported("list shared with a copy of the network, one of them replaced since")
        return [pc for pc, _, _ in cell.peers]

    # ------------------------------------------------------------ expressions
    def ev(s, n, env):
        m = getattr(s, "ev_" + type(n).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(n).__name__)
        return m(n, env)

    def ev_Constant(s, n, env): return n.value
    def ev_Name(s, n, env): return s.name(n.id, env)
    def ev_Attribute(s, n, env): return s.getattr(s.ev(n.value, env), n.attr)
    def ev_Tuple(s, n, env):
        return tuple(s.ev(x, env) for x in n.elts)
    def ev_List(s, n, env): return SList.of(*[s.ev(x, env) for x in n.elts])
    def ev_Set(s, n, env): return s.Bag([Part([], True, s.ev(x, env)) for x in n.elts])
    def ev_Dict(s, n, env):
        d = SDict()
        for k, v in zip(n.keys, n.values): s.putmap(d.c, (s.ev(k, env),), s.ev(v, env))
        return d
    def ev_JoinedStr(s, n, env):
        t, a = "", []
        for x in n.values:
            if isinstance(x, ast.Constant): t += str(x.value).replace("%", "%%")
            elif x.format_spec is not None or x.conversion not in (-1, 115): return OpaqueStr("f", *[])
            else:
                v = s.ev(x.value, env); t += "%s"; a.append(v if isinstance(v, (SList, SDict, SObj, SGraph, tuple)) else s.fmtarg(v))
        if all(isinstance(v, str) for v in a): return t % tuple(a)
        return OpaqueStr(t, *a)
    def ev_Lambda(s, n, env): return LambdaRef(n, env, env["__mod__"])
    def ev_Slice(s, n, env): return slice(*[s.ev(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])
    def subbase(s, n, env):
        """container of a subscript; a list fetched from a map is not read as a whole -> (value, was)"""
        v = s.ev(n, env); acc = s.ctx.acc
        if acc and isinstance(v, SList) and v.origin is not None and isinstance(n, ast.Subscript) and acc[-1][0] == "r" and acc[-1][1] is v.origin[0]:
            acc.pop(); return v, True
        return v, False

    def itemread(s, o, k):
        cell, key = o.origin
        key = tuple(scal(k_) if isinstance(k_, (str, DynNum)) else k_ for k_ in key)
        k = s.force(k) if not isinstance(k, slice) else k
        k = k.term if isinstance(k, DynNum) else k
        if isinstance(k, int) and k >= 0: k = z3.IntVal(k)
        s.ctx.read(cell, key + (k,) if isz(k) and k.sort() == z3.IntSort() else key)

    def ev_Subscript(s, n, env):
        o, was = s.subbase(n.value, env); k = s.ev(n.slice, env)
        if was: s.itemread(o, k)
        return s.getitem(o, k)
    def ev_IfExp(s, n, env):
        t = s.truth(s.ev(n.test, env))
        if not isinstance(t, bool) and s.ctx.binders and id(n) not in s.nomerge:
            d = s.ctx.decide(t)
            if d is not None: t = d
            else:
                fr = s.ctx.frames[-1]; cnt = fr.cnt; la = len(s.ctx.acc) if s.ctx.acc is not None else 0; mk = s.ctx.mark(); npc = len(s.ctx.pc)
                try:
                    a, b = [s.ctx.under([], c, lambda: s.ev(x, env)) for c, x in ((t, n.body), (NOT(t), n.orelse))]
                    if s.ctx.mark() == mk and all(isnum(x) or isbool(x) or isnode(x) for x in (a, b)):
                        v = ite(t, a, b)
                        if not isinstance(v, SUnion): return v
                except Unsupported: pass
                del s.ctx.pc[npc:]
                if s.ctx.acc is not None: del s.ctx.acc[la:]
                fr.cnt = cnt; s.nomerge.add(id(n))
        return s.ev(n.body if s.ctx.branch(t) else n.orelse, env)
    def ev_NamedExpr(s, n, env): v = s.ev(n.value, env); s.assign(n.target, v, env); return v
    def ev_Starred(s, n, env): raise Unsupported("starred")

    def ev_BoolOp(s, n, env):
        isand = isinstance(n.op, ast.And)
        for x in n.values[:-1]:
            v = s.ev(x, env)
            t = s.test(v)
            if isand and not t: return v if not isz(v) and not isinstance(v, (Lazy, SUnion)) else False
            if not isand and t: return v if not (isz(v) and z3.is_bool(v)) else True
        return s.ev(n.values[-1], env)

    def ev_UnaryOp(s, n, env):
        v = s.ev(n.operand, env)
        if isinstance(n.op, ast.Not): return NOT(s.truth(v))
        v = s.force(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)): return -v
            if isinstance(v, (Lin, LVar, RowVar)): return lin_scale(lin(v), -1)
            return -num(v)
        if isinstance(n.op, ast.UAdd): return v
        raise Unsupported("unary")

    def ev_BinOp(s, n, env): return s.binop(n.op, s.ev(n.left, env), s.ev(n.right, env))

    def binop(s, op, a, b):
        a = s.force(a)
        if isinstance(op, ast.Mod) and (isinstance(a, (str, OpaqueStr))):
            args = b if isinstance(b, tuple) else (b,)
            out = []
            for x in args: out.append(x if isinstance(x, (SList, SDict, SObj, SGraph, tuple)) else s.fmtarg(x))
            return OpaqueStr(a if isinstance(a, str) else a.args[0], *out)
        b = s.force(b)
        if isinstance(a, NArr) or isinstance(b, NArr): raise Unsupported("vector arithmetic")
        if isinstance(a, (str, OpaqueStr)) and isinstance(op, ast.Add):
            if isinstance(a, str) and isinstance(b, str): return a + b
            return OpaqueStr("%s%s", a, b)
        if isinstance(a, (Lin, LVar, RowVar)) or isinstance(b, (Lin, LVar, RowVar)):
            if isinstance(op, ast.Add): return lin_add(lin(a), lin(b))
            if isinstance(op, ast.Sub): return lin_add(lin(a), lin_scale(lin(b), -1))
            if isinstance(op, ast.Mult):
                if isinstance(a, (Lin, LVar, RowVar)) and isinstance(b, (Lin, LVar, RowVar)): raise Unsupported("product of variables")
                return lin_scale(lin(a), b) if isinstance(a, (Lin, LVar, RowVar)) else lin_scale(lin(b), a)
            if isinstance(op, ast.Div): return lin_scale(lin(a), 1 / real(b))
            raise Unsupported("linear operation")
        if isinstance(a, tuple): a = SList([Part([], True, x) for x in a])
        if isinstance(b, tuple): b = SList([Part([], True, x) for x in b])
        if isinstance(a, SList) and isinstance(b, SList) and isinstance(op, ast.Add):
            s.ctx.read(a.c, None); s.ctx.read(b.c, None)
            return SList(a.c.v + b.c.v)
        if isinstance(op, ast.Mult) and (isinstance(a, SList) or isinstance(b, SList)):
            if isinstance(b, SList): a, b = b, a
            ps = a.c.v
            if isinstance(b, int): return SList(ps * b)
            if len(ps) == 1 and not ps[0].bs:
                bb = z3.ToInt(b) if b.sort() == z3.RealSort() else b
                ln = bb if s.ctx.decide(bb >= 0) else z3.If(bb >= 0, bb, z3.IntVal(0))
                return SList([seqpart(ln, lambda i: ps[0].elem)])
            raise Unsupported("list repetition")
        if a is None or b is None: raise PyRaise("TypeError", "None in arithmetic")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(op, ast.Div):
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Pow: lambda: a ** b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b}[type(op)]()
        x, y = num(a), num(b)
        if isinstance(op, ast.Div):
            if s.ctx.branch(y == 0): raise PyRaise("ZeroDivisionError")
            return real(x) / real(y)
        if x.sort() != y.sort(): x, y = real(x), real(y)
        if isinstance(op, ast.Add): return x + y
        if isinstance(op, ast.Sub): return x - y
        if isinstance(op, ast.Mult): return x * y
        if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 4:
            r = z3.RealVal(1)
            for _ in range(b): r = r * real(x)
            return r
        if isinstance(op, ast.FloorDiv) and x.sort() == z3.IntSort() and isinstance(b, int) and b > 0: return x / y
        raise Unsupported("operator %s" % type(op).__name__)

    def fmtarg(s, x):
        if isinstance(x, (Lazy, SUnion)): return None
        return x

    def ev_Compare(s, n, env):
        left = s.ev(n.left, env); out = []
        for op, r in zip(n.ops, n.comparators):
            right = s.ev(r, env)
            out.append(s.compare(op, left, right)); left = right
        if len(out) == 1: return out[0]
        return AND(*out)

    def compare(s, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            a, b = s.force(a), s.force(b)
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool): r = (a is b) if not (isz(a) or isz(b)) or a is None or b is None else eq(a, b)
            elif isinstance(a, SGraph): r = s.equal(a, b)
            else: r = a is b
            return r if isinstance(op, ast.Is) else NOT(r)
        if isinstance(op, ast.In): return s.contains(a, b)
        if isinstance(op, ast.NotIn): return NOT(s.contains(a, b))
        a, b = s.force(a), s.force(b)
        if isinstance(a, (Lin, LVar)) or isinstance(b, (Lin, LVar)):
            d = lin_add(lin(a), lin_scale(lin(b), -1))
            if isinstance(op, ast.LtE): return Constr(d, "LE")
            if isinstance(op, ast.GtE): return Constr(lin_scale(d, -1), "LE")
            if isinstance(op, ast.Eq): return Constr(d, "EQ")
            raise Unsupported("strict linear constraint")
        if isinstance(op, ast.Eq): return s.equal(a, b)
        if isinstance(op, ast.NotEq): return NOT(s.equal(a, b))
        if a is None or b is None: raise PyRaise("TypeError", "ordering None")
        if isinstance(a, str) and isinstance(b, str): return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)): raise PyRaise("TypeError", "ordering of different types")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)): return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        x, y = num(a), num(b)
        if x.sort() != y.sort(): x, y = real(x), real(y)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

    def ev_Call(s, n, env):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("logger", "logging") and f.value.id not in env:
            s.dropped.add("logging"); return None
        if isinstance(f, ast.Name) and f.id == "print" and f.id not in env: return None
        if isinstance(f, ast.Name) and f.id == "super": return SuperRef(env[env["__func__"].node.args.args[0].arg].v, env["__cls__"])
        fn = s.ev(f, env)
        if isinstance(fn, LoggerRef) or (isinstance(fn, BoundMethod) and isinstance(fn.obj, LoggerRef)): return None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = s.force(s.ev(a.value, env))
                if isinstance(v, tuple): args += list(v)
                else: raise Unsupported("star argument")
            elif isinstance(a, ast.GeneratorExp): args.append(s.Bag(s.comp(a, env)))
            else: args.append(s.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = s.force(s.ev(k.value, env))
                if not isinstance(d, SDict) or not isinstance(d.c.v.base, EmptyBase): raise Unsupported("**kwargs")
                for u in d.c.v.ups:
                    if u.bs or u.guard is not True or not u.present or len(u.key) != 1: raise Unsupported("**kwargs")
                    kw[s.conststr(u.key[0])] = s.getmap(d.c, u.key)
                continue
            kw[k.arg] = s.ev(k.value, env)
        return s.call(fn, args, kw)

    def ev_ListComp(s, n, env):
        r = SList(s.comp(n, env)); e = n.elt
        if isinstance(e, (ast.ListComp, ast.List)) or isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and isinstance(e.left, ast.List):      # every row a new list
            ps = r.c.v
            if len(ps) == 1 and ps[0].n is not None and isinstance(ps[0].elem, SList):
                q = ps[0].elem.seq()
                if q is not None and not (isz(q[0]) and any(occurs(b, q[0]) for b in ps[0].bs)): r.c.rows = (q[0], ps[0].n)
        return r
    def ev_GeneratorExp(s, n, env): return s.Bag(s.comp(n, env))
    def ev_SetComp(s, n, env): return s.Bag(s.comp(n, env))

    def ev_DictComp(s, n, env):
        pair = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        d = SDict()
        for p in s.comp(ast.ListComp(elt=pair, generators=n.generators), env):
            k, v = p.elem
            s.putmap(d.c, k if isinstance(k, tuple) else (k,), v, True, p.bs, p.guard)
        return d

    # ------------------------------------------------------------ comprehensions
    def comp(s, n, env):
        env = dict(env)
        for nm in {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}: env[nm] = Cell(UNDEF, nm)
        return s._comp(n.generators, lambda: s.ev(n.elt, env), env)

    def _comp(s, gens, elt, env):
        if not gens:
            return [Part([], True, elt())]
        g = gens[0]
        out = []
        for p in s.parts(s.ev(g.iter, env)):
            if not p.bs and p.guard is True:
                s.bind(g.target, p.elem, env)
                if all(s.test(s.ev(c, env)) for c in g.ifs): out += s._comp(gens[1:], elt, env)
                continue
            out += s.compbody(p, g, gens, elt, env)
        return out

    def compbody(s, p, g, gens, elt, env):
        p = p.fresh(); ctx = s.ctx
        res, exits = [], []
        base = len(ctx.pc); frm = Serial.n
        def run():
            ctx.binders += list(p.bs); ctx.cond(p.guard)
            s.bind(g.target, p.elem, env)
            for c in g.ifs:
                if not s.test(s.ev(c, env)): return None
            return s._comp(gens[1:], elt, env)
        lifts = []
        for kind, r in ctx.explore(run):
            cs, fs = ctx.split(base); gd = AND(*cs); lifts.append((cs, fs))
            if kind == "raise": exits.append((r.kind, gd)); continue
            if r is None: res.append((gd, None)); continue
            for q in r: res.append((gd, Part(q.bs, q.guard, freeze(q.elem, frm), q.n, q.uniq)))
        ctx.lift(p.bs, lifts)
        s.exits_raise(p, exits)
        out = []
        live = [x for x in res if x[1] is not None]
        if p.n is not None and len(res) == 1 and len(live) == 1 and not live[0][1].bs and live[0][1].guard is True:
            return [Part(p.bs, p.guard, live[0][1].elem, p.n)]
        for gd, q in live:
            bs = tuple(p.bs) + tuple(q.bs)
            gg = z3.simplify(B(AND(gd, q.guard)))
            for o in out:
                if len(o.bs) == len(bs) and all(a.eq(b) for a, b in zip(o.bs, bs)) and same(o.elem, q.elem):
                    o.guard = z3.simplify(z3.Or(o.guard, gg)); break
            else: out.append(Part(bs, gg, q.elem, None, p.uniq and q.uniq))
        return out

    def exits_raise(s, p, exits):
        """forks on: no element raises / some element raises kind"""
        kinds = {}
        for k, g in exits: kinds.setdefault(k, []).append(g)
        if not kinds: return
        allg = OR(*[g for gs in kinds.values() for g in gs])
        k = s.ctx.choose(1 + len(kinds))
        if k == 0: s.ctx.cond(forall(p.bs, B(NOT(allg)))); s.feasible(); return
        kind = list(kinds)[k - 1]
        s.ctx.cond(exists(p.bs, B(OR(*kinds[kind]))))
        w = [s.ctx.fresh("w", b.sort()) for b in p.bs]
        s.ctx.assume(subst(B(OR(*kinds[kind])), list(zip(p.bs, w)))); s.feasible()
        raise PyRaise(kind)

    def feasible(s):
        r, _ = s.ctx.check(s.ctx.pc, 2500)
        if r == z3.unsat: raise Infeasible()

    # ------------------------------------------------------------ statements
    def block(s, body, env):
        for st in body: s.ex(st, env)

    def ex(s, n, env):
        m = getattr(s, "ex_" + type(n).__name__, None)
        if m is None: raise Unsupported("statement %s" % type(n).__name__)
        m(n, env)

    def ex_Expr(s, n, env): s.ev(n.value, env)
    def ex_Pass(s, n, env): pass
    def ex_Global(s, n, env): pass
    def ex_Import(s, n, env): raise Unsupported("local import")
    ex_ImportFrom = ex_Import
    def ex_Return(s, n, env): raise ReturnEx(s.ev(n.value, env) if n.value else None)
    def ex_Break(s, n, env): raise BreakEx()
    def ex_Continue(s, n, env): raise ContinueEx()
    def ex_Assert(s, n, env):
        if not s.test(s.ev(n.test, env)): raise PyRaise("AssertionError")

    def ex_Raise(s, n, env):
        e = n.exc
        if isinstance(e, ast.Call): e = e.func
        if isinstance(e, ast.Name): raise PyRaise(e.id if e.id in EXC else "Exception")
        raise Unsupported("raise")

    def ex_If(s, n, env):
        t = s.truth(s.ev(n.test, env))
        if not isinstance(t, bool) and s.ctx.binders and (id(n), s.ctx.acc is None) not in s.nomerge:
            d = s.ctx.decide(t)
            if d is not None: t = d
            else:
                fr = s.ctx.frames[-1]; cnt = fr.cnt; la = len(s.ctx.acc) if s.ctx.acc is not None else 0
                try:
                    if s.merge_if(t, n, env): return
                except Unsupported:
                    if s.ctx.acc is not None: del s.ctx.acc[la:]
                fr.cnt = cnt
                s.nomerge.add((id(n), s.ctx.acc is None))
        if s.ctx.branch(t): s.block(n.body, env)
        else: s.block(n.orelse, env)

    def merge_if(s, t, n, env):
        """both branches of an if inside a loop body merged into one state (guarded updates, if-then-else); False: not possible"""
        ctx = s.ctx; base = len(ctx.pc); mark = ctx.mark(); start = Serial.n; outs = []
        la = len(ctx.acc) if ctx.acc is not None else 0
        conds = (t, NOT(t))
        try:
            for c, body in zip(conds, (n.body, n.orelse)):
                def run():
                    ctx.cond(c)
                    s.block(body, env)
                got = []
                for kind, r in ctx.explore(run):
                    if kind == "raise": raise MergeFail()
                    cs, fs = ctx.split(base)
                    if len(cs) > 1: raise MergeFail()
                    new, own = {}, {}
                    for cell, old in ctx.trail[mark:]: (new if cell.serial <= start else own)[cell] = cell.v
                    got.append((new, own, fs))
                if len(got) != 1: raise MergeFail()
                outs.append(got[0])
            res = {}
            loc = [c for c in env.values() if isinstance(c, Cell) and any(c in o[1] for o in outs)]      # variables first assigned here: by both branches
            for new, own, _ in outs:
                for c in loc:
                    if c not in own: raise MergeFail()
                    new[c] = own.pop(c)
            for cell in list(outs[0][0]) + list(outs[1][0]):
                if cell in res: continue
                a, b = outs[0][0].get(cell, cell.v), outs[1][0].get(cell, cell.v)
                if isinstance(a, FMap) and isinstance(b, FMap) and isinstance(cell.v, FMap):
                    o = cell.v; k = len(o.ups)
                    if any(x.base is not o.base or len(x.ups) < k or any(p is not q for p, q in zip(x.ups, o.ups)) for x in (a, b)): raise MergeFail()
                    if any(not isz(u.val) and not isinstance(u.val, (int, float, bool)) for x in (a, b) for u in x.ups[k:]): raise MergeFail()
                    g = lambda u, c: Upd(u.bs, AND(c, u.guard), u.key, u.val, u.present, u.item, u.group)
                    res[cell] = FMap(o.base, o.ups + tuple(g(u, conds[0]) for u in a.ups[k:]) + tuple(g(u, conds[1]) for u in b.ups[k:]))
                elif all(isinstance(x, DynNum) or isnum(x) or isbool(x) or isnode(x) for x in (a, b)):
                    v = ite(t, a, b)
                    if isinstance(v, SUnion): raise MergeFail()
                    res[cell] = v
                else: raise MergeFail()
        except (MergeFail, ReturnEx, BreakEx, ContinueEx):
            if ctx.acc is not None: del ctx.acc[la:]
            return False
        for c, (new, own, fs) in zip(conds, outs):
            for cell, v in own.items(): ctx.set(cell, v)
            for f in fs: ctx.assume(z3.Implies(B(c), f))
        for cell, v in res.items(): ctx.set(cell, v)
        return True

    def ex_Try(s, n, env):
        if n.finalbody: raise Unsupported("finally")
        try:
            s.block(n.body, env)
        except PyRaise as e:
            for h in n.handlers:
                names = [h.type.id] if isinstance(h.type, ast.Name) else [x.id for x in h.type.elts if isinstance(x, ast.Name)] if isinstance(h.type, ast.Tuple) else ["Exception"]
                if h.type is None or any(x in EXC.get(e.kind, [e.kind, "Exception"]) for x in names):
                    s.block(h.body, env); return
            raise
        else: s.block(n.orelse, env)

    def ex_Assign(s, n, env):
        v = s.ev(n.value, env)
        for t in n.targets: s.assign(t, v, env)

    def ex_AnnAssign(s, n, env):
        if n.value is not None: s.assign(n.target, s.ev(n.value, env), env)

    def ex_AugAssign(s, n, env):
        t = n.target
        if isinstance(t, ast.Name):
            cur = s.name(t.id, env)
            s.bind(t, s.aug(n.op, cur, s.ev(n.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = s.ev(t.value, env); cur = s.getattr(o, t.attr)
            s.setattr(o, t.attr, s.aug(n.op, cur, s.ev(n.value, env)))
        elif isinstance(t, ast.Subscript):
            o, was = s.subbase(t.value, env); k = s.ev(t.slice, env)
            if was: s.itemread(o, k)
            cur = s.getitem(o, k)
            s.setitem(o, k, s.aug(n.op, cur, s.ev(n.value, env)))
        else: raise Unsupported("augmented assignment")

    def aug(s, op, cur, v):
        cur = s.force(cur)
        if isinstance(cur, LProb) and isinstance(op, ast.Add):
            from . import ext
            ext.prob_add(s, cur, v); return cur
        if isinstance(cur, SList) and isinstance(op, ast.Add):
            s.ctx.write(cur.c, None)
            s.ctx.set(cur.c, cur.c.v + tuple(s.parts(v))); s.writeback(cur); return cur
        return s.binop(op, cur, v)

    def ex_Delete(s, n, env): raise Unsupported("del")

    def assign(s, t, v, env):
        if isinstance(t, ast.Name): s.bind(t, v, env)
        elif isinstance(t, ast.Attribute): s.setattr(s.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Subscript) and s.setrow(t, v, env): return
            o, was = s.subbase(t.value, env); k = s.ev(t.slice, env)
            if was: s.itemread(o, k)
            s.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = s.force(v)
            if isinstance(v, SList):
                q = v.seq()
                if q is None or not isinstance(q[0], int): raise Unsupported("unpacking")
                v = tuple(q[1](i) for i in range(q[0]))
            if not isinstance(v, tuple) or len(v) != len(t.elts): raise Unsupported("unpacking %r" % (v,))
            for a, b in zip(t.elts, v): s.assign(a, b, env)
        else: raise Unsupported("assignment target")

    def setrow(s, t, v, env):
        """a[i][j] = v in a list of lists built row by row (no two rows are the same object): a functional update of a"""
        o = s.force(s.ev(t.value.value, env))
        if not isinstance(o, SList) or not getattr(o.c, "rows", None): return False
        if not s.shape(o.c.v, o.c.rows): raise Unsupported("list of lists of another shape")
        m, n = o.c.rows; q = o.seq()
        i, j = (s.index(s.force(s.ev(x.slice, env)), ln) for x, ln in ((t.value, n), (t, m)))
        s.ctx.read(o.c, None); s.ctx.write(o.c, None); at = q[1]
        s.ctx.set(o.c, (seqpart(n, lambda k: SList([seqpart(m, lambda l: ite(z3.And(k == i, l == j), v, s.cellat(at, k, l)))])),))
        return True

    def cellat(s, at, k, l): return at(k).seq()[1](l)

    def index(s, k, n):
        if not isz(k) and not isinstance(k, int) or isz(k) and k.sort() != z3.IntSort(): raise Unsupported("index")
        k = num(k)
        if s.ctx.branch(z3.And(k >= 0, k < num(n))): return k
        if s.ctx.branch(z3.And(k < 0, k >= -num(n))): return k + num(n)
        raise PyRaise("IndexError")

    def bind(s, t, v, env):
        if isinstance(t, ast.Name):
            if t.id not in env or not isinstance(env[t.id], Cell): env[t.id] = Cell(UNDEF, t.id)
            s.wr(env[t.id], v)
        else: s.assign(t, v, env)

    # ------------------------------------------------------------ loops
    def ex_For(s, n, env):
        coll = s.ev(n.iter, env)
        spec = s.loopspec(n, env)
        if spec is not None and spec(s, n, env, coll): 
            s.block(n.orelse, env); return
        for p in s.parts(coll):
            try:
                if not p.bs and p.guard is True:
                    s.bind(n.target, p.elem, env)
                    try: s.block(n.body, env)
                    except ContinueEx: pass
                else: s.summarise(p, n, env)
            except BreakEx: return
        s.block(n.orelse, env)

    def loopspec(s, n, env):
        f = env["__func__"]
        if f is None: return None
        return s.loopspecs.get(f.qual)

    def ex_While(s, n, env):
        spec = s.loopspec(n, env)
        if spec is not None and spec(s, n, env, None):
            s.block(n.orelse, env); return
        # bounded concrete loops only
        for _ in range(40):
            t = s.truth(s.ev(n.test, env))
            if not isinstance(t, bool):
                d = s.ctx.decide(t)
                if d is None and s.unroll: d = s.ctx.branch(t)      # refutation mode: runs of bounded length
                if d is None: raise Unsupported("while loop without an invariant")
                t = d
            if s.unroll and _ > s.unroll + 3: raise Infeasible()
            if not t: s.block(n.orelse, env); return
            try: s.block(n.body, env)
            except ContinueEx: pass
            except BreakEx: return
        raise Unsupported("while loop without an invariant")

    # ------------------------------------------------------------ loops with an invariant
    def oblig(s, name, goal):
        """an auxiliary obligation (invariant): proved, or the contract is undecided"""
        if s.dry: return      # only which cells an enclosing loop changes is being found out
        st = s.ctx.results.setdefault(name, dict(paths=0, proved=0, refuted=[], unknown=[]))
        st["paths"] += 1
        if goal is True: st["proved"] += 1; return
        fs = s.ctx.pc + [z3.Not(B(goal))]
        fs = fs + s.ctx.sum_axioms(fs)
        r, sv = s.ctx.check(fs)
        be = "z3"
        if r == z3.unknown:
            r, sv = s.ctx.cvc5(fs, sv); be = "cvc5"
        if r == z3.unsat or r == "unsat": st["proved"] += 1; s.ctx.backends[be] = s.ctx.backends.get(be, 0) + 1; return
        if getattr(s, "draft", None) is not None: st["paths"] -= 1; s.draft.append(name); return      # a trial round of an enclosing loop
        st["unknown"].append(dict(goal=str(goal)[:1500], why="auxiliary assertion not proved (%s)" % r, pc=[str(q)[:300] for q in s.ctx.pc][-8:]))
        raise Unsupported("%s not proved" % name)

    def modified(s, run, avoid=(), fix=None):
        """cells (existing before) written by run on any path, with sample values.  A map only written at one key that
        does not depend on the iteration (avoid) keeps that key in c.pts: nothing else in it changes"""
        ctx = s.ctx; mark = ctx.mark(); start = Serial.n; cells = {}; pts = {}
        key = None; memo = ctx.__dict__.setdefault("modmemo", {})
        if len(ctx.frames) == 1:      # the same loop reached again by the same path, re-run because of a later fork
            f = ctx.frames[0]; key = (tuple(f.dec[:f.pos]), f.cnt)
            if key in memo:
                rel, cnt, ser = memo[key]; got = {}
                for r, nm, smp, pt in rel:
                    c = Serial.reg.get(Serial.base + r)
                    if isinstance(c, SObj) and nm.startswith(c.name + "."): c = c.cell(nm[len(c.name) + 1:])
                    if not isinstance(c, Cell) or c.name != nm: got = None; break
                    got[c] = list(smp); c.pts = pt
                if got is not None: f.cnt = cnt; Serial.n = start + ser; return got
                Serial.n = start
        outer = ctx.acc; ctx.acc = None; s.dry += 1
        try:
            for rnd in range(4):
                k = len(cells)
                hv = s.havoc(cells) if cells else 0
                if cells and fix: fix(cells)
                m2 = ctx.mark()
                for kind, r in ctx.explore(run):
                    first = {}
                    for c, old in ctx.trail[m2:]:
                        if c.serial <= start:
                            cells.setdefault(c, []); first.setdefault(c, old)
                            if c.v is not UNDEF: cells[c].append(c.v)
                    for c, old in first.items():
                        if not (isinstance(old, FMap) and isinstance(c.v, FMap) and c.v.base is old.base and c.v.ups[:len(old.ups)] == old.ups): pts[c] = False; continue
                        for u in c.v.ups[len(old.ups):]:
                            ok = pts.get(c) is not False and not u.bs and not u.item and not u.group and u.present and (isnum(u.val) or isnode(u.val)) and not isbool(u.val) and not any(isz(x) and occurs(a, x) for x in u.key for a in avoid)
                            if ok and c in pts: ok = len(pts[c][0]) == len(u.key) and all(eq(x, y) is True for x, y in zip(pts[c][0], u.key))
                            if not ok: pts[c] = False
                            elif c not in pts: pts[c] = (u.key, u.val)
                            elif not (isinstance(u.val, int) or isz(u.val) and u.val.sort() == z3.IntSort()): pts[c] = (u.key, u.val)
                for c in cells: c.pts = pts.get(c) or None
                ctx.undo(mark)
                if len(cells) == k: break
        finally: ctx.undo(mark); ctx.acc = outer; s.dry -= 1
        plain = lambda x: x is None or isinstance(x, (bool, int, float, str)) or isz(x) or isinstance(x, tuple) and all(isinstance(p, Part) and plain(p.elem) or plain(p) for p in x)
        if key is not None and all(c.serial > Serial.base and plain(x) for c, xs in cells.items() for x in xs):
            memo[key] = ([(c.serial - Serial.base, c.name, list(xs), c.pts) for c, xs in cells.items()], ctx.frames[0].cnt, Serial.n - start)
        return cells

    def havoc(s, cells):
        ctx = s.ctx
        for c, samples in cells.items():
            v = c.v if c.v is not UNDEF else (samples[-1] if samples else UNDEF)
            ctx.write(c, None if not (isinstance(v, FMap) and c.pts) else c.pts[0])
            if isinstance(v, DynNum): v = v.term
            ex = [x for x in samples]
            if isinstance(v, FMap) and getattr(c, "pts", None):
                key, x = c.pts; srt = NodeS if isnode(x) else z3.IntSort() if isinstance(x, int) or isz(x) and x.sort() == z3.IntSort() else z3.RealSort()
                ctx.set(c, c.v.put(key, ctx.fresh("set", srt), guard=ctx.fresh("isset", z3.BoolSort())))
            elif isinstance(v, FMap): ctx.set(c, FMap(HavocBase(ex[-1] if ex else v, ctx)))
            elif isinstance(v, tuple) and getattr(c, "rows", None) and all(s.shape(x, c.rows) for x in ex + [v]):
                m, nn = c.rows; e = v[0].elem.c.v[0].elem
                srt = z3.BoolSort() if isbool(e) else z3.IntSort() if isinstance(e, int) or isz(e) and e.sort() == z3.IntSort() else z3.RealSort()
                f = fresh_fn(*([b.sort() for b in ctx.binders] + [z3.IntSort(), z3.IntSort(), srt])); bnd = list(ctx.binders)
                ctx.set(c, (seqpart(nn, lambda k: SList([seqpart(m, lambda l: f(*(bnd + [k, l])))])),))
            elif isinstance(v, tuple) and (not v or isinstance(v[0], Part)):
                el = next((p.elem for x in ex + [v] for p in x if not p.bs or True), None)
                ctx.set(c, s.havoc_parts(el))
            elif isnum(v) and not isbool(v):
                isint = all(isinstance(x, int) or (isz(x) and x.sort() == z3.IntSort()) for x in ex + [c.v] if x is not UNDEF)
                ctx.set(c, ctx.fresh(c.name, z3.IntSort() if isint else z3.RealSort()))
            elif isbool(v): ctx.set(c, ctx.fresh(c.name, z3.BoolSort()))
            elif isnode(v) or isinstance(v, str) and any(isnode(x) for x in ex): ctx.set(c, ctx.fresh(c.name, NodeS))
            else: ctx.set(c, Poison("value of %s after a loop" % c.name))

    def shape(s, x, rows):
        """a list of rows of the recorded shape, with numbers or truth values in it"""
        m, n = rows; same = lambda a, b: z3.is_true(z3.simplify(num(a) == num(b)))
        if not (isinstance(x, tuple) and len(x) == 1 and x[0].n is not None and same(x[0].n, n) and isinstance(x[0].elem, SList)): return False
        y = x[0].elem.c.v
        return len(y) == 1 and y[0].n is not None and same(y[0].n, m) and (isnum(y[0].elem) or isbool(y[0].elem))

    def havoc_parts(s, el):
        if el is None: return ()
        if isinstance(el, tuple) and el and all(isz(x) or isinstance(x, (str, int)) for x in el):
            n = s.ctx.fresh("len", z3.IntSort()); s.ctx.assume(n >= 0); bnd = list(s.ctx.binders)
            srt = [NodeS if isnode(x) or isinstance(x, str) else z3.IntSort() if isinstance(x, int) else x.sort() for x in el]
            fs = [fresh_fn(*([b.sort() for b in bnd] + [z3.IntSort(), q])) for q in srt]
            return (seqpart(n, lambda i: tuple(f(*(bnd + [i])) for f in fs)),)
        if isnode(el) or isinstance(el, str): sort = NodeS
        elif isnum(el): sort = z3.IntSort() if isinstance(el, int) or isz(el) and el.sort() == z3.IntSort() else z3.RealSort()
        else: return (Part([], True, Poison("elements of a list after a loop")),)
        n = s.ctx.fresh("len", z3.IntSort()); s.ctx.assume(n >= 0)
        f = fresh_fn(*([b.sort() for b in s.ctx.binders] + [z3.IntSort(), sort])); bnd = list(s.ctx.binders)
        return (seqpart(n, lambda i: f(*(bnd + [i]))),)

    def step_once(s, n, step, brk=None):
        """the induction step of a loop, once per path leading to it (paths are re-run from the start when they fork later)"""
        ctx = s.ctx; key = (id(n), tuple((f.ser, tuple(f.dec[:f.pos]), f.cnt) for f in ctx.frames)); memo = ctx.__dict__.setdefault("stepped", {})
        if key in memo:
            ctx.frames[-1].cnt += 1; Serial.n += memo[key][1]
            if brk is not None: brk += memo[key][0]
            return
        ser = Serial.n
        for kind, r in ctx.explore(step):
            if kind == "raise":
                rr, _ = ctx.check(ctx.pc, 3000)
                if rr != z3.unsat: raise Unsupported("exception %s in a loop with an invariant" % r.kind)
        memo[key] = (list(brk or ()), Serial.n - ser)

    def induct(s, n, env, coll, inv, label):
        """for loop over a sequence of symbolic length; inv(k, cells) holds before iteration k"""
        ctx = s.ctx
        sq = coll if isinstance(coll, SList) else SList(s.parts(coll))
        q = sq.seq()
        if q is None: raise Unsupported("invariant for a loop over an unordered collection")
        ln, at = q
        def body(k):
            s.bind(n.target, at(k), env)
            try: s.block(n.body, env)
            except ContinueEx: pass
        k0 = ctx.fresh("k", z3.IntSort())
        def dry():
            ctx.cond(z3.And(k0 >= 0, k0 < num(ln)))
            try: body(k0)
            except (BreakEx, ReturnEx): pass
        cells = s.modified(dry, [k0])
        if s.dry: s.havoc(cells); return True
        s.oblig(label + ": established", inv(z3.IntVal(0), cells))
        base = len(ctx.pc)
        def step():
            s.havoc(cells)
            ctx.cond(z3.And(k0 >= 0, k0 < num(ln)))
            f = inv(k0, cells)
            ctx.assume(B(f))
            try: body(k0)
            except (BreakEx, ReturnEx): raise Unsupported("early exit from a loop with an invariant")
            s.oblig(label + ": preserved", inv(z3.simplify(k0 + 1), cells))
        s.step_once(n, step)
        s.havoc(cells); ctx.taint = ctx.taint or "after a loop with an invariant"
        ctx.assume(B(inv(num(ln) if isz(ln) or isinstance(ln, int) else ln, cells)))
        return True

    def induct_any(s, n, env, coll, inv, label):
        """for loop over an unordered collection; inv(done, cells) with done(*element binders) the elements already visited"""
        ctx = s.ctx; ps = s.parts(coll)
        if len(ps) != 1 or not ps[0].bs: raise Unsupported("invariant for a loop over a composed collection")
        p = ps[0]
        k0 = [ctx.fresh("e", b.sort()) for b in p.bs]
        m = list(zip(p.bs, k0)); guard, elem = subst(p.guard, m), subst(p.elem, m)
        def body():
            s.bind(n.target, elem, env)
            try: s.block(n.body, env)
            except ContinueEx: pass
        def dry():
            ctx.cond(B(guard))
            try: body()
            except (BreakEx, ReturnEx): pass
        cells = s.modified(dry, k0)
        if s.dry: s.havoc(cells); return True
        s.oblig(label + ": established", inv(lambda *x: False, cells))
        D = fresh_fn(*([b.sort() for b in ctx.binders] + [b.sort() for b in p.bs] + [z3.BoolSort()])); bnd = list(ctx.binders)
        done = lambda *x: D(*(bnd + list(x)))
        def step():
            s.havoc(cells)
            ctx.cond(B(guard)); ctx.cond(z3.Not(done(*k0)))
            ctx.assume(B(inv(done, cells)))
            try: body()
            except (BreakEx, ReturnEx): raise Unsupported("early exit from a loop with an invariant")
            s.oblig(label + ": preserved", inv(lambda *x: OR(done(*x), AND(*[eq(a, b) for a, b in zip(x, k0)])), cells))
        s.step_once(n, step)
        s.havoc(cells); ctx.taint = ctx.taint or "after a loop with an invariant"
        ctx.assume(B(inv(lambda *x: subst(p.guard, list(zip(p.bs, x))), cells)))
        return True

    def induct_while(s, n, env, inv, label, fix=None):
        """while loop; inv(cells) holds whenever the test is evaluated.  Exits by break are explored from an arbitrary iteration"""
        ctx = s.ctx
        def dry():
            s.test(s.ev(n.test, env))
            try: s.block(n.body, env)
            except (ContinueEx, BreakEx, ReturnEx): pass
        cells = s.modified(dry, fix=fix)
        s.oblig(label + ": established", inv(cells))
        brk = []
        def step():
            s.havoc(cells)
            if fix: fix(cells)
            ctx.assume(B(inv(cells)))
            if not s.test(s.ev(n.test, env)): raise Infeasible()
            try: s.block(n.body, env)
            except ContinueEx: pass
            except BreakEx: brk.append(1); return
            except ReturnEx: raise Unsupported("return from a loop with an invariant")
            s.oblig(label + ": preserved", inv(cells))
        s.step_once(n, step, brk)
        # after the loop: the test failed in a state with the invariant, or the body broke out of it
        s.havoc(cells)
        if fix: fix(cells)
        ctx.assume(B(inv(cells))); ctx.taint = ctx.taint or "after a loop with an invariant"
        if brk and ctx.choose(2):
            sel = ctx.fresh("broke", z3.BoolSort()); ctx.cond(sel)
            if not s.test(s.ev(n.test, env)): raise Infeasible()
            try: s.block(n.body, env)
            except BreakEx: return True
            except ContinueEx: raise Infeasible()
            raise Infeasible()
        t = s.plain(n.test, env)
        if t is not None: ctx.assume(B(NOT(t))); s.feasible(); return True
        if s.test(s.ev(n.test, env)): raise Infeasible()
        return True

    def plain(s, n, env):
        """the truth value of an expression without side effects or exceptions, not forked; None: something else"""
        if isinstance(n, ast.BoolOp):
            ts = [s.plain(x, env) for x in n.values]
            if any(t is None for t in ts): return None
            return (AND if isinstance(n.op, ast.And) else OR)(*[B(t) for t in ts])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t = s.plain(n.operand, env); return None if t is None else NOT(B(t))
        if isinstance(n, ast.Name) and isinstance(env.get(n.id), Cell):
            v = env[n.id].v
            if v is None or isinstance(v, (bool, int)) or isz(v) and (z3.is_bool(v) or z3.is_arith(v)): return s.truth(s.ev(n, env))
        return None

    def runbody(s, p, n, env):
        ctx = s.ctx
        ctx.binders += list(p.bs); ctx.cond(p.guard)
        s.bind(n.target, p.elem, env)
        try: s.block(n.body, env); return ("next", None)
        except ContinueEx: return ("next", None)
        except BreakEx: return ("break", None)
        except ReturnEx as e: return ("return", e.v)

    def summarise(s, part, n, env):
        ctx = s.ctx
        p = part.fresh(); bs = list(p.bs)
        start = Serial.n; mark = ctx.mark(); base = len(ctx.pc)
        outer = ctx.acc; carry = {}; conflicted = set(); prefix = {}; final = False; groups = {}
        for rnd in range(7):
            # replace carried scalars by unknowns (counters by their value at this iteration); havoc conflicted maps
            for c in list(carry):
                ctx.set(c, carry[c])
            for c in prefix: ctx.set(c, prefix[c](bs[0]))
            paths = []; newcarry = False; lifts = []
            ctx.acc = []; up = getattr(s, "draft", None); s.draft = [] if not final else up
            try:
                for kind, r in ctx.explore(lambda: s.runbody(p, n, env)):
                    if kind == "raise": r = ("raise", r)
                    first = {}
                    for cell, old in ctx.trail[mark + len(carry) + len(prefix):]:
                        if cell not in first and cell.serial <= start: first[cell] = old
                    diffs = {}
                    for cell, old in first.items():
                        if old is UNDEF: diffs[cell] = (old, UNDEF); continue
                        diffs[cell] = (old, self_freeze(cell.v, start, old))
                    cs, fs = ctx.split(base); lifts.append((cs, fs))
                    paths.append((r[0], r[1] if r[0] != "return" else freeze(r[1], start), tuple(cs), diffs))
            finally:
                acc = ctx.acc; ctx.acc = outer; tried = s.draft; s.draft = up
                ctx.undo(mark)
            for kind, _, _, diffs in paths:
                for c, (old, new) in diffs.items():
                    if isinstance(c.v, FMap) or isinstance(c.v, tuple) and c.v and isinstance(c.v[0], Part) or isinstance(c.v, tuple) and not c.v or c.v is UNDEF: continue
                    if c in carry or c in prefix: continue
                    newcarry = True
                    v = c.v
                    if isinstance(v, DynNum): v = v.term
                    isint = lambda x: isinstance(x, int) and not isinstance(x, bool) or isz(x) and x.sort() == z3.IntSort()
                    if isnum(v): carry[c] = ctx.fresh("acc", z3.IntSort() if isint(v) and all(isint(d2[c][1]) for _, _, _, d2 in paths if c in d2) else z3.RealSort())
                    elif isbool(v): carry[c] = ctx.fresh("acc", z3.BoolSort())
                    else: carry[c] = Poison("loop-carried value %s" % c.name)
            if newcarry: continue
            if p.n is not None and s.counters(p, bs, paths, acc, carry, prefix): base = len(ctx.pc); continue
            if tried and not final: final = True; continue      # invariants failed: once more, for good
            npc = len(ctx.pc); ctx.lift(bs, lifts)
            if groups: paths = s.grouped(bs, paths, groups)
            bad = s.conflicts(bs, base, acc, carry, paths, conflicted | set(groups))
            if not bad: break
            for c in bad:
                if isinstance(c.v, FMap) and c not in carry and all(u.group or isinstance(u.val, SList) for _, _, _, d in paths if c in d for u in d[c][1].ups[len(d[c][0].ups):]):
                    gb = GroupBase(c.v, ctx); groups[c] = (gb, []); carry[c] = FMap(gb); newcarry = True; del ctx.pc[npc:]
                elif isinstance(c.v, FMap) and c not in carry:
                    conflicted.add(c); carry[c] = FMap(HavocBase(c.v, ctx)); newcarry = True
                    del ctx.pc[npc:]
                else: raise Unsupported("loop at line %s: iterations depend on each other through %s" % (n.lineno, c.name))
        else: raise Unsupported("loop summary did not converge")
        if outer is not None: outer.extend(acc)
        if conflicted: ctx.taint = ctx.taint or "iterations of the loop at line %s interact" % n.lineno
        # exits
        ex = {}
        for kind, val, g, d in paths:
            if kind != "next": ex.setdefault(kind if kind != "raise" else "raise " + val.kind, []).append(AND(*g))
        if not ex:
            s.apply(p, bs, p.guard, paths, carry, conflicted, n, prefix, None, groups)
            return
        allx = OR(*[g for gs in ex.values() for g in gs])
        k = ctx.choose(1 + len(ex))
        if k == 0:
            ctx.cond(forall(bs, B(NOT(allx)))); s.feasible()
            s.apply(p, bs, p.guard, paths, carry, conflicted, n, prefix, None, groups)
            return
        kind = list(ex)[k - 1]
        ctx.cond(exists(bs, B(OR(*ex[kind]))))
        w = [ctx.fresh("w", b.sort()) for b in bs]; m = list(zip(bs, w))
        ctx.assume(subst(B(OR(*ex[kind])), m))
        if p.n is not None:
            restrict = bs[0] < w[0]
        else:
            P = fresh_fn(*([b.sort() for b in ctx.binders + bs] + [z3.BoolSort()]))
            restrict = z3.And(P(*(ctx.binders + bs)), z3.Not(z3.And(*[b == x for b, x in zip(bs, w)])))
        ctx.assume(forall(bs, B(IMP(AND(p.guard, restrict), NOT(allx)))))
        s.feasible()
        if kind.startswith("raise"): raise PyRaise(kind.split(" ")[1])
        s.apply(p, bs, AND(p.guard, restrict), paths, carry, conflicted, n, prefix, w[0], groups)
        s.bind(n.target, subst(p.elem, m), env)
        s.block(n.body, env)      # leaves through break / return / raise
        raise Infeasible()

    def counters(s, p, bs, paths, acc, carry, prefix):
        """carried numbers that other values or keys depend on and that every iteration raises by a constant: their value
        at iteration k becomes a function of k"""
        ctx = s.ctx; hit = False
        nxt = [(AND(*g), d) for kind, _, g, d in paths if kind == "next"]
        for c, a in list(carry.items()):
            if not isz(a) or not z3.is_arith(a): continue
            used = any(cc is not c and mentions(new, old, a) for _, _, _, d in paths for cc, (old, new) in d.items()) or any(isz(x) and occurs(a, x) for kind, cell, key, pc, bnd in acc for x in (key or ()))
            if not used or any(occurs(x, g) for g, _ in nxt if isz(g) for x in accsym(carry)): continue
            dl = []
            for g, d in nxt:
                x = z3.simplify(num(d[c][1]) - a) if c in d and (isnum(d[c][1])) else z3.IntVal(0) if c not in d else None
                if x is None or not (z3.is_int_value(x) or z3.is_rational_value(x)): break
                dl.append((g, x))
            else:
                old = num(c.v) if a.sort() == z3.IntSort() else real(c.v)
                if not dl: continue
                if all(x.eq(dl[0][1]) for _, x in dl): f = (lambda old, x: lambda k: z3.simplify(old + x * (k if old.sort() == z3.IntSort() else z3.ToReal(k))))(old, dl[0][1])
                else:
                    P = fresh_fn(*([b.sort() for b in ctx.binders] + [z3.IntSort(), a.sort()])); bnd = list(ctx.binders)
                    f = (lambda P, bnd: lambda k: P(*(bnd + [k])))(P, bnd)
                    k = bs[0]; m = fresh_const(z3.IntSort(), "m"); inr = z3.And(k >= 0, k < num(p.n))
                    ctx.assume(f(z3.IntVal(0)) == old)
                    ctx.assume(forall(bs, B(IMP(inr, AND(*[IMP(g, f(k + 1) == f(k) + x) for g, x in dl])))))
                    if all(z3.is_true(z3.simplify(x >= 0)) for _, x in dl):      # by induction on the number of iterations
                        ctx.assume(forall(list(bs) + [m], B(IMP(AND(inr, m > k, m <= num(p.n)), AND(*[IMP(g, f(k) + x <= f(m)) for g, x in dl])))))
                prefix[c] = f; del carry[c]; hit = True
        return hit

    def grouped(s, bs, paths, groups):
        """maps in which every iteration appends to lists (created when absent): the elements appended, whatever the other
        iterations did before.  -> the paths without these maps, conditions on earlier iterations removed"""
        ctx = s.ctx; hs = [f for gb, _ in groups.values() for f in gb.f.values() if isinstance(f, z3.FuncDeclRef)] + [f.decl() for gb, _ in groups.values() for f in gb.f.values() if not isinstance(f, z3.FuncDeclRef)]
        true = lambda f: z3.substitute_funs(f, *[(h, z3.BoolVal(True)) for h in hs]) if hs else f
        def free(f, more=()):
            f = z3.simplify(B(f))
            if not hs: return f
            g = z3.simplify(true(f))
            if f.eq(g): return f
            if ctx.check(ctx.pc + list(more) + [f != g], 3000)[0] != z3.unsat: raise Unsupported("lists filled in a loop: condition depends on earlier iterations")
            return g
        for c, (gb, adds) in groups.items():
            del adds[:]; raw = []
            for kind, _, g, d in paths:
                if c not in d or kind != "next": continue
                old, new = d[c]
                if new.base is not old.base: raise Unsupported("map rewritten in a loop: %s" % c.name)
                for u in new.ups[len(old.ups):]:
                    cond = AND(*g, u.guard)
                    if u.group: raw.append((u.bs, cond, u.key, u.val)); continue
                    if u.item or not u.present or not isinstance(u.val, SList): raise Unsupported("map of lists rewritten in a loop")
                    ps = list(u.val.c.v); h = gb.has(u.key)
                    if ps and isinstance(ps[0].elem, Prior):
                        if not AND(*[eq(a, b) for a, b in zip(ps[0].elem.key, u.key)]) is True: raise Unsupported("list moved to another key")
                        ps = ps[1:]; want = h
                    else: want = NOT(h)
                    if ctx.check(ctx.pc + [B(cond), z3.Not(B(want))], 3000)[0] != z3.unsat: raise Unsupported("list replaced in a loop")
                    if not ps: raise Unsupported("empty list stored in a loop")
                    for q in ps:
                        if isinstance(q.elem, Prior): raise Unsupported("list copied in a loop")
                        raw.append((tuple(u.bs) + tuple(q.bs), AND(cond, q.guard), u.key, q.elem))
            for b, g, k, x in raw:
                for a in adds:
                    if len(a[0]) == len(b) and all(x1.eq(y1) for x1, y1 in zip(a[0], b)) and same(a[2], k) and same(a[3], x): a[1] = OR(a[1], g); break
                else: adds.append([b, g, k, x])
            for a in adds: a[1] = free(a[1])
        out = []
        for kind, v, g, d in paths:
            d = {c: x for c, x in d.items() if c not in groups}
            for o in out:
                if o[0] == kind and (o[1] is v or kind != "return" and getattr(o[1], "kind", None) == getattr(v, "kind", None)) and o[3].keys() == d.keys() and all(o[3][c][0] is d[c][0] and samediff(o[3][c][0], o[3][c][1], d[c][1]) for c in d): o[2].append(AND(*g)); break
            else: out.append((kind, v, [AND(*g)], d))
        return [(kind, v, (free(OR(*gs)),), d) for kind, v, gs, d in out]

    def apply(s, p, bs, guard, paths, carry, conflicted, n, prefix={}, upto=None, groups={}):
        ctx = s.ctx
        cells = []
        for c, (_, adds) in groups.items():
            for b, g, k, x in adds: ctx.set(c, FMap(c.v.base, c.v.ups + (Upd(tuple(bs) + tuple(b), z3.simplify(B(AND(guard, g))), k, x, True, False, True),)))
        for c, f in prefix.items(): ctx.set(c, f(num(p.n) if upto is None else upto))
        for kind, _, g, d in paths:
            for c in d:
                if c not in cells: cells.append(c)
        nxt = [(AND(*g), d) for kind, _, g, d in paths if kind == "next"]
        for c in cells:
            if c in prefix: continue
            if c in conflicted:
                ctx.set(c, FMap(PoisonBase("value after a loop whose iterations interact: %s" % c.name))); continue
            cur = c.v
            if isinstance(cur, FMap):
                for g, d in nxt:
                    if c not in d: continue
                    new = d[c][1]
                    if not isinstance(d[c][0], FMap) or new.base is not d[c][0].base: raise Unsupported("map rewritten in a loop: %s" % c.name)
                    k = len(cur.ups) if not hasattr(cur, "_len") else cur._len
                    for u in new.ups[len(d[c][0].ups):]:
                        cm = c.v
                        ctx.set(c, FMap(cm.base, cm.ups + (Upd(tuple(bs) + tuple(u.bs), z3.simplify(B(AND(guard, g, u.guard))), u.key, u.val, u.present, u.item, u.group),)))
            elif isinstance(cur, tuple):       # list parts / problem rows
                adds = []
                for g, d in nxt:
                    if c not in d: continue
                    old, new = d[c]
                    if len(new) < len(old) or any(a is not b and not samepart(a, b) for a, b in zip(old, new)): raise Unsupported("list rewritten in a loop")
                    for q in new[len(old):]: adds.append((g, q))
                if len(nxt) == 1 and len(adds) == 1 and p.n is not None and guard is p.guard and not adds[0][1].bs and adds[0][1].guard is True:
                    ctx.set(c, c.v + (Part(bs, guard, adds[0][1].elem, p.n),)); continue
                out = []
                for g, q in adds:
                    b2 = tuple(bs) + tuple(q.bs); gg = z3.simplify(B(AND(guard, g, q.guard)))
                    for o in out:
                        if len(o.bs) == len(b2) and all(x.eq(y) for x, y in zip(o.bs, b2)) and same(o.elem, q.elem): o.guard = z3.simplify(z3.Or(o.guard, gg)); break
                    else: out.append(Part(b2, gg, q.elem, None, p.uniq and q.uniq))
                ctx.set(c, c.v + tuple(out))
            else:
                s.reduce(c, p, bs, guard, nxt, carry, n)

    def reduce(s, c, p, bs, guard, nxt, carry, n):
        ctx = s.ctx
        old = c.v
        if old is UNDEF or c not in carry or isinstance(carry[c], Poison):
            ctx.set(c, Poison("value of %s after the loop at line %s" % (c.name, n.lineno))); return
        a = carry[c]
        writes = []; st = [(g, d[c][1]) for g, d in nxt if c in d]
        while st:      # merged branches are taken apart again
            g, v = st.pop(0)
            if isz(v) and z3.is_app(v) and ops_of(v) == z3.Z3_OP_ITE: st = [(AND(g, v.arg(0)), v.arg(1)), (AND(g, NOT(v.arg(0))), v.arg(2))] + st
            elif isz(v) and v.eq(a): pass
            elif isz(v) and z3.is_bool(v) and z3.is_or(v) and len(v.children()) == 2 and any(x.eq(a) for x in v.children()): writes.append((AND(g, next(x for x in v.children() if not x.eq(a))), True))
            else: writes.append((g, v))
        if not writes: return
        # accumulation
        try:
            deltas = []
            for g, v in writes:
                dv = z3.simplify(real(v) - real(a)) if isnum(v) or isinstance(v, DynNum) else None
                if dv is None or occurs(a, dv): raise Unsupported("")
                dv = cancel(v, a)
                for k, (g0, d0) in enumerate(deltas):      # the same addition on several branches
                    if isz(d0) and isz(dv) and z3.simplify(real(d0)).eq(z3.simplify(real(dv))): deltas[k] = (z3.simplify(B(OR(g0, g))), d0); break
                else: deltas.append((g, dv))
            tot = real(old)
            for g, dv in deltas:
                if not isinstance(g, bool) and not any(occurs(x, g) for x in accsym(carry)) and len(nxt) > 1:
                    r, _ = ctx.check(ctx.pc + [B(guard), z3.Not(g)], 1500)
                    if r == z3.unsat: g = True
                tot = tot + ctx.sum(bs, AND(guard, g), dv)
            ctx.set(c, tot if not (isinstance(old, int) and not deltas) else old); return
        except Unsupported: pass
        # assignment of one value
        if all(not (isz(v) and (occurs(a, v) or any(occurs(b, v) for b in bs))) and not isinstance(v, Poison) for g, v in writes) and writes and all(same(v, writes[0][1]) for g, v in writes):
            some = exists(bs, B(AND(guard, OR(*[g for g, _ in writes]))))
            ctx.set(c, ite(some, writes[0][1], old)); return
        if p.n is not None and len(writes) == len(nxt) and all(c in d for _, d in nxt) and all(not (isz(v) and occurs(a, v)) for _, v in writes) and len(writes) == 1:
            last = [(bs[0], num(sub(p.n, 1)))]
            ctx.set(c, ite(num(p.n) > 0, subst(writes[0][1], last), old)); return
        if all((isbool(v) or isnum(v)) and not (isz(v) and occurs(a, v)) for _, v in writes) and (isbool(old) or isnum(old)):
            # the value written by some iteration (which one is left open)
            f = ctx.fresh("last", a.sort()); w = lambda x: B(x) if isbool(x) else (num(x) if f.sort() == z3.IntSort() else real(x))
            some = exists(bs, B(AND(guard, OR(*[AND(g, f == w(v)) for g, v in writes]))))
            never = forall(bs, B(NOT(AND(guard, OR(*[g for g, _ in writes])))))
            ctx.assume(z3.Or(B(some), z3.And(B(never), f == w(old)))); ctx.taint = ctx.taint or "value of %s after the loop at line %s" % (c.name, n.lineno)
            ctx.set(c, f); return
        ctx.set(c, Poison("value of %s after the loop at line %s" % (c.name, n.lineno)))

    def conflicts(s, bs, base, acc, carry, paths, conflicted):
        ctx = s.ctx
        bad = []
        accs = {}
        for kind, cell, key, pc, bnd in acc: accs.setdefault(cell, []).append((kind, key, pc, bnd))
        written = set()
        for _, _, _, d in paths: written |= set(d)
        accsyms = [v for v in carry.values() if isz(v)]
        for kind, _, g, d in paths:
            for q in g:
                for a in accsyms:
                    if isz(q) and occurs(a, q): raise Unsupported("control flow depends on a loop-carried value")
            for c, (old, new) in d.items():
                for cc, a in carry.items():
                    if isz(a) and cc is not c and mentions(new, old, a): raise Unsupported("value depends on a loop-carried value")
        for cell in written:
            if cell in conflicted: continue
            v = cell.v
            if v is UNDEF: continue
            if not isinstance(v, FMap):
                if isinstance(v, tuple) and any(k == "r" for k, _, _, _ in accs.get(cell, [])):
                    if any(k == "r" for k, key, pc, bnd in accs[cell]): bad.append(cell)
                continue
            ws = [x for x in accs.get(cell, []) if x[0] == "w"]; rs = [x for x in accs.get(cell, []) if x[0] == "r"]
            hit = False
            for (_, kw, pw, bw) in ws:
                inner = [b for b in bw if not any(b.eq(x) for x in ctx.binders)]
                m = [(b, fresh_const(b.sort(), "o")) for b in inner]
                for b in bs:
                    if not any(b.eq(x[0]) for x in m): m.append((b, fresh_const(b.sort(), "o")))
                gw = [subst(B(q), m) for q in pw[base:]]
                differ = z3.Or(*[b != subst(b, m) for b in bs])
                for (_, kr, pr, br) in rs:
                    if kr is None or kw is None:
                        eqs = True
                    else: eqs = AND(*[eq(x, subst(y, m)) for x, y in zip(kr, kw)])      # a prefix stands for the whole list stored there
                    if eqs is False: continue
                    r, _ = ctx.check(ctx.pc + list(pr[base:]) + gw + [differ, B(eqs)], 2500, retry=(11, 23))
                    if r != z3.unsat: hit = True; break
                if hit: break
            if not hit and self_ww(ctx, bs, base, cell, paths): hit = True
            if hit: bad.append(cell)
        return bad


def accsym(carry): return [v for v in carry.values() if isz(v)]


def self_ww(ctx, bs, base, cell, paths):
    """write-write conflicts: two iterations may write the same key with different values"""
    ups = []
    for kind, _, g, d in paths:
        if cell in d and kind == "next":
            old, new = d[cell]
            for u in new.ups[len(old.ups):]: ups.append((g, u))
    for g1, u1 in ups:
        for g2, u2 in ups:
            m = [(b, fresh_const(b.sort(), "o")) for b in list(bs) + list(u2.bs)]
            k = AND(*[eq(x, subst(y, m)) for x, y in zip(u1.key, u2.key)])
            if k is False: continue
            differ = z3.Or(*[b != subst(b, m[:len(bs)]) for b in bs])
            fs = ctx.pc + [B(q) for q in g1] + [subst(B(q), m) for q in g2] + [B(u1.guard), subst(B(u2.guard), m), differ, B(k)]
            if u1.present == u2.present:
                if not u1.present: continue
                v2 = subst(u2.val, m)
                if same(u1.val, v2): continue
                if isz(u1.val) and isz(v2) and u1.val.sort() == v2.sort(): fs.append(u1.val != v2)
                elif isinstance(u1.val, (SList,)) and isinstance(v2, SList): pass
            r, _ = ctx.check(fs, 2500, retry=(11, 23))
            if r != z3.unsat: return True
    return False


class HavocBase:
    """unknown content (of the same kind) of a map written by other iterations"""
    def __init__(s, old, ctx): s.old, s.ctx, s.f, s.bnd = old, ctx, {}, list(ctx.binders)
    def _fn(s, key, sort, tag):
        ks = [k for k in key if isz(k)]
        sig = (tag, tuple(k.sort().name() for k in ks), sort.name())
        if sig not in s.f: s.f[sig] = fresh_fn(*([b.sort() for b in s.bnd] + [k.sort() for k in ks] + [sort])) if s.bnd or ks else fresh_const(sort, "hv")
        f = s.f[sig]
        return f(*(list(s.bnd) + ks)) if s.bnd or ks else f
    def subst(s, m, memo):
        r = HavocBase(s.old, s.ctx); r.f = s.f; r.bnd = [subst(b, m) for b in s.bnd]
        return r
    def has(s, key): return s._fn(tuple(strnode(k) if isinstance(k, str) else z3.IntVal(k) if isinstance(k, int) else k for k in key), z3.BoolSort(), "has")
    def get(s, key):
        key = tuple(strnode(k) if isinstance(k, str) else z3.IntVal(k) if isinstance(k, int) else k for k in key)
        v = None
        for u in s.old.ups:
            v = u.val
        if v is None: v = s.old.base.get(key)
        if isinstance(v, bool): return s._fn(key, z3.BoolSort(), "val")
        if isinstance(v, (int, float)): return s._fn(key, z3.RealSort(), "val")
        if isz(v): return s._fn(key, v.sort() if v.sort() != z3.IntSort() else z3.RealSort(), "val")
        if isinstance(v, SList): return SList([seqpart(0, lambda i: Poison("unknown list"))])
        raise Unsupported("unknown value")


class Prior(Poison):
    """what earlier iterations appended to a list"""
    def __init__(s, key): s.key, s.why = key, "list filled by other iterations"


class GroupBase(HavocBase):
    """unknown lists filled by earlier iterations"""
    def get(s, key):
        b = fresh_const(z3.IntSort(), "prior")
        return SList([Part([b], z3.Function("prior", z3.IntSort(), z3.BoolSort())(b), Prior(key))])
    def subst(s, m, memo):
        r = GroupBase(s.old, s.ctx); r.f = s.f; r.bnd = [subst(b, m) for b in s.bnd]
        return r


def samediff(old, a, b):
    if isinstance(a, FMap) and isinstance(b, FMap):
        return a.base is b.base and len(a.ups) == len(b.ups) and all(x is y or len(x.bs) == len(y.bs) and all(p.eq(q) for p, q in zip(x.bs, y.bs)) and same(B(x.guard), B(y.guard)) and same(x.key, y.key) and same(x.val, y.val) and (x.present, x.item, x.group) == (y.present, y.item, y.group) for x, y in zip(a.ups, b.ups))
    if isinstance(a, tuple) and isinstance(b, tuple) and a and isinstance(a[0], Part): return len(a) == len(b) and all(isinstance(y, Part) and samepart(x, y) for x, y in zip(a, b))
    return same(a, b)


class PoisonBase:
    def __init__(s, why): s.why = why
    def has(s, key): raise Unsupported(s.why)
    def get(s, key): raise Unsupported(s.why)


def cancel(v, a):
    """v - a, structurally when v = a + e"""
    v = real(v); a2 = real(a)
    if ops_of(v) == z3.Z3_OP_ADD:
        ch = v.children()
        for i, c in enumerate(ch):
            if c.eq(a2):
                r = ch[:i] + ch[i + 1:]
                return r[0] if len(r) == 1 else z3.Sum(r)
            if ops_of(c) == z3.Z3_OP_ADD and not any(occurs(a, x) for j, x in enumerate(ch) if j != i):
                inner = cancel(c, a); return z3.Sum([inner] + ch[:i] + ch[i + 1:])
            if ops_of(c) == z3.Z3_OP_TO_REAL and occurs(a, c):
                return z3.simplify(v - a2)
    if ops_of(v) == z3.Z3_OP_SUB and ops_of(v.arg(0)) is not None and occurs(a, v.arg(0)):
        return cancel(v.arg(0), a) - z3.Sum(v.children()[1:])
    return z3.simplify(v - a2)


def same(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b): return False
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, LVar) and isinstance(b, LVar): return a.tpl == b.tpl and same(a.key, b.key)
    if isinstance(a, (SGraph,)) and isinstance(b, SGraph): return same(a.ids, b.ids) and (a.st is b.st or a.st.unchanged(b.st))
    if isinstance(a, (int, float, str, bool, type(None))): return type(a) is type(b) and a == b
    if isinstance(a, RowVar) and isinstance(b, RowVar): return a.tpl == b.tpl and same(a.key, b.key) and a.sense == b.sense and same(a.rhs, b.rhs)
    if type(a).__name__ == type(b).__name__ == "VDecl": return same(a.var, b.var) and same(a.low, b.low) and same(a.up, b.up) and a.cat == b.cat and same(a.e, b.e)
    if isinstance(a, OpaqueStr) and isinstance(b, OpaqueStr): return same(tuple(a.args), tuple(b.args))
    if isinstance(a, Constr) and isinstance(b, Constr): return a.sense == b.sense and samelin(a.l, b.l)
    if isinstance(a, Lin) and isinstance(b, Lin): return samelin(a, b)
    if isinstance(a, SList) and isinstance(b, SList): return len(a.c.v) == len(b.c.v) and all(samepart(x, y) for x, y in zip(a.c.v, b.c.v))
    return False


def samelin(a, b):
    return len(a.terms) == len(b.terms) and same(real(a.const), real(b.const)) and all(len(x.bs) == len(y.bs) and all(p.eq(q) for p, q in zip(x.bs, y.bs)) and same(B(x.guard), B(y.guard)) and same(x.elem, y.elem) for x, y in zip(a.terms, b.terms))


def samepart(a, b): return len(a.bs) == len(b.bs) and all(x.eq(y) for x, y in zip(a.bs, b.bs)) and same(B(a.guard), B(b.guard)) and same(a.elem, b.elem)


def mentions(new, old, a):
    if isz(new): return occurs(a, new)
    if isinstance(new, FMap): return any(mentions(u.val, None, a) or any(mentions(k, None, a) for k in u.key) or mentions(u.guard, None, a) for u in new.ups[len(old.ups) if old is not None else 0:])
    if isinstance(new, tuple): return any(mentions(x, None, a) for x in (new[len(old):] if isinstance(old, tuple) else new))
    if isinstance(new, Part): return mentions(new.elem, None, a) or mentions(new.guard, None, a)
    if isinstance(new, Lin): return any(mentions(t, None, a) for t in new.terms) or mentions(new.const, None, a)
    if isinstance(new, Constr): return mentions(new.l, None, a)
    if isinstance(new, (LVar, RowVar)): return mentions(new.key, None, a)
    if isinstance(new, SList): return mentions(new.c.v, None, a)
    return False


def self_freeze(v, start, old=None):
    if isinstance(v, FMap):
        return FMap(v.base, [Upd(u.bs, u.guard, u.key, freeze(u.val, start) if not (u.val is None or isz(u.val)) else u.val, u.present, u.item, u.group) for u in v.ups])
    if isinstance(v, tuple) and v and isinstance(v[0], Part):
        old = old if isinstance(old, tuple) else ()
        return tuple(q if n < len(old) and q is old[n] else Part(q.bs, q.guard, freeze(q.elem, start), q.n, q.uniq) if not isz(q.elem) else q for n, q in enumerate(v))
    if v is UNDEF or isinstance(v, (Poison, LambdaRef, ExtRef, FuncRef, Func, Cls, Interp.Bag, Interp.Range, VarDict)): return v
    try: return freeze(v, start)
    except Unsupported: return Poison("value not kept across a loop")


def owner_is_value(v): return True
