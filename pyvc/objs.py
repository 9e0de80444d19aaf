"""pyvc objects: lists, dicts, graphs, instances, linear programs."""
import z3
from .core import *
from .core import _u


class UNDEF: pass


class SObj:
    def __init__(s, cls, name="obj"): s.cls, s.attrs, s.name = cls, {}, name; s.serial = Serial.next(); Serial.reg[s.serial] = s

    def cell(s, a):
        if a not in s.attrs: s.attrs[a] = Cell(UNDEF, s.name + "." + a); s.attrs[a].serial = s.serial     # as old as the object
        return s.attrs[a]

    def subst(s, m, memo):
        r = SObj(s.cls, s.name); memo[id(s)] = (s, r); r.partial = getattr(s, "partial", False)
        for k, c in s.attrs.items(): r.attrs[k] = Cell(subst(c.v, m, memo) if c.v is not UNDEF else UNDEF, c.name)
        r.frozen = True
        return r


class SList:
    """python list/tuple-like: ordered parts.  origin: where to write back after a mutation"""
    def __init__(s, parts=(), name="list"): s.c = Cell(tuple(parts), name); s.origin = None; s.serial = Serial.next()

    @staticmethod
    def of(*vals): return SList([Part([], True, v) for v in vals])

    def subst(s, m, memo):
        r = SList([p.subst(m, memo) for p in s.c.v]); memo[id(s)] = (s, r)
        return r

    def seq(s):
        """(length, fn index -> element) if the list has no unordered parts"""
        n = 0; segs = []
        for p in s.c.v:
            if not p.bs and (p.guard is True): segs.append((n, 1, lambda i, p=p: p.elem)); n = add(n, 1)
            elif p.n is not None: segs.append((n, p.n, lambda i, p=p: subst(p.elem, [(p.bs[0], num(i))]))); n = add(n, p.n)
            else: return None
        def at(i):
            if len(segs) == 1: return segs[0][2](sub(i, segs[0][0]))
            r = None
            for st, ln, f in reversed(segs):
                v = f(sub(i, st))
                r = v if r is None else ite(lt(i, add(st, ln)), v, r)
            return r
        return n, at

    def items_updated(s, u, key, ctx):
        q = s.seq()
        if q is None: raise Unsupported("element of a filtered list")
        n, at = q
        def el(i):
            c, v = match(u, tuple(key) + (i,))
            if c is False: return at(i)
            if type(v).__name__ == "Choice": raise Unsupported("undetermined instance of a bulk update")
            return ite(c, v, at(i))
        return SList([seqpart(n, el)])

    def merge(s, c, o):
        a, b = s.seq(), o.seq()
        if a is None or b is None or s.c.v == () and o.c.v != () : return None
        if s is o: return s
        try:
            n = ite(c, a[0], b[0])
            if isinstance(n, int) and n <= 4: return SList([Part([], True, ite(c, a[1](i), b[1](i))) for i in range(n)])
            return SList([seqpart(n, lambda i: ite(c, a[1](i), b[1](i)))])
        except Unsupported: return None


class NArr(SList):
    """numpy vector: indexing as a list, no arithmetic"""
    def subst(s, m, memo):
        r = NArr([p.subst(m, memo) for p in s.c.v]); memo[id(s)] = (s, r)
        return r


def add(a, b): return a + b if isinstance(a, int) and isinstance(b, int) else z3.simplify(num(a) + num(b))
def sub(a, b): return a - b if isinstance(a, int) and isinstance(b, int) else z3.simplify(num(a) - num(b))
def lt(a, b): return a < b if isinstance(a, int) and isinstance(b, int) else num(a) < num(b)


def ctor(k): return k.sort().kind() == z3.Z3_DATATYPE_SORT and k.sort().num_constructors() == 1 and k.decl().eq(k.sort().constructor(0))


class SDict:
    def __init__(s, fmap=None, sort=None, name="dict"): s.c = Cell(fmap or FMap(EmptyBase()), name); s.sort = sort; s.origin = None; s.serial = Serial.next()

    def subst(s, m, memo):
        r = SDict(None, s.sort); memo[id(s)] = (s, r)
        r.c.v = s.c.v.subst(m, memo)
        return r

    def keyparts(s):
        f = s.c.v
        if isinstance(f.base, EmptyBase) and all(not u.bs and u.guard is True and all(not isz(k) for k in u.key) for u in f.ups):
            ks = []
            for u in f.ups:
                k = u.key
                if u.present and k not in ks: ks.append(k)
                if not u.present and k in ks: ks.remove(k)
            return [Part([], True, k[0] if len(k) == 1 else k) for k in ks]
        if isinstance(f.base, EmptyBase) and len(f.ups) == 1 and f.ups[0].present and not f.ups[0].item and not f.ups[0].group and all(isz(k) for k in f.ups[0].key):
            u = f.ups[0]; seen = [a for k in u.key for a in ([k] if not ctor(k) else k.children())]
            if all(any(a.eq(b) for a in seen) for b in u.bs):       # distinct instances have distinct keys
                p = Part(u.bs, u.guard, u.key[0] if len(u.key) == 1 else u.key, None, True)
                return [p.fresh()]
        kinds = [list(s.sort)] if s.sort is not None else []
        if s.sort is None:       # one part for each kind of key
            for u in f.ups:
                if u.item or not u.present: continue
                if not all(isz(k) or isinstance(k, (int, str)) for k in u.key): raise Unsupported("iteration over a dict with unknown keys")
                q = [k.sort() if isz(k) else NodeS if isinstance(k, str) else z3.IntSort() for k in u.key]
                if not any(len(x) == len(q) and all(i == j for i, j in zip(x, q)) for x in kinds): kinds.append(q)
        if not kinds: raise Unsupported("iteration over a dict with unknown keys")
        out = []
        for q in kinds:
            bs = [fresh_const(x, "k") for x in q]
            out.append(Part(bs, f.has(tuple(bs)), bs[0] if len(bs) == 1 else tuple(bs), None, True))
        return out

    def merge(s, c, o):
        if s is o or s.c is o.c: return s
        return None


def sameups(a, b):
    def sm(x, y):
        if x is y: return True
        if isz(x) and isz(y): return x.eq(y)
        if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all(sm(p, q) for p, q in zip(x, y))
        return isinstance(x, (int, float, str, bool)) and type(x) is type(y) and x == y
    return (a.base is b.base or isinstance(a.base, EmptyBase) and isinstance(b.base, EmptyBase)) and len(a.ups) == len(b.ups) and all(sm((u.bs, u.guard, u.key, u.val), (v.bs, v.guard, v.key, v.val)) for u, v in zip(a.ups, b.ups))


class GStore:
    """storage of one graph (no id) or of a family of graphs (keys start with the id)"""
    n = 0
    def __init__(s, name, symbolic, idsorts=()):
        s.name, s.symbolic, s.idsorts = name, symbolic, tuple(idsorts)
        ids = list(idsorts)
        if symbolic:
            fn = z3.Function("N_" + name, *(ids + [NodeS, z3.BoolSort()])); fe = z3.Function("E_" + name, *(ids + [NodeS, NodeS, z3.BoolSort()]))
            s.N = Cell(FMap(FnBase(lambda *k: fn(*k), lambda *k: True)), name + ".N")
            s.E = Cell(FMap(FnBase(lambda *k: fe(*k), lambda *k: True)), name + ".E")
            s.fN, s.fE = fn, fe
        else:
            s.N = Cell(FMap(EmptyBase()), name + ".N"); s.E = Cell(FMap(EmptyBase()), name + ".E")
        s.na, s.ea, s.ga = {}, {}, {}; s.serial = s.N.serial; s.root = s

    def attr(s, which, a):
        d = getattr(s, which)
        if a not in d:
            if s.symbolic:
                ks = list(s.idsorts) + {"na": [NodeS], "ea": [NodeS, NodeS], "ga": []}[which]
                if ks:
                    h = z3.Function("has_%s_%s_%s" % (s.name, which, a), *(ks + [z3.BoolSort()]))
                    has = lambda *k: h(*k)
                else:
                    hc = z3.Bool("has_%s_%s_%s" % (s.name, which, a)); has = lambda *k: hc
                d[a] = Cell(FMap(FnBase(has, lambda *k: _u("attribute %s not declared" % a))), s.name + "." + a)
            else: d[a] = Cell(FMap(EmptyBase()), s.name + "." + a)
            d[a].serial = s.serial        # as old as the graph: a write in a loop to an attribute nobody read before counts
        return d[a]

    def unchanged(s, o):
        """s and o are copies of one graph (made by substitutions) and equal"""
        return s.root is o.root and all(s_.keys() == o_.keys() for s_, o_ in ((s.na, o.na), (s.ea, o.ea), (s.ga, o.ga))) and sameups(s.N.v, o.N.v) and sameups(s.E.v, o.E.v) and all(sameups(getattr(s, n)[a].v, c.v) for n in ("na", "ea", "ga") for a, c in getattr(o, n).items())

    def declare(s, which, a, get, has=True):
        s_has = has if callable(has) else (lambda *k: has)
        getattr(s, which)[a] = Cell(FMap(FnBase(s_has, get)), s.name + "." + a)


class SGraph:
    def __init__(s, store, ids=()): s.st, s.ids = store, tuple(ids); s.serial = Serial.next()

    def merge(s, c, o):
        if s.st is o.st and len(s.ids) == len(o.ids): return SGraph(s.st, tuple(ite(c, a, b) for a, b in zip(s.ids, o.ids)))
        return None

    def subst(s, m, memo):
        if s.st.idsorts or s.st.symbolic: r = SGraph(s.st, tuple(subst(i, m) for i in s.ids)); return r
        if id(s.st) in memo: st = memo[id(s.st)][1]
        else:
            st = GStore(s.st.name, False); memo[id(s.st)] = (s.st, st)
            for n in ("N", "E"): getattr(st, n).v = getattr(s.st, n).v.subst(m, memo)
            for n in ("na", "ea", "ga"):
                for a, c in getattr(s.st, n).items(): getattr(st, n)[a] = Cell(c.v.subst(m, memo), c.name)
            st.root = s.st.root
        r = SGraph(st); memo[id(s)] = (s, r)
        return r

    def hasN(s, v): return s.st.N.v.has(s.ids + (scal(v),))
    def hasE(s, u, v): return s.st.E.v.has(s.ids + (scal(u), scal(v)))


class NodesView:
    def __init__(s, g): s.g = g
class EdgesView:
    def __init__(s, g, data=False): s.g, s.data = g, data
class AttrView:
    """G.nodes[v], G.edges[u,v], G.graph"""
    def __init__(s, g, which, key): s.g, s.which, s.key = g, which, tuple(key)
    def subst(s, m, memo): return AttrView(subst(s.g, m, memo), s.which, tuple(subst(k, m) for k in s.key))
class AdjView:
    def __init__(s, g, u): s.g, s.u = g, u


# ---------------------------------------------------------------- linear programs
class LVar:
    """LP variable: name template + format arguments"""
    def __init__(s, tpl, key): s.tpl, s.key = tpl, tuple(key)
    def subst(s, m, memo=None): return LVar(s.tpl, tuple(subst(k, m) for k in s.key))
    def merge(s, c, o): return LVar(s.tpl, tuple(ite(c, a, b) for a, b in zip(s.key, o.key))) if s.tpl == o.tpl and len(s.key) == len(o.key) else None


class RowVar:
    """LpConstraintVar"""
    def __init__(s, tpl, key, sense, rhs): s.tpl, s.key, s.sense, s.rhs = tpl, tuple(key), sense, rhs
    def subst(s, m, memo=None): return RowVar(s.tpl, tuple(subst(k, m) for k in s.key), s.sense, subst(s.rhs, m))
    def merge(s, c, o): return RowVar(s.tpl, tuple(ite(c, a, b) for a, b in zip(s.key, o.key)), s.sense, ite(c, s.rhs, o.rhs)) if s.tpl == o.tpl and s.sense == o.sense and s.rhs is not None and o.rhs is not None else None


class VarDict:
    """LpVariable.dicts(name, indices)"""
    def __init__(s, tpl, dom, depth, prefix=()): s.tpl, s.dom, s.depth, s.prefix = tpl, dom, depth, tuple(prefix)
    def subst(s, m, memo=None): return VarDict(s.tpl, s.dom, s.depth, tuple(subst(k, m) for k in s.prefix))


class Lin:
    """linear expression: parts (bs, guard, coef, var) and a constant"""
    def __init__(s, terms=(), const=0): s.terms, s.const = tuple(terms), const
    def subst(s, m, memo=None):
        return Lin([Part(t.bs, subst(t.guard, m), (subst(t.elem[0], m), t.elem[1].subst(m)), None) for t in s.terms], subst(s.const, m))


def lin(x):
    if isinstance(x, Lin): return x
    if isinstance(x, (LVar, RowVar)): return Lin([Part([], True, (z3.RealVal(1), x))])
    if isnum(x) or isbool(x) or isinstance(x, DynNum): return Lin((), real(x))
    raise Unsupported("linear expression from %r" % (x,))


def lin_add(a, b): return Lin(a.terms + b.terms, real(a.const) + real(b.const))
def lin_scale(a, k): return Lin([Part(t.bs, t.guard, (real(k) * real(t.elem[0]), t.elem[1]), None) for t in a.terms], real(k) * real(a.const))


class Constr:
    """lin (LE|EQ) 0"""
    def __init__(s, l, sense, name=None): s.l, s.sense, s.name = l, sense, name
    def subst(s, m, memo=None): return Constr(s.l.subst(m), s.sense, s.name)


class LProb:
    def __init__(s, name="prob"):
        s.rows = Cell((), name + ".rows"); s.obj = Cell(None, name + ".objective"); s.entries = None; s.name = name
        s.solved = Cell(None, name + ".solved"); s.sense = Cell({}, name + ".sense"); s.frozen = False
