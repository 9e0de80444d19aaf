"""Loads the current source of /repo/vrpy as ASTs: classes, functions, imports."""
import ast, os

ROOT = os.environ.get("VP_REPO", "/repo")


class Func:
    def __init__(s, mod, node, cls=None):
        s.mod, s.node, s.cls, s.name = mod, node, cls, node.name
        s.prop = any(isinstance(d, ast.Name) and d.id == "property" for d in node.decorator_list)
        s.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)
        s.qual = mod.name + "." + (cls.name + "." if cls else "") + node.name


class Cls:
    def __init__(s, mod, node):
        s.mod, s.node, s.name = mod, node, node.name
        s.funcs = {n.name: Func(mod, n, s) for n in node.body if isinstance(n, ast.FunctionDef)}
        s.consts = {}
        for n in node.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): s.consts[n.targets[0].id] = n.value
        s.qual = mod.name + "." + node.name

    def bases(s):
        out = []
        for b in s.node.bases:
            if isinstance(b, ast.Name):
                r = s.mod.lookup(b.id)
                if isinstance(r, Cls): out.append(r)
        return out

    def find(s, name):
        if name in s.funcs: return s.funcs[name]
        for b in s.bases():
            r = b.find(name)
            if r: return r
        return None


class Mod:
    def __init__(s, repo, name):
        s.repo, s.name = repo, name
        s.path = os.path.join(ROOT, "vrpy", name + ".py")
        s.src = open(s.path).read()
        s.tree = ast.parse(s.src)
        s.defs, s.imports, s.consts = {}, {}, {}
        for n in s.tree.body:
            if isinstance(n, ast.FunctionDef): s.defs[n.name] = Func(s, n)
            elif isinstance(n, ast.ClassDef): s.defs[n.name] = Cls(s, n)
            elif isinstance(n, ast.Import):
                for a in n.names: s.imports[(a.asname or a.name).split(".")[0]] = ("mod", a.name)
            elif isinstance(n, ast.ImportFrom):
                m = ("vrpy." + n.module if n.level else n.module) if n.module else "vrpy"
                for a in n.names: s.imports[a.asname or a.name] = ("from", m, a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): s.consts[n.targets[0].id] = n.value

    def lookup(s, name):
        if name in s.defs: return s.defs[name]
        if name in s.imports:
            i = s.imports[name]
            if i[0] == "from" and i[1].startswith("vrpy"):
                sub = i[1].split(".")[1] if "." in i[1] else None
                if sub: return s.repo.mod(sub).lookup(i[2])
                try: return ("repomod", s.repo.mod(i[2]))
                except OSError: return None
            if i[0] == "mod": return ("ext", i[1])
            return ("ext", i[1] + "." + i[2])
        if name in s.consts: return ("const", s.consts[name])
        return None


class Repo:
    def __init__(s): s.mods = {}
    def mod(s, name):
        if name not in s.mods: s.mods[name] = Mod(s, name)
        return s.mods[name]

    def func(s, qual):
        """'vrp.VehicleRoutingProblem._lock' -> Func or None"""
        p = qual.split(".")
        try: m = s.mod(p[0])
        except OSError: return None
        d = m.defs.get(p[1])
        if len(p) == 2: return d
        return d.find(p[2]) if isinstance(d, Cls) else None
