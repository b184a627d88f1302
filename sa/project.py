"""Loads the analysed package's source into a symbol table (no code of the package is executed)."""
import ast, os, hashlib

REPO = os.environ.get("VP_REPO", "/repo")
PKG = "pyvallocation"


class AnalysisBroken(Exception):
    """An anchor the analysis depends on is gone, or nothing was analysed: never a silent pass."""


class Func:
    def __hash__(self):
        return hash(self.full)

    def __init__(self, node, mod, cls=None, outer=None):
        self.node, self.mod, self.cls, self.outer = node, mod, cls, outer
        name = getattr(node, "name", "<lambda>")
        self.name = name
        pre = (cls.name + ".") if cls else ((outer.qual + ".") if outer else "")
        self.qual = pre + name
        self.full = mod.short + ":" + self.qual
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        self.decos = [deco_name(d) for d in getattr(node, "decorator_list", [])]

    def __repr__(self):
        return "<F %s>" % self.full


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return ast.unparse(d)


def walk_own(node):
    """Nodes of a function body, nested function/lambda/class bodies excluded."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Cls:
    def __hash__(self):
        return hash((self.name, self.mod.name))

    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.methods, self.attrs, self.fields = {}, {}, []
        self.decos = [deco_name(d) for d in node.decorator_list]
        self.is_dataclass = any(d.split(".")[-1] == "dataclass" for d in self.decos)
        self.frozen = any(isinstance(d, ast.Call) and any(k.arg == "frozen" and getattr(k.value, "value", None) is True for k in d.keywords) for d in node.decorator_list)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = Func(s, mod, self)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields.append((s.target.id, s.annotation, s.value))
                if s.value is not None:
                    self.attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(s.value, ast.Name) and s.value.id in self.methods:
                            self.methods[t.id] = self.methods[s.value.id]
                        else:
                            self.attrs[t.id] = s.value
        self.bases = node.bases

    def __repr__(self):
        return "<C %s>" % self.name


class Mod:
    def __hash__(self):
        return hash(self.name)

    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.short = name[len(PKG) + 1:] if name != PKG else "__init__"
        self.is_pkg = path.endswith("__init__.py")
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self._scan(tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(s, self)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                self.imports.update(import_bindings(s, self))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.assigns[s.target.id] = s.value
            elif isinstance(s, ast.If):
                self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    pass
                self._scan(s.orelse)
            elif isinstance(s, ast.With):
                self._scan(s.body)


def import_bindings(s, mod):
    out = {}
    if isinstance(s, ast.Import):
        for a in s.names:
            if a.asname:
                out[a.asname] = a.name
            else:
                out[a.name.split(".")[0]] = a.name.split(".")[0]
    else:
        if s.level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts)
            if s.module:
                base += "." + s.module
        else:
            base = s.module
        for a in s.names:
            out[a.asname or a.name] = base + "." + a.name
    return out


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("package directory %s missing" % root)
        self.mods = {}
        h = hashlib.sha256()
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                src = open(p, encoding="utf-8").read()
                h.update(rel.encode() + b"\0" + src.encode())
                self.mods[rel] = Mod(rel, p, ast.parse(src, p), src)
        self.digest = h.hexdigest()

    def mod(self, short):
        m = self.mods.get(PKG + "." + short if short != "__init__" else PKG)
        if m is None:
            raise AnalysisBroken("module %s vanished" % short)
        return m

    def resolve(self, dotted, depth=0):
        """dotted name -> ('func',Func)|('cls',Cls)|('mod',Mod)|('assign',Mod,name)|('lib',str)"""
        if depth > 12:
            return ("lib", dotted)
        if dotted in self.mods:
            return ("mod", self.mods[dotted])
        if not (dotted == PKG or dotted.startswith(PKG + ".")):
            return ("lib", dotted)
        base, _, name = dotted.rpartition(".")
        r = self.resolve(base, depth + 1) if base else None
        if r and r[0] == "mod":
            return self.lookup(r[1], name, depth + 1) or ("lib", dotted)
        if r and r[0] == "cls":
            c = r[1]
            f = self.find_method(c, name)
            if f:
                return ("func", f)
        return ("lib", dotted)

    def lookup(self, mod, name, depth=0):
        if name in mod.funcs:
            return ("func", mod.funcs[name])
        if name in mod.classes:
            return ("cls", mod.classes[name])
        if name in mod.assigns:
            v = mod.assigns[name]
            if isinstance(v, (ast.Name, ast.Attribute)):
                d = ast.unparse(v)
                if isinstance(v, ast.Name) and v.id != name:
                    r = self.lookup(mod, v.id, depth + 1)
                    if r and r[0] in ("func", "cls"):
                        return r
            return ("assign", mod, name)
        if name in mod.imports:
            return self.resolve(mod.imports[name], depth + 1)
        sub = mod.name + "." + name
        if sub in self.mods:
            return ("mod", self.mods[sub])
        return None

    def mro(self, c):
        out, seen = [], set()

        def rec(k):
            if id(k) in seen:
                return
            seen.add(id(k))
            out.append(k)
            for b in k.bases:
                r = None
                if isinstance(b, ast.Name):
                    r = self.lookup(k.mod, b.id)
                elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                    q = self.lookup(k.mod, b.value.id)
                    if q and q[0] == "mod":
                        r = self.lookup(q[1], b.attr)
                if r and r[0] == "cls":
                    rec(r[1])
        rec(c)
        return out

    def base_names(self, c):
        """all (transitive) base class simple names, library ones included"""
        out = set()
        for k in self.mro(c):
            out.add(k.name)
            for b in k.bases:
                out.add(ast.unparse(b).split(".")[-1])
        return out

    def find_method(self, c, name, after=None):
        ms = self.mro(c)
        if after is not None and after in ms:
            ms = ms[ms.index(after) + 1:]
        for k in ms:
            if name in k.methods:
                return k.methods[name]
        return None

    def dc_fields(self, c):
        out = {}
        for k in reversed(self.mro(c)):
            if k.is_dataclass:
                for n, a, v in k.fields:
                    if isinstance(a, ast.Subscript) and ast.unparse(a.value).endswith("ClassVar"):
                        continue
                    out[n] = (n, a, v, k)
        return list(out.values())

    def all_funcs(self):
        for m in self.mods.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                seen = set()
                for f in c.methods.values():
                    if id(f) not in seen:
                        seen.add(id(f))
                        yield f

    def public(self):
        """names exported by the package __init__ (its __all__, else every imported public name)"""
        init = self.mods[PKG]
        names = []
        if "__all__" in init.assigns and isinstance(init.assigns["__all__"], (ast.List, ast.Tuple)):
            names = [e.value for e in init.assigns["__all__"].elts if isinstance(e, ast.Constant)]
        else:
            names = [n for n in init.imports if not n.startswith("_")]
        out = {}
        for n in names:
            r = self.lookup(init, n)
            if r:
                out[n] = r
        return out
