"""Entry points: which functions a user can call, and abstract arguments for them."""
import ast
from .values import *
from .values import _EMPTY
from .project import Func, Cls
from .interp import Interp, State, Budget

ANYOBJ = frozenset()


def entries(P):
    """every public callable: (label, Func, Cls or None). Public methods of public classes included (inherited ones resolved on the class)."""
    out = []
    seen = set()
    for n, r in sorted(P.public().items()):
        if r[0] == "func":
            out.append((n, r[1], None))
        elif r[0] == "cls":
            c = r[1]
            names = set()
            for k in P.mro(c):
                for m in k.methods:
                    if m in names or (m.startswith("_") and m not in ("__init__", "__post_init__")):
                        continue
                    names.add(m)
                    f = P.find_method(c, m)
                    out.append((c.name + "." + m, f, c))
    return out


def module_public(P):
    """module-level public functions/classes not re-exported at the top level"""
    top = {id(r[1]) for r in P.public().values() if r[0] in ("func", "cls")}
    out = []
    for m in P.mods.values():
        for n, f in sorted(m.funcs.items()):
            if not n.startswith("_") and id(f) not in top:
                out.append((m.short + "." + n, f, None))
        for n, c in sorted(m.classes.items()):
            if n.startswith("_") or id(c) in top:
                continue
            names = set()
            for k in P.mro(c):
                for mm in k.methods:
                    if mm in names or (mm.startswith("_") and mm not in ("__init__", "__post_init__")):
                        continue
                    names.add(mm)
                    out.append((m.short + "." + n + "." + mm, P.find_method(c, mm), c))
    return out


def generic(name, **kw):
    """caller-owned value of any type"""
    return src(name, reg=frozenset([("in", name)]), **kw)


def self_obj(P, cls, st, tag="self"):
    """an instance with every attribute of unknown content, held in ("self", ".attr") regions"""
    attrs = {}
    for n, a, d, k in P.dc_fields(cls):
        attrs[n] = generic_attr(n)
    for k in P.mro(cls):
        for f in k.methods.values():
            a = f.node.args.posonlyargs + f.node.args.args
            if not a:
                continue
            sn = a[0].arg
            for x in ast.walk(f.node):
                tg = []
                if isinstance(x, ast.Assign):
                    tg = x.targets
                elif isinstance(x, (ast.AnnAssign, ast.AugAssign)):
                    tg = [x.target]
                st2 = list(tg)
                while st2:
                    t = st2.pop()
                    if isinstance(t, (ast.Tuple, ast.List)):
                        st2.extend(t.elts)
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == sn:
                        attrs.setdefault(t.attr, generic_attr(t.attr))
    rid = ("self", tag)
    st.heap[rid] = Obj("obj", attrs=attrs, cls=cls, nonempty=True)
    return V(ty=frozenset(["obj"]), reg=frozenset([rid]), vid=vn("self", cls.name))


def generic_attr(n):
    return src("self." + n, reg=frozenset([("self", "." + n)]))


def is_method(f, c):
    return c is not None and "staticmethod" not in f.decos


SCALAR = {"float": ("float", "int"), "int": ("int",), "str": ("str",), "bool": ("bool",), "None": ("None",)}


def ann_types(a, default):
    """types of a parameter whose annotation (or default) says it is a plain scalar, else None"""
    out = set()

    def rec(n):
        if isinstance(n, ast.Constant) and n.value is None:
            out.add("None")
            return True
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            try:
                return rec(ast.parse(n.value, mode="eval").body)
            except SyntaxError:
                return False
        if isinstance(n, ast.Name) and n.id in SCALAR:
            out.update(SCALAR[n.id])
            return True
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            return rec(n.left) and rec(n.right)
        if isinstance(n, ast.Subscript):
            b = ast.unparse(n.value).split(".")[-1]
            if b == "Optional":
                out.add("None")
                return rec(n.slice)
            if b == "Union":
                return all(rec(x) for x in (n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]))
            if b == "Literal":
                for x in (n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]):
                    out.add(tyname(getattr(x, "value", None)))
                return True
        return False
    if a.annotation is not None:
        return frozenset(out) if rec(a.annotation) and out else None
    if isinstance(default, ast.Constant) and default.value is not None and type(default.value) in (bool, int, float, str):
        return frozenset(["float", "int"]) if type(default.value) in (int, float) else frozenset([tyname(default.value)])
    return None


def params(f):
    """[(arg node, default or None, kind)]"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    ds = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    return [(x, d, "pos") for x, d in zip(pos, ds)] + [(x, d, "kw") for x, d in zip(a.kwonlyargs, a.kw_defaults)]


def gargs(f, c=None, st=None, P=None):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    kwonly = [x.arg for x in a.kwonlyargs]
    sv = None
    if c is not None and "staticmethod" not in f.decos:
        names = names[1:]
        if "classmethod" in f.decos:
            sv = V(ty=frozenset(["callable"]), fn=frozenset([("cls", c)]), vid=vn("c", c.name))
        else:
            sv = self_obj(P, c, st)
            if f.name in ("__init__",):
                r = next(iter(sv.reg))
                st.heap[r] = st.heap[r].but(attrs={})
    tys = {x.arg: ann_types(x, d) for x, d, _ in params(f)}
    kw = {}
    for n in names + kwonly:
        t = tys.get(n)
        kw[n] = src(n, ty=t) if t else generic(n)
    args = []
    if a.vararg:
        args = [kw.pop(n) for n in names]
        args.append(("*", V(ty=frozenset(["tuple"]), elem=generic(a.vararg.arg), may=frozenset([a.vararg.arg]))))
    return sv, args, kw
