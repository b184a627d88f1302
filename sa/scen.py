"""Scenarios: small client programs against the public API, written in Python and interpreted abstractly (never executed).

Each function of a scenario text is an entry point; parameter annotations (strings) describe the symbolic arguments:
  num    a finite real number that is not None (zero allowed)      int / str / bool / none
  arr    a numpy array          df / series  labelled input        any  anything, caller-owned
  kind^u2h-1  the quantity scales with degree 2 in unit u and -1 in unit h          kind+ / kind-  its values are >= 0 / <= 0
  df@X   labelled input whose labels are in an order X of its own (likewise cov; sq: a covariance whose columns may follow another order than its rows; series, dict, wdf: weights of several portfolios, pser: by scenario, sser: by portfolio)
  pvec@F / pmat@F   a quantity per portfolio of frontier F / the weights, asset by portfolio (plain arrays)
"""
import ast, re
from .values import *
from .project import Mod, PKG, Func
from . import drive

FILE = "<scenario>"


def load(P, text, name="_scenario"):
    """add the scenario text as a module next to the package's own; returns {function name: Func}"""
    full = PKG + "." + name
    m = Mod(full, P.repo + "/" + FILE, ast.parse(text, FILE), text)
    P.mods[full] = m
    return m.funcs


def arg(n, kind):
    kind = kind or "any"
    m = re.match(r"^([\w@]+)(?:\^([a-z0-9.\-]+))?([+-])?$", kind)
    if m and (m.group(2) or m.group(3)):
        v = arg(n, m.group(1))
        if m.group(2):
            v = v.but(deg={"$" + u: Fraction(d) for u, d in re.findall(r"([a-z])(-?[0-9.]+)", m.group(2))})
        return v.but(sign=m.group(3) or v.sign)
    if "@" in kind:         # labelled input with its own label order
        t, o = kind.split("@")
        reg = frozenset([("in", n)])
        if t in ("pvec", "pmat"):
            return src(n, ty="ndarray", reg=reg, ax=frozenset(["port:" + o] + ["asset:" + o] * (t == "pmat")), tags=frozenset(["nonempty"]))
        ax = {"df": ("scen", "asset"), "cov": ("asset",), "sq": ("asset",), "series": ("asset",), "dict": ("asset",), "wdf": ("asset", "port"), "pser": ("scen",), "sser": ("port",)}[t]
        ty = {"df": "DataFrame", "cov": "DataFrame", "sq": "DataFrame", "wdf": "DataFrame", "dict": "dict"}.get(t, "Series")
        return src(n, ty=ty, reg=reg, ax=frozenset("%s:%s" % (a, o) for a in ax), tags=frozenset(["nonempty"]) | (frozenset([("cols", "asset:%s/columns" % o)]) if t == "sq" else frozenset()))
    if kind == "num":
        return src(n, ty=("float", "int"))
    if kind == "pos":
        return src(n, ty=("float", "int"), sign="+")
    if kind in ("int", "str", "bool"):
        return src(n, ty=kind)
    if kind == "none":
        return NONE
    reg = frozenset([("in", n)])
    if kind == "arr":
        return src(n, ty="ndarray", reg=reg)
    if kind == "df":
        return src(n, ty="DataFrame", reg=reg)
    if kind == "series":
        return src(n, ty="Series", reg=reg)
    if kind == "idx":
        return src(n, ty="int")
    if kind == "fn":
        return src(n, ty="callable", reg=reg)
    return src(n, reg=reg, nty=frozenset(["None"]))


def make(f, custom=None):
    """argument builder for run_entry"""
    def mk(st, I):
        kw = {}
        for a, d, k in drive.params(f):
            kind = a.annotation.value if isinstance(a.annotation, ast.Constant) else (ast.unparse(a.annotation) if a.annotation is not None else None)
            kw[a.arg] = custom(a.arg, kind, st) if custom and custom(a.arg, kind, st) is not None else arg(a.arg, kind)
        return None, [], kw
    return mk
