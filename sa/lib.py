"""Transfer functions for builtins, numpy, pandas, scipy, cvxopt and logging."""
import ast
from fractions import Fraction
from .values import *
from .values import _EMPTY

F = frozenset
ARR = F(["ndarray"])
NN = F(["None"])
RNG_OK = "numpy.random.default_rng"

ALIASES = {"np": "numpy", "pd": "pandas"}


def canon(name):
    for p, q in (("numpy.core.", "numpy."), ("pandas.core.frame.", "pandas."), ("pandas.core.series.", "pandas.")):
        if name.startswith(p):
            name = q + name[len(p):]
    return name


# ------------------------------------------------------------------ generic helpers
def flat(I, s, vs):
    return [I.N(v, s) for v in vs if isinstance(v, V)]


def deps(I, s, vs):
    may, must = _EMPTY, _EMPTY
    for v in vs:
        if not isinstance(v, V):
            continue
        a, b = I.deep(v, s)
        may |= a
        must |= b
        if v.attrs and "slice" in v.attrs:
            may |= v.may
            must |= v.must
    return may, must


def degtop(vs):
    o = {}
    for v in vs:
        for k, d in v.deg.items():
            o[k] = "T" if d else o.get(k, d)
    return o


def poltop(vs, I=None):
    if I is not None and I.opts.get("valueflow"):      # selections and tests pick values without being part of them
        return {}
    o = {}
    for v in vs:
        for k in v.pol:
            o[k] = "?"
    return o


def unknown(I, s, vs, name="?"):
    ns = flat(I, s, vs)
    may, must = deps(I, s, vs)
    ax = F().union(*[v.ax for v in ns]) if ns else _EMPTY
    return V(may=may, must=must, deg=degtop(ns), pol=poltop(ns), ax=ax, vid=vn("call", name, *[v.vid for v in vs if isinstance(v, V)]))


# label tags of a single element: ("item", L) a label taken in order L, ("pos", A, L) the position in order A of the label taken in order L;
# the value belonging to a label taken in order L has ax=L, so lists and arrays filled label by label get the order of the loop
def ltag(v, kind):
    for t in v.tags:
        if type(t) is tuple and t[0] == kind:
            return t
    return None


def orderof(x):
    """the order in which a loop meets the element x, when known"""
    t = ltag(x, "item")
    return t[1] if t else (x.ax if len(cls_of(x.ax)) == 1 else _EMPTY)


def labof(I, s, v):
    if v is None:
        return _EMPTY
    if v.lab or v.is_("str"):
        return v.lab
    if v.seq is None and (v.elem is not None or I.objs(s, v)):
        t = ltag(I.elem_of(v, s), "item")
        if t:
            return t[1]
    return v.lab


def permof(I, s, k):
    t = ltag(k, "pos")
    if t is None and k.seq is None and k.reg:
        t = ltag(I.N(k, s), "pos")
    return t


def cls_of(l):
    return {x.split(":")[0] for x in l}


def apply_perm(I, s, ax, t, op):
    """the positions t=("pos", A, L) select from something ordered by ax: A must be its order; the selection is ordered by L"""
    for c in cls_of(t[1]):
        a = {x for x in ax if x.startswith(c + ":")}
        b = {x for x in t[1] if x.startswith(c + ":")}
        if not a:
            continue
        if not (a & b) and not aligned(s, a, b):
            I.emit("misalign", cls=c, a=tuple(sorted(a)), b=tuple(sorted(b)), op=op)
        ax = F(x for x in ax if not x.startswith(c + ":")) | F(x for x in t[2] if x.startswith(c + ":") or x.startswith("pick:"))
    return ax


def derived(lab, how):
    """a new order obtained from lab by a data-dependent rearrangement"""
    return F("%s#%s" % (x.split("#")[0], how) for x in lab)


def axmix(I, s, vs, op="op"):
    """combine the label orders of positionally combined operands; report incompatible orders"""
    axs = [v.ax for v in vs if v.ax]
    if not axs:
        return _EMPTY
    pandas_pair = len(vs) == 2 and all(v.ty is not None and v.ty <= {"Series", "DataFrame"} for v in vs)
    if pandas_pair and op in ("Add", "Sub", "Mult", "Div"):
        return axs[0]
    for i in range(len(axs)):
        for j in range(i + 1, len(axs)):
            for c in ("asset", "scen", "port"):
                a = {x for x in axs[i] if x.startswith(c + ":")}
                b = {x for x in axs[j] if x.startswith(c + ":")}
                if a and b:
                    I.emit("alignchk")
                if a and b and not (a & b) and not aligned(s, a, b):
                    I.emit("misalign", cls=c, a=tuple(sorted(a)), b=tuple(sorted(b)), op=op)
    return F().union(*axs)


def aligned(s, a, b):
    comp = set(a)
    chg = True
    pairs = [f[1] for f in s.facts if f[0] == "eqlab"]
    while chg:
        chg = False
        for x, y in pairs:
            if (set(x) & comp) and not set(y) <= comp:
                comp |= set(y)
                chg = True
            if (set(y) & comp) and not set(x) <= comp:
                comp |= set(x)
                chg = True
    return bool(comp & set(b))


def num(I, s, vs, name, sign=None, pol=None, deg=None, ty=None, reg=_EMPTY, tags=_EMPTY, ax=None, nty=NN, cond=None, vid=None, seq=None):
    may, must = deps(I, s, vs)
    ns = flat(I, s, vs)
    if pol is None:
        pol = poltop(ns)
    if deg is None:
        deg = degtop(ns)
    if ax is None:
        ax = F().union(*[v.ax for v in ns]) if ns else _EMPTY
    return V(ty=ty, nty=nty if ty is None else _EMPTY, may=may, must=must, sign=sign, pol=pol, deg=deg, reg=reg, tags=tags, ax=ax, cond=cond,
             vid=vid if vid is not None else vn(name, *[v.vid for v in vs if isinstance(v, V)]), seq=seq)


def scalar(v):
    return v.ty is not None and v.ty <= {"int", "float", "bool", "str", "None"}


# ------------------------------------------------------------------ operators
def colorder(v):
    """the order of the columns of a square table whose rows may follow another one"""
    return [t[1] for t in v.tags if type(t) is tuple and t[0] == "cols"]


def square(I, v):
    for c in colorder(v):
        I.emit("square", cols=c, rows=v.ax)


def labcmp(I, a, b):
    """two label collections are compared or combined as sets (whatever their order)"""
    if a.lab and b.lab:
        I.labchk.add((F(x.split("#")[0] for x in a.lab), F(x.split("#")[0] for x in b.lab)))


def blocks(I, v, s):
    """values of the consecutive runs of a list put together from repeated values"""
    for t in v.tags:
        if type(t) is tuple and t[0] == "blk":
            return t[1]
    it = I.known_items(v, s)
    return tuple(x.vid for x in it) if it is not None else (I.elem_of(v, s).vid,)


def blocked(I, v, bs):
    return v.but(tags=v.tags | {("blk", bs)}) if I.opts.get("sites") else v


def binop(I, s, op, a, b, node=None):
    if op in ("Sub", "BitAnd", "BitOr", "BitXor"):
        labcmp(I, a, b)
    ca, cb = a.one(), b.one()
    if ca is not None and cb is not None:
        try:
            x, y = ca[0], cb[0]
            if all(isinstance(z, (int, float, str, bool)) for z in (x, y)):
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y if not (isinstance(x, str) or isinstance(y, str)) else None, "Div": lambda: x / y,
                     "FloorDiv": lambda: x // y, "Mod": lambda: x % y if not isinstance(x, str) else None, "Pow": lambda: x ** y if abs(y) < 50 else None}.get(op, lambda: None)()
                if r is not None and not isinstance(r, complex):
                    return K(r).but(tags=F(["tiny"])) if op == "Mult" and r and (tiny(a) or tiny(b)) else K(r)
        except Exception:
            pass
    if op == "Add" and (a.is_("list") or b.is_("list")) and (a.ty is not None and b.ty is not None):
        ia, ib = I.known_items(a, s), I.known_items(b, s)
        if ia is not None and ib is not None:
            return I.new_list(s, ia + ib, node or I.site_node)
        na, nb = I.N(a, s), I.N(b, s)
        ea, eb = I.elem_of(a, s), I.elem_of(b, s)
        e = eb if I.definitely_empty(a, s) else (ea if I.definitely_empty(b, s) else join(ea, eb))
        return blocked(I, I.new_list(s, None, node or I.site_node, e, I.nonempty(a, s) or I.nonempty(b, s), na.must | nb.must), blocks(I, a, s) + blocks(I, b, s))
    if op == "Add" and a.is_("tuple") and b.is_("tuple") and a.seq is not None and b.seq is not None:
        return V(ty=F(["tuple"]), seq=a.seq + b.seq, vid=vn("tup+", a.vid, b.vid))
    if op == "Mult" and (a.is_("list") or b.is_("list")):
        l, k = (a, b) if a.is_("list") else (b, a)
        items = I.known_items(l, s)
        if items is not None and k.one() and isinstance(k.one()[0], int) and k.one()[0] <= 8:
            return I.new_list(s, items * k.one()[0], node or I.site_node)
        n = I.N(l, s)
        return blocked(I, I.new_list(s, None, node or I.site_node, I.elem_of(l, s), I.nonempty(l, s), n.must), (I.elem_of(l, s).vid,))
    if op in ("BitOr",) and (a.ty is not None and a.ty <= {"set", "dict"}):
        return unknown(I, s, [a, b], "setor").but(ty=a.ty, reg=_EMPTY)
    if op == "Mod" and a.ty is not None and a.ty <= {"str"}:
        return V(ty=F(["str"]), may=a.may | b.may)
    x, y = I.N(a, s), I.N(b, s)
    may, must = x.may | y.may, x.must | y.must
    ax = axmix(I, s, [x, y], op)
    if scalar(a) and scalar(b):
        ty = F(["str"]) if op == "Add" and (a.is_("str") or b.is_("str")) else F(["float"]) if (op == "Div" or not (a.is_("int") and b.is_("int"))) else F(["int"])
    elif a.ty is not None and a.ty & {"DataFrame"} and len(a.ty) == 1 and op != "MatMult":
        ty = a.ty
    elif b.ty is not None and b.is_("DataFrame") and op != "MatMult":
        ty = b.ty
    elif (a.is_("Series") or b.is_("Series")) and op != "MatMult" and (a.ty is not None and b.ty is not None):
        ty = F(["Series"])
    elif a.is_("ndarray") and b.is_("ndarray") and op != "MatMult" or (a.is_("ndarray") and scalar(b)) or (b.is_("ndarray") and scalar(a)):
        ty = ARR
    else:
        ty = None
    kw = dict(ty=ty, nty=NN if ty is None else _EMPTY, may=may, must=must, ax=ax)
    commut = op in ("Add", "Mult")
    vid = vn(op, *sorted((x.vid, y.vid))) if commut else vn(op, x.vid, y.vid)
    # identities that keep the value number
    if op in ("Mult",) and cb == (1,) or op == "Mult" and cb == (1.0,):
        vid = x.vid
    cond = None
    if op == "BitAnd":
        cs = tuple(c for c in (x.cond, y.cond) if c)
        cond = ("and", cs) if cs else None
        return V(vid=vid, cond=cond, **kw)
    if op == "BitOr":
        cs = tuple(c for c in (x.cond, y.cond) if c)
        cond = ("or", cs) if cs else None
        return V(vid=vid, cond=cond, **kw)
    if op in ("Add", "Sub"):
        if op == "Sub":
            y2 = y.but(sign=s_neg(y.sign), pol=pol_neg(y.pol))
        else:
            y2 = y
        unitmix(I, s, x, y, op)
        if (tiny(x) or tiny(y)) and (tiny(x) or is_zero(x)) and (tiny(y) or is_zero(y)):
            kw["tags"] = F(["tiny"])
        # 1 - p etc: keep sign unknown
        return V(sign=s_add(x.sign, y2.sign), pol=pol_add(x.pol, y2.pol), deg=deg_same(x, y2), vid=vid, **kw)
    if op in ("Mult", "MatMult"):
        sg = s_mul(x.sign, y.sign)
        if op == "Mult" and x.vid == y.vid and x.vid:
            sg = "+"
        if (tiny(x) and not any(y.deg.values())) or (tiny(y) and not any(x.deg.values())):
            kw["tags"] = F(["tiny"])
        return V(sign=sg, pol=pol_mul(x, y), deg=deg_mul(x.deg, y.deg), vid=vid, **kw)
    if op in ("Div",):
        return V(sign=s_mul(x.sign, y.sign), pol=pol_div(x, y), deg=deg_mul(x.deg, y.deg, -1), vid=vid, **kw)
    if op == "FloorDiv":
        return V(sign=s_mul(x.sign, y.sign), pol=pol_div(x, y), deg=deg_top(deg_mul(x.deg, y.deg, -1)), vid=vid, **kw)
    if op == "Pow":
        e = y.one()
        if e is not None and isinstance(e[0], (int, float)):
            fr = Fraction(e[0]).limit_denominator(64)
            even = fr.denominator == 1 and fr.numerator % 2 == 0
            sg = "+" if even else x.sign if fr > 0 else (x.sign if x.sign != "0" else None)
            if fr.denominator != 1:
                sg = "+"
            if x.sign == "+":
                pol = x.pol if fr > 0 else pol_neg(x.pol)
            elif even:
                pol = {k: "?" for k in x.pol} if x.sign != "-" else pol_neg(x.pol)
            else:
                pol = x.pol if fr > 0 else poltop([x])
            return V(sign=sg, pol=pol, deg=deg_pow(x.deg, fr), vid=vid, **kw)
        deg = degtop([x, y])
        if I.opts.get("expunit") and x.one() is not None and e is None:
            deg = {**deg, "$s": Fraction(1)}
        return V(sign="+" if x.sign == "+" else None, pol=poltop([x, y]), deg=deg, vid=vid, **kw)
    return V(pol=poltop([x, y]), deg=degtop([x, y]), vid=vid, **kw)


def infinite(v):
    c = v.one()
    return c is not None and isinstance(c[0], float) and c[0] in (float("inf"), float("-inf"))


def negligible(v, op):
    """tolerances: a comparison or floor is a matter of rounding only below 1e-7"""
    c = v.one()
    if op not in ("Add", "Sub") and c is not None and isinstance(c[0], (int, float)):
        return abs(c[0]) <= 1e-7
    return tiny(v)


def unitmix(I, s, x, y, op):
    """quantities of different known degrees are added or compared"""
    us = I.opts.get("units")
    if not us or any(is_zero(v) or infinite(v) or v.one() in ((0,), (None,)) for v in (x, y)):
        return
    neg = negligible(x, op) or negligible(y, op)
    for u, users in us.items():
        if neg and (u != "$m" or op in ("Add", "Sub")):     # amounts of money have no natural size
            continue
        d = []
        for v in (x, y):
            k = v.deg.get(u, Fraction(0) if u in v.deg or not v.may & users else None)
            d.append(k)
        if None in d or "T" in d or d[0] == d[1]:
            continue
        I.emit("unitmix", unit=u, a=d[0], b=d[1], op=op)


def unop(I, s, op, v):
    n = I.N(v, s) if v.seq is not None else v
    if op == "USub":
        c = v.one()
        if c is not None and isinstance(c[0], (int, float)) and not isinstance(c[0], bool):
            return K(-c[0])
        return n.but(const=None, sign=s_neg(n.sign), pol=pol_neg(n.pol), reg=_EMPTY, vid=vn("neg", n.vid), tags=_EMPTY, cond=None, seq=None)
    if op == "Invert":
        return n.but(const=None, reg=_EMPTY, vid=vn("inv", n.vid), cond=cond_not_each(n.cond), tags=_EMPTY)
    if op == "UAdd":
        return n
    return V(ty=F(["bool"]), may=n.may, must=n.must, vid=vn("not", n.vid), cond=cond_not(n.cond))


def cond_not(c):
    if c is None:
        return None
    if c[0] == "and":
        return ("or", tuple(cond_not(x) for x in c[1]))
    if c[0] == "or":
        return ("and", tuple(cond_not(x) for x in c[1]))
    return (c[0], c[1], not c[2], {"both": "both", "true": "false", "false": "true"}.get(c[3], c[3]))


def cond_not_each(c):
    if c is None:
        return None
    if c[0] in ("and", "or"):
        return ("or" if c[0] == "and" else "and", tuple(cond_not_each(x) for x in c[1]))
    return (c[0], c[1], not c[2], c[3])


def cond_quant(c, q):
    """all(c)/any(c) of an elementwise condition"""
    if c is None:
        return None
    if c[0] == "and":
        if q == "all":
            return ("and", tuple(cond_quant(x, q) for x in c[1]))
        return None
    if c[0] == "or":
        if q == "any":
            return ("or", tuple(cond_quant(x, q) for x in c[1]))
        return None
    if q == "all":
        return (c[0], c[1], c[2], "true")
    return (c[0], c[1], c[2], "false")


NEGOP = {"Lt": "GtE", "Gt": "LtE", "LtE": "Gt", "GtE": "Lt"}


def generic(I, s, a, b):
    """a scalar in symbolic units against a non-zero constant: equal only by coincidence (unit programs look at the generic case)"""
    us = I.opts.get("units")
    if not us:
        return False
    for x, y in ((a, b), (b, a)):
        c = y.one()
        if c is not None and isinstance(c[0], (int, float)) and c[0] and not tiny(y) and x.one() is None and any(isinstance(x.deg.get(u), Fraction) and x.deg[u] for u in us):
            return True
    return False


def loose(I, x, c):
    """a total of probabilities accepted as one within a tolerance that is not a matter of rounding"""
    if I.opts.get("units") and c is not None and isinstance(c[0], float) and 1e-5 < abs(c[0]) < 1:
        for u in ("$p", "$r"):
            if x.deg.get(u) == "T":
                I.emit("unitmix", unit=u, a=Fraction(0), b=Fraction(1), op="tolerance")


def compare(I, s, op, a, b):
    if any("unordered" in x.tags or x.is_("set") or any("#" in y for y in x.lab) for x in (a, b)):
        labcmp(I, a, b)
    if op in ("In", "NotIn") and ltag(a, "item"):
        la, lb = ltag(a, "item")[1], b.lab or b.ax
        I.labchk.add((F(x.split("#")[0] for x in la), F(x.split("#")[0] for x in lb)))
    may, must = deps(I, s, [a, b])
    ca, cb = a.one(), b.one()
    kw = dict(may=may, must=must)
    if ca is not None and cb is not None and all(isinstance(z[0], (int, float, str, bool)) for z in (ca, cb)):
        try:
            x, y = ca[0], cb[0]
            r = {"Eq": lambda: x == y, "NotEq": lambda: x != y, "Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y,
                 "Is": lambda: x is y, "IsNot": lambda: x is not y, "In": lambda: x in y, "NotIn": lambda: x not in y}[op]()
            return K(bool(r))
        except Exception:
            pass
    # label programs: two label lists of one kind in different orders have the same length
    if op in ("Eq", "NotEq"):
        la, lb = ltag(a, "len"), ltag(b, "len")
        if la and la == lb and la[1] in ("asset", "port"):
            return K(op == "Eq")
    if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE") and "several" in a.tags and cb in ((0,), (1,)):
        return K(op in ("NotEq", "Gt") or op == "GtE")
    if op in ("Eq", "NotEq") and generic(I, s, a, b):
        return K(op == "NotEq")
    # a count known to be at least one
    for u, c, o in ((a, cb, op), (b, ca, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
        if c is not None and isinstance(c[0], (int, float)) and "truthy" in u.tags and u.sign == "+" and u.is_("int"):
            r = {"Gt": c[0] < 1, "GtE": c[0] <= 1}.get(o)
            if r:
                return K(True)
            r = {"Lt": c[0] <= 1, "LtE": c[0] < 1, "Eq": c[0] < 1}.get(o)
            if r:
                return K(False)
            if o == "NotEq" and c[0] < 1:
                return K(True)
    # sign-decided comparisons with zero (only strict contradictions)
    cond = None
    if op in ("Eq", "NotEq") and a.lab and b.lab and not (a.is_("set") or b.is_("set") or "unordered" in a.tags or "unordered" in b.tags):
        cond = ("eqlab", (F(a.lab), F(b.lab)), op == "Eq", "both")
    elif op in ("Eq", "NotEq", "In", "NotIn") and (a.lab or b.lab):
        cond = ("cmplab", (op, a.vid, b.vid), True, "both")
    elif op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
        # counting predicates: isnan(x).sum() > 0
        for u, w, flip in ((a, b, False), (b, a, True)):
            if u.cond is not None and len(u.cond) == 4 and u.cond[3] == "count" and w.one() is not None and w.one()[0] == 0:
                o = op if not flip else {"Lt": "Gt", "Gt": "Lt"}.get(op, op)
                base = (u.cond[0], u.cond[1], u.cond[2], "both")
                if o in ("Gt", "NotEq"):
                    return V(ty=F(["bool"]), vid=vn(op, a.vid, b.vid), cond=cond_quant(base, "any"), **kw)
                if o in ("Eq", "LtE"):
                    return V(ty=F(["bool"]), vid=vn(op, a.vid, b.vid), cond=cond_not(cond_quant(base, "any")), **kw)
        cond = ("cmp", (op, a.vid, b.vid), True, "both")
        if cb is not None and not isinstance(cb[0], (str, bool)) and cb[0] is not None:
            if cb[0] == 0 and op in ("Lt", "GtE"):
                cond = ("nonneg", a.vid, op == "GtE", "both")
            elif cb[0] == 0 and op in ("Gt", "LtE"):
                cond = ("pos", a.vid, op == "Gt", "both")
        # distribution over arrays: x.size, len comparisons keep vids
    ty = None
    if (scalar(a) or scalar(b)) and a.ty is not None and b.ty is not None and not (a.ty | b.ty) & {"ndarray", "Series", "DataFrame", "Index"}:
        ty = F(["bool"])
    if op in ("In", "NotIn", "Is", "IsNot"):
        ty = F(["bool"])
    vid = vn(op, a.vid, b.vid)
    if op in ("Eq", "NotEq"):
        vid = vn(op, *sorted((a.vid, b.vid)))
    na, nb = I.N(a, s), I.N(b, s)
    if op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
        unitmix(I, s, na, nb, op)
        for x, c in ((na, cb), (nb, ca)):
            loose(I, x, c)
    if I.opts.get("ports") and op in ("Lt", "LtE", "Gt", "GtE"):
        kw["tags"] = F(["boolmask"])
        up = op in ("Gt", "GtE")
        I.masks[vid] = {"pol": pol_add(na.pol if up else pol_neg(na.pol), pol_neg(nb.pol) if up else nb.pol), "incl": op.endswith("E"), "may": may}
    return V(ty=ty, nty=NN if ty is None else _EMPTY, vid=vid, cond=cond, sign="+", ax=na.ax | nb.ax, pol=poltop([na, nb], I), deg=cmp_deg(na, nb), **kw)


def cmp_deg(a, b):
    """a truth value is scale free when both sides scale alike"""
    if is_zero(a) or is_zero(b) or a.one() == (0,) or b.one() == (0,):
        return inv_deg({**a.deg, **b.deg})
    return inv_deg(deg_same(a, b))


def inv_deg(d):
    """degrees of a quantity that does not change when its source is rescaled"""
    return {k: ("T" if q == "T" else Fraction(0)) for k, q in d.items()}


# ------------------------------------------------------------------ subscripting
def sliceish(k):
    """True: basic (view) index, False: advanced (copy) index, None: unknown"""
    if k.attrs and "slice" in k.attrs:
        return True
    if k.seq is not None and k.is_("tuple"):
        r = [sliceish(x) for x in k.seq]
        if all(x is True or x == "int" or x == "new" for x in r):
            return True if any(x is True for x in r) else "int"
        if any(x is False for x in r):
            return False
        return None
    if k.is_("None"):
        return "new"
    if k.ty is not None and k.ty <= {"int"}:
        return "int"
    if k.ty is not None and k.ty <= {"ndarray", "list", "Series", "Index", "bool"}:
        return False
    return None


def pos_tag(I, s, b, x):
    """positions, within the labels b, of the label or labels x"""
    l = labof(I, s, b)
    t = ltag(x, "item")
    m = t[1] if t else labof(I, s, x)
    return F([("pos", l, m)]) if l and m else _EMPTY


def argsort_tag(n, vid):
    # (whether an unlabelled array ordered by asset is a vector is not known: its sorting positions may number columns)
    return F([("pos", n.ax, derived(n.ax, vid))]) if n.ax and len(cls_of(n.ax)) == 1 and (n.is_("Series") or cls_of(n.ax) != {"asset"}) else _EMPTY


def pick_tag(I, n, short, vid):
    """the position of the largest / smallest entry of a vector ordered by portfolio (label programs with portfolios only)"""
    if not I.opts.get("ports") or cls_of(n.ax) != {"port"}:
        return _EMPTY
    big = short.endswith("max")
    l = "pick:%d" % vid
    I.picks[l] = {"pol": n.pol if big else pol_neg(n.pol), "may": n.may, "of": n.ax, "how": short}
    return F([("pos", n.ax, F([l]))])


def mask_tag(I, m):
    """the positions at which a condition on a vector ordered by portfolio holds"""
    if not I.opts.get("ports") or cls_of(m.ax) != {"port"} or "boolmask" not in m.tags:
        return _EMPTY
    l = derived(m.ax, "mask%d" % m.vid)
    for x in l:
        I.masks[x] = {"vid": m.vid, "may": m.may, "of": m.ax}
    return F([("pos", m.ax, l)])


def positions(I, n, e):
    """where / nonzero: one array of positions per axis"""
    return V(ty=F(["tuple"]), **({"seq": (e,)} if e.tags else {"elem": e}), may=n.may, must=n.must, vid=e.vid)


def setord_use(I, how, *ks):
    for k in ks:
        if k is not None and ("setord" in k.tags or (k.ty is not None and k.ty <= {"set"})):
            I.emit("setorder", value=k, how=how)


def by_item(e, k):
    """the entry found under the label k: what was stored for the labels of one order is met in the order of k"""
    t = ltag(k, "item")
    if not t:
        return e
    c = cls_of(t[1])
    p = ltag(e, "pos")
    if p and cls_of(p[2]) & c:
        e = e.but(tags=e.tags - {p} | {("pos", p[1], t[1])})
    if cls_of(e.ax) & c:
        e = e.but(ax=t[1] | F(x for x in e.ax if x.split(":")[0] not in c))
    return e


def getitem(I, s, b, k):
    c = k.one()
    setord_use(I, "selection by a list in set order", *([k] if k.seq is None or not k.is_("tuple") else k.seq))
    if b.attrs and "indexer" in b.attrs:
        return loc_get(I, s, b, k)
    # known sequences
    if b.seq is not None and (b.ty is None or b.ty & {"tuple", "list"}):
        if c is not None and isinstance(c[0], int) and -len(b.seq) <= c[0] < len(b.seq):
            return b.seq[c[0]]
        if k.attrs and "slice" in k.attrs:
            lo, hi, st = [p.one() for p in k.attrs["slice"]]
            if lo is not None and hi is not None and st is not None and all(isinstance(x[0], (int, type(None))) for x in (lo, hi, st)):
                q = b.seq[slice(lo[0], hi[0], st[0])]
                return V(ty=b.ty, seq=q, vid=vn("tup", *[v.vid for v in q]))
        if b.seq:
            e = join_all(b.seq)
            return e.but(may=e.may | k.may, vid=vn("get", b.vid, k.vid)) if not k.attrs else V(ty=b.ty, elem=e, may=b.may, vid=vn("get", b.vid, k.vid))
    objs = I.objs(s, b)
    alts = []
    for r, o in objs:
        if o.kind in ("dict", "sol"):
            ck = ckey(k)
            if ck is not None and o.keys is not None and ck[0] in o.keys:
                x = o.keys[ck[0]]
                if "maybe-absent" in x.tags:
                    x = x.but(tags=x.tags - {"maybe-absent"})
                if o.elem is not None and False:
                    x = join(x, o.elem)
                alts.append(x)
            elif c is not None and o.keys is not None and o.elem is None and o.kind == "dict" and isinstance(c[0], str) and len(objs) == 1 and len(b.reg) == 1:
                if "fresh-literal" not in k.tags:
                    I.raise_exc(s, "KeyError")
                    from .interp import AbsDead
                    raise AbsDead()
            elif "fresh-literal" in k.tags and o.elem is None and o.keys is not None and len(b.reg) == 1 and o.kind == "dict":
                I.raise_exc(s, "KeyError")
                from .interp import AbsDead
                raise AbsDead()
            else:
                es = [x for x in (o.keys or {}).values()]
                if o.elem is not None:
                    es.append(o.elem)
                if es:
                    e = by_item(join_all(es), k)
                    alts.append(e.but(may=e.may | k.may))
        elif o.kind in ("list", "set", "ext"):
            if o.seq is not None and c is not None and isinstance(c[0], int) and -len(o.seq) <= c[0] < len(o.seq):
                alts.append(o.seq[c[0]])
            elif k.attrs and "slice" in k.attrs:
                if o.seq is not None:
                    lo, hi, st = [p.one() for p in k.attrs["slice"]]
                    if lo is not None and hi is not None and st is not None:
                        return I.new_list(s, list(o.seq[slice(lo[0], hi[0], st[0])]), I.site_node)
                e = I.elem_of(b, s)
                n = I.N(b, s)
                return I.new_list(s, None, I.site_node, e, False, n.must)
            else:
                e = I.elem_of(b, s)
                t = permof(I, s, k) if I.opts.get("ports") else None
                alts.append(e.but(may=e.may | k.may, tags=e.tags | {("at",) + t[1:]} if t else e.tags))
    if alts and len(objs) == len(b.reg):
        v = join_all(alts)
        return v
    n = I.N(b, s)
    may, must = n.may | k.may, n.must | k.must
    for x in (k.seq or ()):
        may |= x.may
        must |= x.must
    if k.lab and not k.ax:
        pass
    view = sliceish(k)
    ty, nty = None, NN
    reg = _EMPTY
    fr = b.ty is not None and b.ty <= {"DataFrame", "Series"}
    if fr:
        if b.is_("DataFrame"):
            if k.ty is not None and k.ty <= {"str", "int"}:
                ty = F(["Series"])
            elif k.ty is not None and k.ty <= {"list", "Index", "ndarray"}:
                ty = F(["DataFrame"])
        reg = _EMPTY      # copy-on-write: results never write through
    elif b.ty is not None and b.ty <= {"ndarray"}:
        if view is True:
            ty, reg = ARR, b.reg
        elif view == "int":
            reg = b.reg   # row view or scalar
        elif view == "new":
            ty, reg = ARR, b.reg
        elif view is False:
            ty = ARR
        else:
            reg = b.reg
    else:
        if view is False:
            reg = _EMPTY
        elif view == "int" or (c is not None):
            reg = F(I.sub(r, "[]") for r in b.reg) | F(r for r in b.reg if False)
            if b.ty is None:
                reg |= b.reg if view == "int" else _EMPTY
        else:
            reg = b.reg
            if b.ty is None and view is None:
                reg = reg | F(I.sub(r, "[]") for r in b.reg)
        nty = _EMPTY if b.ty is None or b.ty & {"list", "tuple", "dict"} else NN
    ax, lab, tags = n.ax, labof(I, s, b), F(t for t in n.tags if t in ("finite", "prob", "labelled"))
    item = ltag(k, "item")
    klab = labof(I, s, k) if not item else _EMPTY
    if item:
        if (b.ty is None or b.ty & {"dict", "Series", "DataFrame"}) and cls_of(item[1]) & cls_of(n.ax):
            ax = item[1] | F(x for x in n.ax if x.split(":")[0] not in cls_of(item[1]))
    elif klab:
        ax = klab | F(x for x in n.ax if x.split(":")[0] not in cls_of(klab))
        if not (fr or b.ty is None):
            ax = n.ax
    else:
        for x in (k.seq if k.seq is not None and k.is_("tuple") else [k]):
            t = permof(I, s, x)
            if t is None and "boolmask" in x.tags:
                t = next(iter(mask_tag(I, x)), None)
            bt = ltag(n, "pos")
            if t:
                ax = apply_perm(I, s, ax, t, "select")
                if lab:
                    lab = apply_perm(I, s, lab, t, "select labels")
                if x.is_("int") and not (x.seq or x.reg):
                    if lab:
                        tags |= {("item", lab)}
                    lab = _EMPTY
                if bt and I.opts.get("ports"):
                    apply_perm(I, s, bt[2], t, "select positions")
                    tags |= {("pos", bt[1], t[2])}
                elif bt:
                    tags |= {("pos", bt[1], derived(bt[2], vn("pp", x.vid)))}
            elif bt and x.attrs and "slice" in x.attrs:
                ps = [p.one() for p in x.attrs["slice"]]
                whole = all(p is not None and p[0] is None for p in ps)
                tags |= {bt if whole else ("pos", bt[1], derived(bt[2], vn("ps", *[p.vid for p in x.attrs["slice"]])))}
    sg = n.sign
    cond = n.cond
    dk = {}
    for x in (k.seq or (k,)) if k.attrs is None or "slice" not in k.attrs else ():
        dk.update(inv_deg(x.deg))
    return V(ty=ty, nty=nty, reg=reg, may=may, must=must, sign=sg, pol=n.pol, deg={**dk, **n.deg} if dk else n.deg, ax=ax, lab=lab, tags=tags, vid=vn("get", n.vid, k.vid), cond=cond)


def loc_get(I, s, b, k):
    base = b.attrs["base"]
    kind = b.attrs["indexer"]
    n = I.N(base, s)
    kk = [k] if k.seq is None else list(k.seq)
    may, must = n.may, n.must
    lab = _EMPTY
    for x in kk:
        may |= x.may
        must |= x.must
        lab |= labof(I, s, x) if not ltag(x, "item") else _EMPTY
    ax, tags = n.ax, F(t for t in n.tags if t in ("finite",))
    if kind == "loc":
        if lab:
            ax = lab | F(x for x in n.ax if x.split(":")[0] not in cls_of(lab))
        for x in kk:
            t = ltag(x, "item")
            if t and cls_of(t[1]) & cls_of(n.ax):
                ax = t[1] | F(x for x in ax if x.split(":")[0] not in cls_of(t[1]))
    else:
        for x in kk:
            t = permof(I, s, x)
            if t:
                ax = apply_perm(I, s, ax, t, "select")
    ty = None
    if base.is_("DataFrame"):
        dims = [sliceish(x) for x in kk]
        scal = sum(1 for x in kk if x.ty is not None and x.ty <= {"int", "str"})
        if scal == 0 and all(d in (True, False) for d in dims):
            ty = F(["DataFrame"])
        elif scal == 1 and (len(kk) == 1 or any(d in (True, False) for d in dims)):
            ty = F(["Series"])
    elif base.is_("Series"):
        if len(kk) == 1 and (sliceish(kk[0]) in (True, False) or kk[0].lab):
            ty = F(["Series"])
    return V(ty=ty, nty=NN, may=may, must=must, sign=n.sign, pol=n.pol, deg=n.deg, ax=ax, vid=vn("get", n.vid, *[x.vid for x in kk]), tags=tags)


# ------------------------------------------------------------------ attributes
ND_ATTRS = {"shape", "size", "ndim", "dtype", "T", "flat", "reshape", "ravel", "sum", "mean", "std", "min", "max", "any", "all", "copy", "astype", "tolist", "flatten", "squeeze", "item", "sort", "fill", "__len__", "__iter__", "__array__", "dot", "transpose"}
PD_ATTRS = {"index", "values", "to_numpy", "iloc", "loc", "reindex", "shape", "size", "ndim", "dtype", "dtypes", "T", "sum", "mean", "std", "min", "max", "any", "all", "copy", "astype", "isna", "isnull", "dropna", "items", "keys", "get", "apply", "rename", "empty", "pop", "__len__", "__iter__", "__array__", "to_dict", "std", "var", "update", "equals", "head", "tail"}


def hasattr_model(tys, nm):
    r = set()
    for t in tys:
        if t in ("ndarray", "matrix"):
            if t == "matrix":
                return None
            r.add(nm in ND_ATTRS if nm in ND_ATTRS | PD_ATTRS | {"columns", "name", "to_samples", "weights", "risks"} else None)
        elif t == "Series":
            r.add(True if nm in PD_ATTRS or nm in ("name", "tolist", "to_list", "to_frame", "item") else (False if nm in ("columns", "to_samples", "weights", "risks") else None))
        elif t == "DataFrame":
            r.add(True if nm in PD_ATTRS or nm in ("columns",) else (False if nm in ("to_samples", "risks", "name", "tolist") else None))
        else:
            r.add(None)
    return next(iter(r)) if len(r) == 1 else None


def lib_attr(I, name):
    name = canon(name)
    if name in ("numpy.inf", "math.inf", "numpy.Inf"):
        return K(float("inf"))
    if name in ("numpy.nan", "math.nan", "numpy.NaN"):
        return V(ty=F(["float"]), vid=vn("nan"), tags=F(["nan"]))
    if name in ("numpy.newaxis",):
        return NONE
    if name in ("math.pi", "numpy.pi"):
        return K(3.141592653589793)
    return V(nty=NN, fn=F([("lib", name)]), vid=vn("g", name))


def n_rows(I, b, s):
    """the array is known to have at least one row (its rows are known, or it was stacked from non-empty pieces)"""
    return bool(b.seq) or bool(I.N(b, s).seq)


def attr(I, s, b, a):
    n = b
    may, must = b.may, b.must
    if a in ("T",):
        return I.N(b, s).but(vid=vn("T", b.vid), const=None, seq=None, reg=b.reg if b.ty is None or b.ty & {"ndarray", "matrix"} else _EMPTY)
    if a in ("values",) and (b.ty is None or b.ty & {"Series", "DataFrame", "Index", "other"}) and not (b.ty is not None and b.ty <= {"dict"}):
        square(I, b)
        return b.but(ty=ARR, nty=_EMPTY, const=None, lab=b.lab, ax=b.ax)
    if a in ("flat",):
        return b.but(const=None)
    if a in ("loc", "iloc", "at", "iat"):
        return V(ty=F(["other"]), may=may, must=must, reg=b.reg, ax=b.ax, vid=vn("attr", b.vid, a), attrs={"indexer": "loc" if a in ("loc", "at") else "iloc", "base": b})
    if a in ("index", "columns"):
        labs = b.ax
        l = F(x for x in labs)
        if l:
            assets = F(x for x in l if x.startswith("asset:"))
            scen = F(x for x in l if x.startswith("scen:"))
            port = F(x for x in l if x.startswith("port:"))
            if b.is_("DataFrame"):
                if a == "columns":
                    l = port or F(colorder(b)) or assets
                else:
                    l = scen or assets or port
        return V(ty=F(["Index"]), lab=l, may=may, must=must, vid=vn("attr", b.vid, a), reg=F(I.sub(r, "." + a) for r in b.reg), tags=b.tags & {"nonempty"})
    if a == "ndim" and "rank" in I.opts:
        d = I.opts["rank"](I.N(b, s).vid)
        if d is not None:
            return K(d)
    if a in ("shape", "size", "ndim", "dtype", "dtypes", "name", "empty"):
        ty = {"size": F(["int"]), "ndim": F(["int"]), "empty": F(["bool"])}.get(a)
        vid = vn("attr", b.vid, a)
        if a == "shape" and "rows" in I.opts and I.opts["rows"](b.vid):
            return V(ty=F(["tuple"]), may=_EMPTY, must=_EMPTY, vid=vid, seq=(K(I.opts["rows"](b.vid)), V(ty=F(["int"]), sign="+", vid=vn("get", vid, vn("k", "int", "1")))), tags=F(["nonempty"]))
        if a == "shape":
            return V(ty=F(["tuple"]), may=_EMPTY, must=_EMPTY, vid=vid, elem=V(ty=F(["int"]), sign="+", vid=vn("dim", b.vid), tags=F(["truthy"]) if n_rows(I, b, s) or "nonempty" in b.tags else _EMPTY), tags=F(["nonempty"]))
        tags = F(["truthy"]) if a == "size" and (n_rows(I, b, s) or b.tags & {"nonempty"}) else _EMPTY
        if a == "size" and I.opts.get("ports") and cls_of(b.ax) == {"port"} and not any("mask" in x for x in b.ax):
            tags |= {"several"}     # frontiers of several portfolios
        return V(ty=ty, sign="+" if ty else None, vid=vid, may=_EMPTY if a != "name" else may, tags=tags)
    # unknown object
    reg = F(I.sub(r, "." + a) for r in b.reg)
    return V(may=may, must=must, reg=reg, pol=poltop([b]), deg=degtop([b]), ax=b.ax if b.ty is None else _EMPTY, vid=vn("attr", b.vid, a), nty=_EMPTY,
             lab=F(["%s" % x for x in b.lab]))


# ------------------------------------------------------------------ library functions
ALIASING = {"numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.broadcast_to",
            "numpy.transpose", "numpy.expand_dims", "numpy.swapaxes", "numpy.moveaxis", "numpy.require", "numpy.asarray_chkfinite"}
COPYING = {"numpy.array", "numpy.copy", "copy.copy", "copy.deepcopy", "numpy.float64", "numpy.nan_to_num", "numpy.real", "numpy.float32"}
MONO = {"numpy.sum": 0, "numpy.mean": 0, "numpy.median": 0, "numpy.min": 0, "numpy.max": 0, "numpy.amin": 0, "numpy.amax": 0, "numpy.quantile": 0, "numpy.percentile": 0, "numpy.cumsum": 0,
        "numpy.sort": 0, "numpy.diag": 0, "numpy.diagonal": 0, "numpy.trace": 0, "numpy.tile": 0, "numpy.repeat": 0, "numpy.take": 0, "numpy.take_along_axis": 0, "numpy.average": 0, "numpy.nanmean": 0,
        "numpy.nansum": 0, "numpy.flip": 0, "numpy.roll": 0, "numpy.maximum.accumulate": 0, "numpy.minimum.accumulate": 0, "numpy.nanmax": 0, "numpy.nanmin": 0, "numpy.partition": 0,
        "numpy.triu": 0, "numpy.tril": 0, "numpy.delete": 0, "numpy.unique": 0, "numpy.compress": 0, "numpy.extract": 0, "math.fsum": 0, "numpy.diagflat": 0, "numpy.nanmedian": 0, "numpy.add.reduce": 0, "numpy.nanquantile": 0}
FULLRED = {"numpy.sum", "numpy.mean", "numpy.median", "numpy.min", "numpy.max", "numpy.amin", "numpy.amax", "numpy.trace", "numpy.quantile", "numpy.percentile", "numpy.std", "numpy.var", "numpy.linalg.norm",
           "numpy.allclose", "numpy.any", "numpy.all", "numpy.isfinite_all", "numpy.nansum", "numpy.nanmean"}
STACK = {"numpy.hstack", "numpy.vstack", "numpy.column_stack", "numpy.concatenate", "numpy.stack", "numpy.block", "numpy.append", "numpy.r_", "numpy.c_", "numpy.dstack", "numpy.row_stack", "scipy.sparse.vstack", "scipy.sparse.hstack"}
FRESHSHAPE = {"numpy.zeros": "0", "numpy.ones": "+", "numpy.eye": "+", "numpy.identity": "+", "numpy.empty": None, "numpy.zeros_like": "0", "numpy.ones_like": "+", "numpy.empty_like": None, "numpy.arange": "+",
              "numpy.indices": "+", "numpy.diag_indices": "+", "numpy.triu_indices": "+", "numpy.tril_indices": "+"}
LOGNAMES = ("debug", "info", "warning", "error", "critical", "exception", "log")
GLOBAL_RNG = {"seed", "rand", "randn", "randint", "random", "choice", "normal", "uniform", "shuffle", "permutation", "standard_normal", "multivariate_normal", "random_sample", "ranf", "sample", "beta", "gamma",
              "exponential", "poisson", "binomial", "dirichlet", "lognormal", "set_state", "get_state", "standard_t", "bytes", "chisquare"}
CLOCK = {"time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "time.perf_counter_ns", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "os.urandom", "os.getpid", "uuid.uuid4",
         "uuid.uuid1", "secrets.token_bytes", "secrets.randbits", "secrets.randbelow", "pandas.Timestamp.now", "datetime.date.today", "secrets.token_hex", "os.times", "time.process_time", "os.getenv", "os.environ.get", "socket.gethostname", "platform.node", "platform.system", "platform.machine", "platform.platform", "threading.get_ident", "time.strftime",
         "time.ctime", "time.localtime", "time.gmtime", "os.cpu_count", "os.getcwd", "os.getppid", "numpy.datetime64", "uuid.uuid3", "uuid.uuid5"} - {"numpy.datetime64", "uuid.uuid3", "uuid.uuid5"}


def arg(args, kw, i, name, d=None):
    if name in kw:
        return kw[name]
    if i is not None and i < len(args) and isinstance(args[i], V):
        return args[i]
    return d


def stackv(I, s, items, name, node, axis=None):
    """stack/concatenate: union of dependence, join of numeric facts, known blocks kept"""
    n = I.N(items, s)
    its = I.known_items(items, s)
    seq = tuple(I.N(x, s) for x in its) if its is not None else None
    ax = n.ax
    if seq is not None:
        axmix(I, s, [x for x in seq], name.split(".")[-1])
    return V(ty=ARR, may=n.may, must=n.must, sign=n.sign, pol=n.pol, deg=n.deg, ax=ax, seq=seq, vid=vn(name, n.vid) if axis is None or axis.one() == (0,) else vn(name, n.vid, ("axis", str(axis.one()))), tags=F(t for t in n.tags if t in ("finite",)))


KEEPS_ROWS = ALIASING | STACK | {"numpy.array", "numpy.copy", "cvxopt.matrix", "cvxopt.sparse", "numpy.float64"}


def call(I, s, name, args, kw, e):
    r = call0(I, s, name, args, kw, e)
    if r is not None and args and isinstance(args[0], V) and canon(name) in KEEPS_ROWS and "nonempty" not in r.tags and not scalar(args[0]) and I.nonempty(args[0], s):
        r = r.but(tags=r.tags | {"nonempty"})
    if I.opts.get("index") and r is not None and args and isinstance(args[0], V):
        r = named(I, s, canon(name).split(".")[-1], canon(name).startswith("numpy."), args, kw, r)
    if I.opts.get("ports") and r is not None and args and isinstance(args[0], V) and (canon(name) in STACK or canon(name) in ("numpy.array", "numpy.asarray")):
        r = columns(I, s, args[0], r)
    return r


AXIS_KEPT = {"sum", "mean", "average", "cumsum", "cumprod", "prod", "min", "max", "amin", "amax", "argsort", "sort", "argmax", "argmin", "take_along_axis", "var", "std", "median", "quantile"}


def named(I, s, m, known, pos, kw, r):
    """value numbers that keep the axes of reductions, the subscripts of einsum and the shape asked for (formula programs only)"""
    if not known or r.fn or r.one() is not None or r.is_("tuple"):
        return r
    vid = lambda x: I.N(x, s).vid if isinstance(x, V) else 0
    if m in AXIS_KEPT | REDUCE:
        return r.but(vid=vn("max" if m == "amax" else "min" if m == "amin" else m, *[vid(x) for x in pos], *[("kw", n, vid(x)) for n, x in sorted(kw.items()) if n not in ("dtype", "out", "kind")]))
    if m == "einsum":
        return r.but(vid=vn("einsum", *[vid(x) for x in pos]))
    if m in ("ravel", "flatten") and len(pos) == 1 or m == "reshape" and len(pos) == 2 and pos[1].one() == (-1,):
        x = vid(pos[0])
        if "rank" in I.opts and (I.opts["rank"](x) == 2 or term(x)[:1] in (("col",), ("row",))):
            return r.but(vid=vn("vec", x))
        return r
    if m == "reshape" and len(pos) == 2 and pos[1].seq is not None and len(pos[1].seq) == 2:
        pos = [pos[0], *pos[1].seq]
    if m == "reshape" and len(pos) == 3:
        a, b = [x.one() for x in pos[1:]]
        if a == (-1,) and b == (1,):
            return r.but(vid=vn("col", vid(pos[0])))
        if a == (1,) and b == (-1,):
            return r.but(vid=vn("row", vid(pos[0])))
        return r.but(vid=vn("reshape", *[vid(x) for x in pos]))
    return r


def columns(I, s, a0, r):
    """portfolios collected one by one in a loop follow the order of the loop (label programs with portfolios only)"""
    if a0 is None or cls_of(r.ax) & {"port", "pick"} or not any(o.kind == "list" and o.seq is None and o.elem is not None for x, o in I.objs(s, a0)):
        return r
    return r.but(ax=r.ax | {"port:loop"})


def call0(I, s, name, args, kw, e):
    name = canon(name)
    I.lib_seen = getattr(I, "lib_seen", {})
    vs = [a[1] if isinstance(a, tuple) else a for a in args] + list(kw.values())
    pos = [a for a in args if isinstance(a, V)]
    a0 = pos[0] if pos else None
    I.emit("libcall", name=name, args=args, kw=kw, state=s)
    h = I.hooks.get("lib:" + name)
    if h is not None:
        r = h(I, s, name, args, kw)
        if r is not None:
            return r
    if "out" in kw and not kw["out"].is_("None"):
        if "where" in kw or not (kw["out"].is_("ndarray") or kw["out"].ty is None):
            I.mutate(s, kw["out"], "out= argument", unknown(I, s, pos, name))
        else:
            r = call0(I, s, name, args, {k: v for k, v in kw.items() if k != "out"}, e)
            o = kw["out"]
            I.mutate(s, o, "out= argument", r, idx=V(ty=F(["other"]), attrs={"slice": (NONE, NONE, NONE)}, vid=vn("slice", "all"), tags=F(["slice"])))
            return r.but(reg=o.reg) if o.reg else r
    short = name.split(".")[-1]
    if short == "__setattr__" and len(pos) == 3:     # object.__setattr__(obj, name, value)
        nm = pos[1].one()
        I.setattr(s, pos[0], nm[0] if nm else "?", pos[2], how="object.__setattr__")
        return NONE
    if name.startswith("builtins."):
        r = builtin(I, s, short, args, kw, e, pos, vs)
        if r is not None:
            return r
    if name in ALIASING:
        n = I.N(a0, s)
        reg = a0.reg if not objs_list(I, s, a0) else _EMPTY
        if scalar(a0) and a0.ty is not None and "None" not in a0.ty:
            reg = _EMPTY
        if a0.is_("DataFrame") or a0.is_("Series"):
            reg = a0.reg if name == "numpy.asarray" else a0.reg
        tags = n.tags - {"truthy"}
        return n.but(ty=ARR, nty=_EMPTY, const=n.const if scalar(a0) else None, reg=reg, tags=tags, elem=None)
    if name in COPYING:
        n = I.N(a0, s)
        if name.startswith("copy."):
            for f in a0.fn:
                if f[0] == "lib":
                    return V(ty=F(["dict"]), vid=vn("snap", f[1], state_ver(I, s, f[1]).vid))
            return copyval(I, s, a0, deep=name.endswith("deepcopy"))
        if name == "numpy.array" and "copy" in kw and kw["copy"].one() == (False,):
            return n.but(ty=ARR, nty=_EMPTY, const=None)
        ty = ARR if name not in ("numpy.float64", "numpy.float32") else F(["float"])
        vid = n.vid if name != "numpy.nan_to_num" else vn("nan_to_num", n.vid)
        cond = n.cond
        r = n.but(ty=ty, nty=_EMPTY, const=None, reg=_EMPTY, vid=vid, elem=None)
        if name == "numpy.nan_to_num":
            I.emit("nan_to_num", value=n)
        return r
    if name in STACK:
        if name == "numpy.append":
            items = V(ty=F(["tuple"]), seq=tuple(pos[:2]), vid=vn("tup", *[p.vid for p in pos[:2]]))
            return stackv(I, s, items, name, e)
        return stackv(I, s, a0, name, e, kw.get("axis") or (pos[1] if len(pos) > 1 and name in ("numpy.concatenate", "numpy.stack") else None))
    if name in MONO:
        n = I.N(a0, s)
        others = [v for v in vs if v is not a0]
        on = flat(I, s, others)
        may, must = deps(I, s, vs)
        ax = n.ax
        if name == "numpy.average" and ("weights" in kw or len(pos) > 2):
            w = I.N(kw.get("weights", pos[2] if len(pos) > 2 else None), s)
            ax = axmix(I, s, [n, w], "average")
        if name in FULLRED and "axis" not in kw and len(pos) < (3 if short in ("quantile", "percentile") else 2):
            ax = _EMPTY
        cond = None
        if short in ("sum", "nansum") and n.cond is not None and len(n.cond) == 4:
            cond = (n.cond[0], n.cond[1], n.cond[2], "count")
        if short in ("mean", "min") and n.cond is not None and len(n.cond) == 4:
            cond = None
        pol = n.pol
        deg = n.deg
        for o in on:
            pol = pol_add(pol, {k: "?" for k in o.pol})
            if o.deg:
                deg = dict(deg)
                for k, q in o.deg.items():
                    if name == "numpy.average" and q != "T":        # (a weighted average does not depend on the scale of the weights)
                        q = Fraction(0)
                    if q == "T" or k not in deg:
                        deg[k] = "T" if q else q
        view = _EMPTY
        if short in ("diagonal", "diag"):
            view = n.reg
        q = arg(pos, kw, 1, "q")
        sg = n.sign
        vid = vn(short, n.vid, *[v.vid for v in others])
        return V(ty=None, nty=NN, may=may, must=must, sign=sg, pol=pol, deg=deg, ax=ax, cond=cond, vid=vid, reg=view, tags=F(t for t in n.tags if t in ("finite",)))
    if name in FRESHSHAPE:
        sg = FRESHSHAPE[name]
        may, must = _EMPTY, _EMPTY
        ax = _EMPTY
        if short.endswith("_like") and a0 is not None:
            ax = I.N(a0, s).ax
        if name == "numpy.arange":
            may, must = deps(I, s, vs)
        v = V(ty=ARR, sign=sg, may=may, must=must, vid=vn(name, *[x.vid for x in vs]), ax=ax, reg=F([("new", "nd", getattr(e, "lineno", 0), getattr(e, "col_offset", 0), I.depth, I.unroll_idx())]))
        if sg is None and I.opts.get("units"):
            v = v.but(tags=F(["zero"]))     # no content yet: whatever is stored decides the units
        return v
    if name in ("numpy.full", "numpy.full_like"):
        fv = arg(pos, kw, 1, "fill_value")
        n = I.N(fv, s) if fv is not None else V()
        return n.but(ty=ARR, nty=_EMPTY, const=None, seq=None, vid=vn("full", n.vid, *[x.vid for x in pos[:1]]), reg=F([("new", "nd", getattr(e, "lineno", 0), getattr(e, "col_offset", 0), I.depth, I.unroll_idx())]), tags=F(t for t in n.tags if t == "finite"))
    if name in ("numpy.sqrt", "math.sqrt"):
        n = I.N(a0, s)
        return num(I, s, [a0], "sqrt", sign="+", pol=n.pol, deg=deg_pow(n.deg, Fraction(1, 2)), ax=n.ax, vid=vn("Pow", n.vid, K(0.5).vid))
    if name in ("numpy.square",):
        return binop(I, s, "Pow", a0, K(2))
    if name in ("numpy.power", "numpy.float_power", "math.pow") and len(pos) > 1:
        return binop(I, s, "Pow", a0, pos[1])
    if name in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.true_divide", "numpy.dot", "numpy.matmul", "numpy.outer", "numpy.inner", "numpy.vdot", "numpy.kron") and len(pos) > 1:
        op = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "dot": "MatMult", "matmul": "MatMult", "outer": "Mult", "inner": "MatMult", "vdot": "MatMult", "kron": "Mult"}[short]
        r = binop(I, s, op, a0, pos[1]).but(ty=None, nty=NN)
        if short == "outer":
            r = r.but(vid=vn("outer", a0.vid, pos[1].vid))
        if "out" in kw or "where" in kw:
            o = kw.get("out")
            if o is not None and not o.is_("None"):
                r = join(r, o).but(reg=o.reg, must=r.must)
        return r
    if name in ("numpy.negative",):
        return unop(I, s, "USub", a0)
    if name in ("numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs"):
        return absval(I, s, a0)
    if name in ("numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin") and len(pos) > 1:
        return minmax(I, s, [a0, pos[1]], "max" if "max" in short else "min")
    if name == "numpy.clip":
        n = I.N(a0, s)
        lo, hi = arg(pos, kw, 1, "a_min", kw.get("min")), arg(pos, kw, 2, "a_max", kw.get("max"))
        return clip(I, s, a0, lo, hi)
    if name in ("numpy.exp", "numpy.expm1", "numpy.log", "numpy.log1p", "numpy.log2", "numpy.log10", "math.exp", "math.log", "math.log1p", "math.expm1", "numpy.arctan", "numpy.tanh", "numpy.sign", "numpy.floor", "numpy.ceil",
                "numpy.rint", "numpy.round", "math.floor", "math.ceil", "numpy.around", "numpy.trunc"):
        n = I.N(a0, s)
        sg = "+" if short == "exp" else (n.sign if short in ("expm1", "log1p", "arctan", "tanh", "sign", "floor", "ceil", "rint", "round", "around", "trunc") and n.sign in ("+", "-", "0") else None)
        if short == "floor" and n.sign == "0":
            sg = "0"
        if short in ("exp", "expm1", "log1p", "tanh", "arctan", "floor", "ceil", "rint", "round", "around", "trunc"):
            unitmix(I, s, n, K(1.0), short)
        deg = deg_top(n.deg) if short != "sign" else {k: v for k, v in n.deg.items() if v == "T"}
        if short == "exp" and I.opts.get("expunit"):
            deg = {**deg, "$s": Fraction(1)}
        return num(I, s, [a0], short, sign=sg, pol=n.pol, deg=deg, ax=n.ax, ty=a0.ty if a0.is_("Series") or a0.is_("DataFrame") or a0.is_("ndarray") else None)
    if name in ("numpy.isfinite", "numpy.isnan", "numpy.isinf", "math.isfinite", "math.isnan", "math.isinf", "pandas.isna", "pandas.isnull", "pandas.notna", "pandas.notnull"):
        n = I.N(a0, s)
        I.nanchk.add((n.vid, n.may, n.ax))
        c = {"isfinite": ("finite", n.vid, True, "both"), "isnan": ("notnan", n.vid, False, "both"), "isna": ("notnan", n.vid, False, "both"), "isnull": ("notnan", n.vid, False, "both"),
             "notna": ("notnan", n.vid, True, "both"), "notnull": ("notnan", n.vid, True, "both"), "isinf": ("notinf", n.vid, False, "both")}[short]
        return V(ty=F(["bool"]) if scalar(a0) else None, nty=NN, may=n.may, must=n.must, cond=c, vid=vn(short, n.vid), ax=n.ax)
    if name in ("numpy.any", "numpy.all"):
        n = I.N(a0, s)
        return V(ty=F(["bool"]) if len(pos) < 2 and "axis" not in kw else None, nty=NN, may=n.may, must=n.must, cond=cond_quant(n.cond, short), vid=vn(short, n.vid))
    if name in ("numpy.logical_not",):
        return unop(I, s, "Invert", a0)
    if name in ("numpy.logical_and", "numpy.logical_or") and len(pos) > 1:
        return binop(I, s, "BitAnd" if short.endswith("and") else "BitOr", a0, pos[1])
    if name in ("numpy.isclose", "numpy.allclose", "numpy.array_equal", "math.isclose"):
        n = flat(I, s, pos[:2])
        may, must = deps(I, s, pos[:2])
        cond = None
        if name == "numpy.array_equal" and len(pos) > 1 and pos[0].lab and pos[1].lab:
            cond = ("eqlab", (F(pos[0].lab), F(pos[1].lab)), True, "both")
        elif len(n) > 1:
            if generic(I, s, n[0], n[1]) and short in ("isclose", "allclose"):
                tol = [x.one() for x in (arg(pos, kw, 2, "rtol", kw.get("rel_tol")), arg(pos, kw, 3, "atol", kw.get("abs_tol"))) if x is not None]
                for x, y in ((n[0], n[1]), (n[1], n[0])):
                    for c in tol:
                        if y.one() is not None:
                            loose(I, V(deg={u: "T" for u, d in x.deg.items() if d}), c)
                return K(False)
            cond = ("close", tuple(sorted((n[0].vid, n[1].vid))), True, "both")
        return V(ty=F(["bool"]), may=may, must=must, cond=cond, vid=vn(short, *[x.vid for x in n]), deg=cmp_deg(n[0], n[1]) if len(n) > 1 else {})
    if name == "numpy.where":
        if len(pos) == 1:
            n = I.N(a0, s)
            return positions(I, n, V(ty=ARR, may=n.may, must=n.must, sign="+", vid=vn("where", n.vid), tags=mask_tag(I, n)))
        if len(pos) >= 3:
            c, x, y = [I.N(p, s) for p in pos[:3]]
            j = join(x, y)
            return V(nty=NN, may=c.may | x.may | y.may, must=c.must | (x.must & y.must), sign=j.sign, pol=pol_add(j.pol, {k: "?" for k in c.pol if k not in j.pol}), deg=deg_same(x, y), ax=axmix(I, s, [x, y], "where"), vid=vn("where", c.vid, x.vid, y.vid))
    if name in ("numpy.argsort", "numpy.argmin", "numpy.argmax", "numpy.searchsorted", "numpy.nanargmin", "numpy.nanargmax", "numpy.digitize", "numpy.count_nonzero", "numpy.lexsort", "numpy.flatnonzero", "numpy.nonzero", "numpy.argwhere", "numpy.argpartition", "numpy.size", "numpy.ndim"):
        n = flat(I, s, [p for p in pos if isinstance(p, V)])
        may, must = deps(I, s, pos)
        d = {}
        for x in n:
            d.update({k: q for k, q in inv_deg(x.deg).items() if d.get(k) != "T"})
        if short in ("searchsorted", "digitize") and len(n) > 1:
            d = cmp_deg(n[0], n[1])
        ty = ARR if short in ("argsort", "lexsort", "flatnonzero", "argwhere", "argpartition") else (F(["int"]) if short in ("size", "ndim", "count_nonzero") else None)
        kwv = tuple(sorted((k, v.vid) for k, v in kw.items() if k != "kind"))
        if short in ("size", "ndim"):
            return V(ty=ty, sign="+", vid=vn("attr", n[0].vid, short) if n else vn(short))
        if name == "numpy.nonzero":
            return positions(I, n[0], V(ty=ARR, may=may, must=must, vid=vn("nz", n[0].vid), tags=mask_tag(I, n[0])))
        vid = vn(short, *[x.vid for x in n], *kwv)
        tags = _EMPTY
        if n:
            tags = argsort_tag(n[0], vid) if short in ("argsort", "lexsort") else pick_tag(I, n[0], short, vid) if short.endswith(("argmin", "argmax")) else mask_tag(I, n[0]) if short == "flatnonzero" else _EMPTY
        return V(ty=ty, nty=NN if ty is None else _EMPTY, sign="+", may=may, must=must, deg=d, pol=poltop(n, I), ax=_EMPTY, vid=vid, tags=tags)
    if name in ("numpy.linspace", "numpy.geomspace", "numpy.logspace"):
        n = flat(I, s, pos[:2] + [kw[k] for k in ("start", "stop") if k in kw])
        may, must = deps(I, s, vs)
        j = join_all(n) if n else V()
        return V(ty=ARR, may=may, must=must, sign=j.sign, pol=j.pol if short == "linspace" else poltop(n), deg=j.deg if short == "linspace" else degtop(n), vid=vn(short, *[x.vid for x in vs]))
    if name in ("numpy.cov",):
        n = I.N(a0, s)
        w = kw.get("aweights") or kw.get("fweights")
        norm = tuple((x, kw[x].one()[0] if kw[x].one() else "?") for x in ("bias", "ddof") if x in kw)
        if w is not None:
            wn = I.N(w, s)
            return num(I, s, [a0, w], "cov", deg=deg_mul(deg_pow(n.deg, 2), {k: "T" for k, q in wn.deg.items() if q == "T"}), ax=axmix(I, s, [n, wn], "cov")).but(
                vid=vn("cov", n.vid, wn.vid, "aweights" if "aweights" in kw else "fweights", norm))
        aw = [I.N(v, s).deg for k, v in sorted(kw.items()) if k in ("aweights", "fweights")]
        dg = deg_pow(n.deg, 2)
        for d in aw:        # (the weights are normalised inside: their scale does not matter)
            dg = {**inv_deg(d), **dg}
        return num(I, s, [a0] + [v for k, v in sorted(kw.items()) if k in ("aweights", "fweights")], "cov", deg=dg, ax=n.ax)
    if name in ("numpy.corrcoef",):
        n = I.N(a0, s)
        return num(I, s, [a0], "corr", deg=deg_pow(n.deg, 0), ax=n.ax)
    if name in ("numpy.std", "numpy.linalg.norm", "numpy.nanstd"):
        n = I.N(a0, s)
        return num(I, s, [a0], short, sign="+", deg=n.deg, ax=n.ax if "axis" in kw else _EMPTY)
    if name in ("numpy.var", "numpy.nanvar"):
        n = I.N(a0, s)
        return num(I, s, [a0], short, sign="+", deg=deg_pow(n.deg, 2), ax=n.ax if "axis" in kw else _EMPTY)
    if name in ("numpy.prod", "numpy.cumprod", "numpy.linalg.det", "numpy.linalg.slogdet"):
        n = I.N(a0, s)
        return num(I, s, [a0], short, deg=degtop([n]) if n.deg else {}, pol=n.pol if n.sign == "+" else poltop([n]), sign="+" if n.sign == "+" else None)
    if name in ("numpy.diff", "numpy.ediff1d", "numpy.gradient"):
        n = I.N(a0, s)
        return num(I, s, [a0], "diff", deg=n.deg, ax=n.ax)
    if name == "numpy.einsum":
        ops = flat(I, s, pos[1:])
        d, sg = {}, "+"
        p = None
        acc = None
        for o in ops:
            d = deg_mul(d, o.deg)
            sg = s_mul(sg, o.sign)
            acc = o if acc is None else V(sign=s_mul(acc.sign, o.sign), pol=pol_mul(acc, o), deg={})
        return num(I, s, pos[1:], "einsum", sign=sg, deg=d, pol=acc.pol if acc is not None else {}, ax=axmix(I, s, ops, "einsum"))
    if name in ("numpy.linalg.cholesky", "scipy.linalg.sqrtm", "scipy.linalg.cholesky"):
        n = I.N(a0, s)
        r = num(I, s, [a0], "chol", deg=deg_pow(n.deg, Fraction(1, 2)), ax=n.ax)
        if name == "scipy.linalg.cholesky":
            lo = arg(pos, kw, 1, "lower")
            lo = (False,) if lo is None else lo.one()
            if lo != (True,):
                r = r.but(vid=vn("T", r.vid) if lo == (False,) else vn("chol?", r.vid))
        elif name == "numpy.linalg.cholesky" and "upper" in kw and kw["upper"].one() != (False,):
            r = r.but(vid=vn("T", r.vid) if kw["upper"].one() == (True,) else vn("chol?", r.vid))
        return r
    if name in ("numpy.linalg.inv", "numpy.linalg.pinv", "scipy.linalg.inv", "scipy.linalg.pinv", "scipy.linalg.pinvh"):
        n = I.N(a0, s)
        return num(I, s, [a0], "inv", deg=deg_pow(n.deg, -1), ax=n.ax)
    if name in ("numpy.linalg.solve", "scipy.linalg.solve", "numpy.linalg.lstsq"):
        x, y = I.N(a0, s), I.N(pos[1], s)
        return num(I, s, pos[:2], "solve", deg=deg_mul(y.deg, x.deg, -1), ax=axmix(I, s, [x, y], "solve"))
    if name in ("numpy.linalg.eigvalsh", "numpy.linalg.eigvals", "scipy.linalg.eigvalsh"):
        n = I.N(a0, s)
        return num(I, s, [a0], "eigvals", deg=n.deg, ax=_EMPTY, pol=poltop([n]))
    if name in ("numpy.linalg.eigh", "numpy.linalg.eig", "scipy.linalg.eigh"):
        n = I.N(a0, s)
        w = num(I, s, [a0], "eigvals", deg=n.deg, ax=_EMPTY)
        u = num(I, s, [a0], "eigvecs", deg={k: q for k, q in n.deg.items() if q == "T"}, ax=n.ax)
        return V(ty=F(["tuple"]), seq=(w, u), vid=vn("eigh", n.vid))
    if name in ("numpy.linalg.svd", "numpy.linalg.qr"):
        n = I.N(a0, s)
        x = num(I, s, [a0], short)
        return V(ty=F(["tuple"]), elem=x, may=n.may, must=n.must, vid=vn(short, n.vid))
    if name == "numpy.interp" and len(pos) >= 3:
        x, xp, fp = [I.N(p, s) for p in pos[:3]]
        return num(I, s, pos[:3], "interp", deg=fp.deg, sign=fp.sign, ax=x.ax)
    if name in ("numpy.fill_diagonal", "numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.put_along_axis"):
        I.mutate(s, a0, short, join_all(flat(I, s, pos[1:])) if len(pos) > 1 else None, **({"idx": V(vid=vn("diagonal"), ty=F(["other"]))} if I.opts.get("index") and short == "fill_diagonal" else {}))
        return NONE
    if name.endswith(".at") and name.startswith("numpy."):
        I.mutate(s, a0, name, join_all(flat(I, s, pos[2:])) if len(pos) > 2 else None)
        return NONE
    if name in ("random.shuffle",):
        I.mutate(s, a0, "shuffle")
    # ---- randomness
    if name == "numpy.random.default_rng" or name in ("numpy.random.RandomState", "random.Random", "numpy.random.Generator"):
        seed = arg(pos, kw, 0, "seed")
        I.emit("rng", how="create", seed=seed, name=name)
        may = seed.may if seed is not None else _EMPTY
        src_ = F(["rng:unseeded"]) if seed is None or (seed.is_("None")) else _EMPTY
        return V(ty=F(["other"]), nty=_EMPTY, may=may | src_, must=seed.must if seed is not None else _EMPTY, vid=vn("rng", seed.vid if seed is not None else 0), attrs={"rng": True},
                 reg=F([("new", "rng", getattr(e, "lineno", 0), I.depth)]))
    if name == "numpy.random.SeedSequence":
        seed = arg(pos, kw, 0, "entropy")
        return V(ty=F(["other"]), may=(seed.may if seed is not None else _EMPTY) | (F(["rng:unseeded"]) if seed is None or seed.is_("None") else _EMPTY), must=seed.must if seed is not None else _EMPTY, vid=vn("ss", seed.vid if seed is not None else 0), attrs={"rng": True})
    if name.startswith("numpy.random.") or name.startswith("random."):
        I.emit("rng", how="global", seed=None, name=name)
        return unknown(I, s, vs, name).but(may=deps(I, s, vs)[0] | F(["rng:global"]))
    if name in CLOCK or name.startswith("secrets."):
        I.emit("clock", name=name)
        return V(nty=NN, may=F(["ambient:" + name]), must=F(["ambient:" + name]), vid=vn("clock", name))
    # ---- cvxopt
    if name.startswith("cvxopt.solvers.") and short in ("lp", "qp", "conelp", "coneqp", "socp", "sdp", "cp", "cpl", "gp"):
        return solver(I, s, "cvxopt." + short, args, kw, e)
    if name in ("cvxopt.matrix", "cvxopt.sparse", "cvxopt.spmatrix"):
        n = I.N(a0, s) if a0 is not None else V()
        seq = None
        its = I.known_items(a0, s) if a0 is not None else None
        if its is not None:
            seq = tuple(I.N(x, s) for x in its)
        elif n.seq is not None:
            seq = n.seq
        return n.but(ty=F(["matrix"]), nty=_EMPTY, const=None, reg=_EMPTY, seq=seq, elem=None)
    # ---- scipy
    if name in ("scipy.optimize.minimize", "scipy.optimize.milp", "scipy.optimize.linprog", "scipy.optimize.minimize_scalar", "scipy.optimize.root", "scipy.optimize.least_squares", "scipy.optimize.root_scalar", "scipy.optimize.differential_evolution", "scipy.optimize.basinhopping"):
        return solver(I, s, name, args, kw, e)
    if name in ("scipy.stats.norm.ppf", "scipy.stats.chi2.ppf"):
        n = I.N(a0, s)
        return num(I, s, vs, short, pol=pol_add(n.pol, {k: "?" for v in flat(I, s, vs[1:]) for k in v.pol}))
    # ---- pandas
    if name in ("pandas.Series", "pandas.DataFrame", "pandas.Index"):
        return pdnew(I, s, short, pos, kw, e)
    if name == "pandas.concat":
        n = I.N(a0, s)
        I.emit("concat", args=args, kw=kw, state=s)
        axv = kw.get("axis")
        ty = F(["DataFrame"]) if axv is not None and axv.one() in ((1,), ("columns",)) else None
        return V(ty=ty, nty=NN, may=n.may, must=n.must, sign=n.sign, pol=n.pol, deg=n.deg, ax=n.ax, vid=vn("concat", n.vid))
    if name in ("pandas.to_datetime", "pandas.to_numeric"):
        n = I.N(a0, s)
        return n.but(const=None, reg=_EMPTY, vid=vn(short, n.vid))
    # ---- state-bearing library functions
    if name in ("warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "pandas.set_option", "os.putenv", "os.chdir", "sys.setrecursionlimit", "locale.setlocale",
                "matplotlib.use", "matplotlib.rc", "matplotlib.style.use", "matplotlib.pyplot.style.use", "matplotlib.pyplot.rc", "logging.basicConfig", "logging.disable", "numpy.random.seed", "random.seed", "matplotlib.rcdefaults", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff"):
        I.emit("globalcall", name=name)
        return NONE if short != "seterr" else V()
    if name in ("warnings.warn", "warnings.warn_explicit"):
        I.emit("warn", args=pos, state=s)
        return NONE
    if name in ("logging.getLogger",):
        return V(ty=F(["other"]), attrs={"logger": True}, vid=vn("logger"))
    if name in ("functools.partial",):
        return V(ty=F(["callable"]), fn=F([("partial", a0, tuple(pos[1:]), tuple(sorted(kw.items(), key=lambda t: t[0])))]), vid=vn("partial", *[v.vid for v in vs]))
    if name in ("dataclasses.replace",):
        return dc_replace(I, s, a0, kw, e)
    if name in ("dataclasses.fields",):
        c = None
        for f in a0.fn:
            if f[0] == "cls":
                c = f[1]
        for r, o in I.objs(s, a0):
            c = o.cls
        if c is not None:
            fs = []
            for (n_, a_, d_, k_) in I.P.dc_fields(c):
                rid = ("fld", c.name, n_)
                s.heap[rid] = Obj("obj", attrs={"name": K(n_)}, cls=None)
                fs.append(V(ty=F(["obj"]), reg=F([rid]), vid=vn("fld", n_)))
            return V(ty=F(["tuple"]), seq=tuple(fs), vid=vn("fields", c.name))
    if name in ("itertools.chain", "itertools.chain.from_iterable", "itertools.product", "itertools.combinations", "itertools.islice", "itertools.repeat", "itertools.zip_longest", "itertools.accumulate"):
        if name == "itertools.chain":
            ks = [I.known_items(p, s) for p in pos]
            if all(k is not None for k in ks):
                it = tuple(x for k in ks for x in k)
                return V(ty=F(["other"]), seq=it, vid=vn("chain", *[x.vid for x in it]))
        if name == "itertools.zip_longest":
            return builtin(I, s, "zip", args, {}, e, pos, vs)
        es = [I.elem_of(p, s) for p in pos]
        may, must = deps(I, s, pos)
        return V(ty=F(["other"]), elem=join_all(es) if es else None, may=may, must=must, vid=vn(name, *[p.vid for p in pos]))
    if name in ("contextlib.suppress",):
        I.emit("suppress", args=pos)
    if name == "numpy.apply_along_axis" and len(pos) >= 3:
        return I.call_value(pos[0], [pos[2]] + pos[3:], {}, s, e)
    if name in ("numpy.vectorize",):
        return a0
    if name in ("numpy.isscalar",):
        return V(ty=F(["bool"]), const=F([("bool", True)]) if scalar(a0) else (F([("bool", False)]) if a0.ty is not None and not a0.ty & {"int", "float", "str", "bool", "None", "other"} else None), vid=vn(short, a0.vid))
    if name in ("numpy.finfo", "numpy.iinfo"):
        return V(nty=NN, vid=vn(name), attrs={"finfo": True})
    if name in ("numpy.errstate", "warnings.catch_warnings", "numpy.printoptions", "contextlib.nullcontext", "contextlib.ExitStack"):
        return V(ty=F(["other"]), attrs={"cm": name}, vid=vn(name))
    if name.startswith("logging."):
        return NONE
    if short in GLOBAL_EXC:
        return V(ty=F(["other"]), attrs={"exc": short}, vid=vn("exc", short))
    r = state_method(I, s, name, pos, kw, vs)
    if r is not None:
        return r
    I.unknown[name] = I.unknown.get(name, 0) + 1
    return unknown(I, s, vs, name)


# ------------------------------------------------------------------ process-wide library state (dictionaries of options)
STATE_MUT = {"update", "clear", "pop", "setdefault", "popitem", "append", "extend", "insert", "remove", "reset", "__setitem__", "__delitem__", "move_to_end", "discard", "add"}


def state_ver(I, s, L):
    o = s.heap.get(("libstate", L))
    return o.attrs["ver"] if o is not None else K("initial")


def state_put(s, L, ver):
    s.heap[("libstate", L)] = Obj("lib", attrs={"ver": ver})


def state_method(I, s, name, pos, kw, vs):
    """dict-like methods on a library module's attribute (cvxopt.solvers.options.update, matplotlib.rcParams.update ...)"""
    L, _, m = name.rpartition(".")
    if L.startswith("builtins") or L.count(".") < 1 or L.split(".")[-1][:1].isupper() or L in ("pandas.DataFrame", "pandas.Series", "numpy.linalg", "numpy.random"):
        return None
    if m in ("copy",):
        return V(ty=F(["dict"]), vid=vn("snap", L, state_ver(I, s, L).vid))
    if m in ("get",):
        return V(vid=vn("snapk", L, state_ver(I, s, L).vid, pos[0].vid if pos else 0))
    if m in ("items", "keys", "values"):
        return V(ty=F(["other"]), vid=vn("snap", L, state_ver(I, s, L).vid))
    if m not in STATE_MUT:
        return None
    I.emit("globalwrite", target=L, how=m, state=s)
    ver = state_ver(I, s, L)
    if m == "clear":
        state_put(s, L, V(vid=vn("empty", L, 0)))
    elif m == "update":
        x = pos[0] if pos else None
        t = term(x.vid) if x is not None else ()
        if t and t[0] == "snap" and t[1] == L and term(ver.vid)[:1] == ("empty",):
            state_put(s, L, K("initial") if t[2] == K("initial").vid else V(vid=t[2]))
        else:
            n = I.definitely_empty(x, s) if x is not None else not kw
            if not n:
                state_put(s, L, V(vid=vn("upd", L, ver.vid, *[v.vid for v in vs])))
    elif m == "pop" and pos:
        ks = term(ver.vid)
        r = V(vid=vn("snapk", L, ver.vid, pos[0].vid))
        if ks[:1] == ("setk",) and ks[3] == pos[0].vid:
            # removing a key that was added temporarily
            state_put(s, L, ver_of(ks[2]))
        else:
            state_put(s, L, V(vid=vn("setk", L, ver.vid, pos[0].vid)))
        return r
    else:
        state_put(s, L, V(vid=vn("mut", L, ver.vid)))
    return V()


def ver_of(vid):
    return K("initial") if vid == K("initial").vid else V(vid=vid)


def state_set(I, s, L, k, v):
    ver = state_ver(I, s, L)
    t, ks = term(v.vid), term(ver.vid)
    if ks[:1] == ("setk",) and ks[3] == k.vid and (t[:1] == ("snapk",) and t[1] == L and t[2] == ks[2] and t[3] == k.vid or I_from_snap(v, L, ks[2])):
        state_put(s, L, ver_of(ks[2]))
    elif ks[:1] == ("setk",) and ks[3] == k.vid:
        state_put(s, L, ver)
    else:
        state_put(s, L, V(vid=vn("setk", L, ver.vid, k.vid)))


def I_from_snap(v, L, ver):
    """an element of a snapshot of L taken at version ver"""
    t = term(v.vid)
    return t[:1] in (("el",), ("idx",), ("getitem",), ("item",), ("unp",)) and any(isinstance(x, int) and term(x)[:2] == ("snap", L) and term(x)[2] == ver for x in t[1:])


def state_assign(I, s, L, v):
    ver = state_ver(I, s, L)
    t = term(v.vid)
    if t[:1] == ("snap",) and t[1] == L:
        state_put(s, L, ver_of(t[2]))
    else:
        state_put(s, L, V(vid=vn("mut", L, ver.vid)))


GLOBAL_EXC = {"ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError", "NotImplementedError", "ImportError", "AttributeError", "ZeroDivisionError", "Exception", "AssertionError", "StopIteration", "LinAlgError", "UserWarning",
              "RuntimeWarning", "DeprecationWarning", "OSError", "ArithmeticError", "LookupError", "FloatingPointError", "ModuleNotFoundError", "OverflowError", "FutureWarning", "BaseException", "Warning"}


def objs_list(I, s, v):
    return any(o.kind in ("list", "dict", "set") for _, o in I.objs(s, v)) or (v.seq is not None and v.ty is not None and v.ty <= {"list", "tuple"})


def copyval(I, s, v, deep=False):
    new = set()
    for r, o in I.objs(s, v):
        rid = ("copy", r, getattr(I.site_node, "lineno", 0))
        if deep:
            def d(x, depth=0):
                if x is None:
                    return None
                if depth > 4:
                    return x.but(reg=_EMPTY)
                if x.reg:
                    return copyval(I, s, x, True) if I.objs(s, x) else x.but(reg=_EMPTY)
                if x.seq is not None:
                    return x.but(seq=tuple(d(y, depth + 1) for y in x.seq))
                return x
            o = o.but(seq=tuple(d(x) for x in o.seq) if o.seq is not None else None, elem=d(o.elem), keys={k: d(x) for k, x in o.keys.items()} if o.keys is not None else None,
                      attrs={k: d(x) for k, x in o.attrs.items()} if o.attrs is not None else None)
        s.heap[rid] = o
        new.add(rid)
    if not new and not deep and not (v.ty is not None and v.ty <= {"ndarray", "Series", "DataFrame"}):
        # shallow copy of an unknown container: fresh shell, shared elements
        return v.but(reg=_EMPTY, elem=I.elem_of(v, s) if v.ty is not None and v.ty & {"dict", "list"} else v.elem)
    return v.but(reg=F(new))


def absval(I, s, v):
    n = I.N(v, s)
    pol = n.pol if n.sign in ("+", "0") else pol_neg(n.pol) if n.sign == "-" else poltop([n])
    vid = n.vid if n.sign == "+" else vn("abs", n.vid)
    return num(I, s, [v], "abs", sign="0" if n.sign == "0" else "+", pol=pol, deg=n.deg, ax=n.ax, vid=vid)


def minmax(I, s, vs, which):
    ns = flat(I, s, vs)
    for i, x in enumerate(ns):
        for y in ns[i + 1:]:
            unitmix(I, s, x, y, which)
    j = ns[0]
    pol, d = j.pol, j
    for x in ns[1:]:
        pol = pol_add(pol, x.pol)
        d = V(sign="0", deg={}) if False else V(sign=None, deg=deg_same(d, x), tags=_EMPTY)
    deg = d.deg if len(ns) > 1 else j.deg
    sg = None
    signs = [x.sign for x in ns]
    if which == "max":
        sg = "+" if any(z in ("+", "0") for z in signs) else ("-" if all(z == "-" for z in signs) else None)
        cs = [x.one() for x in ns]
        if any(c and isinstance(c[0], (int, float)) and c[0] >= 0 for c in cs):
            sg = "+"
    else:
        sg = "-" if any(z in ("-", "0") for z in signs) else ("+" if all(z == "+" for z in signs) else None)
    cs = [x.one() for x in ns]
    if all(c is not None and isinstance(c[0], (int, float)) for c in cs):
        return K(max(c[0] for c in cs) if which == "max" else min(c[0] for c in cs))
    return num(I, s, vs, which, sign=sg, pol=pol, deg=deg, ax=axmix(I, s, ns, which), vid=vn(which, *sorted(x.vid for x in ns)))


def clip(I, s, v, lo, hi):
    n = I.N(v, s)
    bs = [b for b in (lo, hi) if b is not None and not b.is_("None")]
    r = n
    sg = n.sign
    deg = n.deg
    pol = n.pol
    for b in bs:
        bn = I.N(b, s)
        unitmix(I, s, n, bn, "clip")
        c = bn.one()
        if c is None or (c[0] != 0 and not tiny(bn)):
            if not (c is not None and abs(c[0]) == float("inf")):
                deg = deg_same(V(deg=deg), bn)
        pol = pol_add(pol, bn.pol)
    if lo is not None and lo.sign in ("+", "0"):
        sg = "+"
    elif hi is not None and hi.sign in ("-", "0"):
        sg = "-"
    return num(I, s, [v] + bs, "clip", sign=sg, deg=deg, pol=pol, ax=n.ax, ty=v.ty if v.ty is not None and v.ty <= {"ndarray", "Series", "DataFrame"} else None)


def dc_replace(I, s, v, kw, e):
    for r, o in I.objs(s, v):
        if o.kind == "obj" and o.cls is not None:
            at = dict(o.attrs or {})
            at.update(kw)
            names = [f[0] for f in I.P.dc_fields(o.cls)]
            return I.construct(o.cls, [], {k: x for k, x in at.items() if k in names}, s, e)
    return unknown(I, s, [v] + list(kw.values()), "replace")


def pdnew(I, s, kind, pos, kw, e):
    data = arg(pos, kw, 0, "data")
    index = arg(pos, kw, 1, "index")
    cols = arg(pos, kw, 2, "columns") if kind == "DataFrame" else None
    if data is None:
        data = NONE
    setord_use(I, "labels built in set order", data, index, cols)
    n = I.N(data, s)
    labs = []
    for x in (index, cols):
        l = labof(I, s, x)
        if l:
            labs.append(l)
    ax = n.ax
    if not labs and data.is_("dict"):
        for _, o in I.objs(s, data):
            t = ltag(o.kelem, "item") if o.kelem is not None and not o.keys else None
            if t:
                ax = t[1] | F(x for x in ax if x.split(":")[0] not in cls_of(t[1]))
    pand = data.ty is not None and data.ty <= {"Series", "DataFrame", "dict"}
    if labs:
        l = F().union(*labs)
        if n.ax and not pand:
            # attaching labels to positional data: the orders must agree
            for c in ("asset", "scen", "port"):
                a = {q for q in n.ax if q.startswith(c + ":")}
                b = {q for q in l if q.startswith(c + ":")}
                if a and b and not (a & b) and not aligned(s, a, b):
                    I.emit("misalign", cls=c, a=tuple(sorted(a)), b=tuple(sorted(b)), op="label " + kind)
        ax = l | F(q for q in n.ax if q.split(":")[0] not in {y.split(":")[0] for y in l})
    vs = [x for x in (data,) if x is not None]
    lab = _EMPTY
    if kind == "Index":
        return V(ty=F(["Index"]), lab=data.lab | n.lab, may=n.may, must=n.must, vid=data.vid)
    tags = F(t for t in n.tags if t in ("finite", "psd", "prob")) | (F(["labelled"]) if (index is not None and not index.is_("None")) or (cols is not None and not cols.is_("None")) else _EMPTY)
    reg = _EMPTY
    cp = kw.get("copy")
    if cp is not None and cp.one() == (False,):
        reg = data.reg
    elif kind == "DataFrame" and False:
        reg = data.reg
    mustx = n.must
    pv = n.vid if not objs_list(I, s, data) else vn("pd", n.vid)
    if I.opts.get("index") and kind in ("Series", "DataFrame") and objs_list(I, s, data):
        ds = [o for _, o in I.objs(s, data)]
        if len(ds) == 1 and ds[0].kind == "dict" and ds[0].keys:
            pv = vn("rec", *[("kw", str(c), I.N(x, s).vid) for c, x in ds[0].keys.items()])
    return V(ty=F([kind]), may=n.may, must=mustx, sign=n.sign, pol=n.pol, deg=n.deg, ax=ax, tags=tags, vid=pv, reg=reg, cond=n.cond,
             attrs={"index": index, "columns": cols} if index is not None or cols is not None else None,
             seq=None)


def solver(I, s, name, args, kw, e):
    vs = [a[1] if isinstance(a, tuple) else a for a in args] + list(kw.values())
    may, must = deps(I, s, vs)
    rid = ("sol", name, I.frame.func.full if I.frame else "", getattr(e, "lineno", 0), getattr(e, "col_offset", 0), I.unroll_idx(), I.ctxkey())
    from .interp import sol_id, sol_ok, sol_live, rename_state
    sid = sol_id(rid)
    old = s.heap.get(rid)
    if old is not None and old.kind == "sol":
        # the same call site ran before (loop): settle what the earlier answer flowed into
        s.become(rename_state(s, sid, ("ok" if sol_ok(old) else "bad") + sid, rid))
    ids = F([sid])
    res = V(nty=NN, may=may | ids, must=must | ids, vid=vn("solx", rid), attrs=None, pol={}, deg=degtop(flat(I, s, vs)))
    I.emit("solver", name=name, args=args, kw=kw, rid=rid, state=s)
    xax = _EMPTY        # the solution is ordered like the problem data
    if name.startswith("cvxopt."):
        for q in vs[:3]:
            qx = F(y for y in I.N(q, s).ax if y.split(":")[0] in ("asset", "port"))
            if qx:
                xax = qx if len(cls_of(qx)) == 1 else _EMPTY
                break
    if I.opts.get("implicit"):
        I.raise_exc(s, "?")
    if name.startswith("cvxopt."):
        st = V(ty=F(["str"]), const=F([("str", "optimal"), ("str", "unknown"), ("str", "primal infeasible"), ("str", "dual infeasible")]), vid=vn("status", rid))
        keys = {"status": st, "x": res.but(ax=xax)}
        for k in ("y", "z", "s", "primal objective", "dual objective", "gap", "zl", "sl", "zq", "sq", "zs", "ss"):
            keys[k] = res.but(vid=vn("sol" + k, rid))
        s.heap[rid] = Obj("sol", keys=keys, attrs={}, nonempty=True)
    else:
        ok = V(ty=F(["bool"]), const=F([("bool", True), ("bool", False)]), vid=vn("success", rid))
        stv = V(ty=F(["int"]), vid=vn("status", rid), tags=F(["solstatus"]))
        at = {"success": ok, "status": stv, "x": res, "message": V(ty=F(["str"])), "fun": res.but(vid=vn("fun", rid)), "jac": res.but(vid=vn("jac", rid)), "nit": V(ty=F(["int"]))}
        s.heap[rid] = Obj("sol", attrs=at, keys={}, nonempty=True)
    return V(ty=F(["other"]), reg=F([rid]), may=may | ids, must=must, vid=vn("sol", rid))


# ------------------------------------------------------------------ builtins
def builtin(I, s, n, args, kw, e, pos, vs):
    a0 = pos[0] if pos else None
    if n in GLOBAL_EXC:
        return V(ty=F(["other"]), attrs={"exc": n}, vid=vn("exc", n))
    if n == "len":
        it = I.known_items(a0, s)
        if it is not None:
            return K(len(it))
        tags = F(["truthy"]) if I.nonempty(a0, s) else _EMPTY
        l = labof(I, s, a0)
        if len(cls_of(l)) == 1 and "unordered" not in a0.tags:
            tags |= {("len", next(iter(cls_of(l))))}
        return V(ty=F(["int"]), sign="+", vid=vn("len", a0.vid), tags=tags, cond=None)
    if n in ("float", "int", "bool", "str", "complex"):
        if a0 is None:
            return K({"float": 0.0, "int": 0, "bool": False, "str": ""}.get(n, 0))
        c = a0.one()
        if c is not None and not isinstance(c[0], type(None)):
            try:
                r = {"float": float, "int": int, "bool": bool, "str": str}[n](c[0])
                if "fresh-literal" not in a0.tags:
                    return K(r)
            except Exception:
                pass
        x = I.N(a0, s)
        if n == "bool":
            t = I.const_truth(a0, s)
            if t is not None:
                return K(t)
            return V(ty=F(["bool"]), may=x.may, must=x.must, cond=x.cond, vid=vn("bool", x.vid))
        if n == "str":
            return V(ty=F(["str"]), may=x.may, must=x.must, vid=vn("str", x.vid), tags=a0.tags & F(["fresh-literal"]), lab=_EMPTY)
        if "rounded" in x.tags or n == "float":
            return x.but(ty=F([n]), nty=_EMPTY, const=None, reg=_EMPTY, ax=_EMPTY, lab=_EMPTY, seq=None, elem=None)
        if x.ty is not None and x.ty <= {"int", "bool"}:
            return x.but(ty=F(["int"]))
        keep = x.deg == {} 
        return x.but(ty=F([n]), nty=_EMPTY, const=None, reg=_EMPTY, ax=_EMPTY, lab=_EMPTY, deg=x.deg, seq=None, elem=None, tags=x.tags | F(["intcast"]))
    if n == "abs":
        return absval(I, s, a0).but(ty=a0.ty if scalar(a0) else None)
    if n in ("min", "max"):
        if len(pos) == 1:
            it = I.known_items(a0, s)
            if it:
                return minmax(I, s, it, n)
            x = I.N(I.elem_of(a0, s), s)
            return x.but(vid=vn(n, a0.vid), const=None, reg=_EMPTY)
        return minmax(I, s, pos, n)
    if n == "sum":
        it = I.known_items(a0, s)
        x = I.N(I.elem_of(a0, s), s)
        d = I.N(a0, s)
        cond = x.cond
        if cond is not None and len(cond) == 4:
            cond = (cond[0], cond[1], cond[2], "count")
        else:
            cond = None
        return V(nty=NN, may=x.may | d.may, must=d.must | (x.must if I.nonempty(a0, s) else _EMPTY), sign=x.sign, pol=x.pol, deg=x.deg, vid=vn("sum", a0.vid), cond=cond)
    if n in ("any", "all"):
        x = I.elem_of(a0, s)
        d = I.N(a0, s)
        it = I.known_items(a0, s)
        if it is not None:
            cs = [I.const_truth(y, s) for y in it]
            if all(c is not None for c in cs):
                return K(any(cs) if n == "any" else all(cs))
            if n == "any" and any(c is True for c in cs):
                return TRUE
            if n == "all" and any(c is False for c in cs):
                return FALSE
        return V(ty=F(["bool"]), may=d.may | x.may, must=d.must, cond=cond_quant(I.N(x, s).cond, n), vid=vn(n, a0.vid))
    if n in ("list", "tuple", "set", "frozenset", "sorted", "reversed"):
        if a0 is None:
            if n == "list":
                return I.new_list(s, [], e)
            if n == "tuple":
                return V(ty=F(["tuple"]), seq=(), vid=vn("tup"))
            rid = I.new_rid(e, "set")
            s.heap[rid] = Obj("set", seq=())
            return V(ty=F(["set"]), reg=F([rid]), vid=vn("set"))
        it = I.known_items(a0, s)
        fromset = a0.ty is not None and "set" in a0.ty
        setord = fromset and n in ("list", "tuple") or "setord" in a0.tags and n in ("list", "tuple")
        lab = labof(I, s, a0)
        if not lab and a0.ty is not None and a0.ty <= {"DataFrame"}:
            lab = F(x for x in a0.ax if x.startswith("port:")) or F(x for x in a0.ax if x.startswith("asset:"))
        elif not lab and a0.is_("dict") and not I.objs(s, a0):
            lab = a0.ax
        if n in ("sorted", "reversed"):
            lab = derived(lab, (n, a0.vid))
        tags = _EMPTY
        if n in ("sorted", "set", "frozenset"):
            tags = F(["unordered"])
        if setord:
            tags = tags | F(["setord"])
        if n in ("list", "sorted") or n == "reversed":
            if n == "sorted" and len(it or []) > 1:
                it = None
            if it is not None and n != "reversed":
                v = I.new_list(s, it, e)
            else:
                d = I.N(a0, s)
                x = I.elem_of(a0, s)
                if n != "list" and I.opts.get("ports"):
                    x = x.but(tags=x.tags | {("at", _EMPTY, F(["port:?"]))})
                v = I.new_list(s, None, e, x, I.nonempty(a0, s), d.must)
            vid = a0.vid if n == "list" else vn(n, a0.vid)
            r = v.but(lab=lab, tags=v.tags | tags, vid=vid, may=a0.may if it is None else _EMPTY, ax=a0.ax)
            return r
        if n == "tuple":
            if it is not None:
                return V(ty=F(["tuple"]), seq=tuple(it), vid=a0.vid, lab=lab, tags=tags)
            return V(ty=F(["tuple"]), elem=I.elem_of(a0, s), may=a0.may, must=a0.must, lab=lab, vid=a0.vid, ax=a0.ax, tags=tags | F(["nonempty"]) if I.nonempty(a0, s) else tags)
        rid = I.new_rid(e, "set")
        s.heap[rid] = I.set_obj(it) if it is not None else Obj("set", elem=I.elem_of(a0, s), nonempty=I.nonempty(a0, s))
        return V(ty=F(["set"]), reg=F([rid]), lab=lab, tags=F(["unordered"]), may=a0.may, must=a0.must, vid=vn("set", a0.vid))
    if n == "dict":
        if a0 is None:
            keys = {k: v for k, v in kw.items() if k != "**"}
            return I.new_dict(s, keys, e, elem=I.elem_of(kw["**"], s) if "**" in kw else None)
        for f in a0.fn:
            if f[0] == "lib":
                return V(ty=F(["dict"]), vid=vn("snap", f[1], state_ver(I, s, f[1]).vid))
        os = [o for _, o in I.objs(s, a0) if o.kind == "dict"]
        if os and len(os) == len(a0.reg):
            o = os[0]
            keys = dict(o.keys or {})
            keys.update({k: v for k, v in kw.items() if k != "**"})
            d = I.new_dict(s, keys, e, o.elem, o.kelem, o.nonempty)
            r = next(iter(d.reg))
            s.heap[r] = s.heap[r].but(must=o.must, may=o.may)
            return d
        it = I.known_items(a0, s)
        if it is not None and all(x.seq is not None and len(x.seq) == 2 and x.seq[0].one() for x in it):
            return I.new_dict(s, {x.seq[0].one()[0]: x.seq[1] for x in it}, e)
        el = I.elem_of(a0, s)
        d = I.new_dict(s, {k: v for k, v in kw.items() if k != "**"}, e, el.but(vid=vn("dv", a0.vid)), None, I.nonempty(a0, s))
        r = next(iter(d.reg))
        s.heap[r] = s.heap[r].but(must=I.N(a0, s).must, may=I.N(a0, s).may)
        return d
    if n == "range":
        cs = [p.one() for p in pos]
        if all(c is not None and isinstance(c[0], int) for c in cs):
            r = range(*[c[0] for c in cs])
            if len(r) <= 16:
                return V(ty=F(["other"]), seq=tuple(K(i) for i in r), vid=vn("range", *[p.vid for p in pos]))
        may = F().union(*[p.may for p in pos])
        must = F().union(*[p.must for p in pos])
        pos_ne = len(pos) == 1 and "truthy" in pos[0].tags
        return V(ty=F(["other"]), elem=V(ty=F(["int"]), sign="+", may=may, vid=vn("ri", *[p.vid for p in pos])), may=may, vid=vn("range", *[p.vid for p in pos]), tags=F(["nonempty"]) if pos_ne else _EMPTY)
    if n == "enumerate":
        it = I.known_items(a0, s)
        if it is not None:
            q = tuple(V(ty=F(["tuple"]), seq=(K(i), x), vid=vn("en", i, x.vid)) for i, x in enumerate(it))
            return V(ty=F(["other"]), seq=q, vid=vn("enum", a0.vid))
        x = I.elem_of(a0, s)
        t = orderof(x)
        et = F([("pos", t, t)]) if t else _EMPTY
        return V(ty=F(["other"]), elem=V(ty=F(["tuple"]), seq=(V(ty=F(["int"]), sign="+", vid=vn("ei", a0.vid), tags=et), x), vid=vn("en", a0.vid)), may=a0.may, must=a0.must, vid=vn("enum", a0.vid), tags=F(["nonempty"]) if I.nonempty(a0, s) else _EMPTY)
    if n == "zip":
        if any(isinstance(a, tuple) for a in args):
            el = I.elem_of(args[-1][1], s)
            return V(ty=F(["other"]), elem=I.elem_of(el, s), may=el.may, vid=vn("zip*", el.vid))
        its = [I.known_items(p, s) for p in pos]
        if its and all(i is not None for i in its):
            q = tuple(V(ty=F(["tuple"]), seq=tuple(r), vid=vn("z", *[x.vid for x in r])) for r in zip(*its))
            return V(ty=F(["other"]), seq=q, vid=vn("zip", *[p.vid for p in pos]))
        known = [len(i) for i in its if i is not None]
        if known and max(known) <= 8 and min(known) == max(known):
            q = []
            for i in range(known[0]):
                row = tuple((it[i] if it is not None else I.elem_of(p, s)) for p, it in zip(pos, its))
                q.append(V(ty=F(["tuple"]), seq=row, vid=vn("z", i, *[x.vid for x in row])))
            return V(ty=F(["other"]), seq=tuple(q), vid=vn("zip", *[p.vid for p in pos]))
        row = tuple(I.elem_of(p, s) for p in pos)
        los = [orderof(x) for x in row]
        for i in range(len(los)):
            for j in range(i + 1, len(los)):
                for c in cls_of(los[i]) & cls_of(los[j]):
                    a = {x for x in los[i] if x.startswith(c + ":")}
                    b = {x for x in los[j] if x.startswith(c + ":")}
                    if not (a & b) and not aligned(s, a, b):
                        I.emit("misalign", cls=c, a=tuple(sorted(a)), b=tuple(sorted(b)), op="zip")
        may = F().union(*[p.may for p in pos]) if pos else _EMPTY
        return V(ty=F(["other"]), elem=V(ty=F(["tuple"]), seq=row, vid=vn("z", *[x.vid for x in row])), may=may, vid=vn("zip", *[p.vid for p in pos]), tags=F(["nonempty"]) if all(I.nonempty(p, s) for p in pos) else _EMPTY)
    if n in ("map", "filter"):
        if n == "filter":
            x = I.elem_of(pos[1], s)
            return V(ty=F(["other"]), elem=x, may=x.may, vid=vn("filter", pos[1].vid))
        its = I.known_items(pos[1], s) if len(pos) == 2 else None
        if its is not None and len(its) <= 8:
            q = tuple(I.call_value(a0, [x], {}, s, e) for x in its)
            return V(ty=F(["other"]), seq=q, vid=vn("map", *[x.vid for x in q]))
        x = I.call_value(a0, [I.elem_of(p, s) for p in pos[1:]], {}, s, e)
        return V(ty=F(["other"]), elem=x, may=x.may, must=_EMPTY, vid=vn("map", x.vid), tags=F(["nonempty"]) if all(I.nonempty(p, s) for p in pos[1:]) else _EMPTY)
    if n == "getattr":
        nm = pos[1].one()
        if nm is not None and isinstance(nm[0], str):
            h = I.has_attr(a0, nm[0], s)
            if h is False and len(pos) > 2:
                return pos[2]
            if not (I.objs(s, a0) or a0.fn):
                v = attr(I, s, a0, nm[0])
            else:
                v = I.getattr(s, a0, nm[0])
            if len(pos) > 2 and h is None:
                sol = any(o.kind == "sol" for _, o in I.objs(s, a0))
                if not sol:
                    v = join(v, pos[2])
            return v
        return unknown(I, s, pos, "getattr")
    if n == "setattr":
        nm = pos[1].one()
        I.setattr(s, a0, nm[0] if nm else "?", pos[2])
        return NONE
    if n in ("isinstance", "callable", "hasattr", "issubclass"):
        if n != "issubclass":
            alts = [(x, K(t)) for t, x in I.test_type(e, s)] if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) else [(s.copy(), BOOL)]
            return I.pick(s, alts)
        return BOOL
    if n == "round":
        c = a0.one() if hasattr(a0, "one") and len(args) == 1 else None
        if c is not None and isinstance(c[0], (int, float)) and abs(c[0]) < 1e15:
            return K(round(c[0]))
        x = I.N(a0, s)
        return num(I, s, [a0], "round", pol=x.pol, sign=x.sign, deg=deg_top(x.deg), ty=None, tags=F(["rounded"]))
    if n in ("id", "hash", "object"):
        if n != "object":
            I.emit("clock", name="builtins." + n)
            return V(ty=F(["int"]), may=F(["ambient:" + n]) | (a0.may if a0 else _EMPTY), vid=vn(n, a0.vid if a0 else 0))
        return V(nty=NN, ty=F(["other"]))
    if n == "type":
        cs = [o.cls for _, o in I.objs(s, a0) if o.kind == "obj" and o.cls is not None]
        if cs and len(cs) == len(a0.reg):
            return V(ty=F(["callable"]), fn=F([("cls", c) for c in cs]), vid=vn("type", a0.vid))
        return V(ty=F(["callable"]), vid=vn("type", a0.vid))
    if n in ("print", "input", "open", "exec", "eval", "compile", "__import__", "globals", "locals", "vars", "dir"):
        I.emit("globalcall", name="builtins." + n)
        return unknown(I, s, vs, n) if n != "print" else NONE
    if n == "slice":
        ps = (pos + [NONE] * 3)[:3] if len(pos) > 1 else [NONE, pos[0], NONE]
        r = V(ty=F(["other"]), attrs={"slice": tuple(ps)}, may=F().union(*[p.may for p in ps]), must=F().union(*[p.must for p in ps]), vid=vn("slice", *[p.vid for p in ps]), tags=F(["slice"]))
        return r
    if n == "next":
        it = I.known_items(a0, s)
        if it:
            return it[0]
        x = I.elem_of(a0, s)
        return x if len(pos) < 2 else join(x, pos[1])
    if n == "iter":
        return a0
    if n == "pow" and len(pos) >= 2:
        return binop(I, s, "Pow", a0, pos[1])
    if n == "divmod":
        return V(ty=F(["tuple"]), seq=(binop(I, s, "FloorDiv", a0, pos[1]), binop(I, s, "Mod", a0, pos[1])), vid=vn("divmod", a0.vid, pos[1].vid))
    if n == "super":
        return V()
    if n in ("repr", "format", "chr", "ascii"):
        return V(ty=F(["str"]), may=a0.may if a0 else _EMPTY)
    return None


# ------------------------------------------------------------------ methods
PURE_PD = {"dropna", "fillna", "ffill", "bfill", "sort_index", "sort_values", "reset_index", "set_index", "rename", "shift", "pct_change", "select_dtypes", "drop", "replace", "assign", "to_frame", "rename_axis", "set_axis", "where", "mask", "infer_objects", "interpolate", "drop_duplicates", "join", "merge", "resample", "rolling", "groupby", "apply", "agg", "map", "transform"}
REDUCE = {"sum", "mean", "min", "max", "median", "quantile", "cumsum", "cummax", "cummin", "trace", "diagonal", "nlargest", "head", "tail", "take", "repeat", "compress", "expanding"}
MUT = {"append", "extend", "insert", "remove", "clear", "update", "sort", "reverse", "fill", "popitem", "add", "discard", "resize", "put", "itemset", "setflags", "setdefault", "pop", "difference_update", "intersection_update", "set_value", "partition", "byteswap", "__setitem__", "__delitem__", "symmetric_difference_update"}


def method(I, s, b, m, args, kw, e, fv=None):
    r = method0(I, s, b, m, args, kw, e, fv)
    if I.opts.get("index") and r is not None and not b.fn and not I.objs(s, b):
        if m == "reshape" and len(args) == 1 and isinstance(args[0], V) and args[0].seq is not None and len(args[0].seq) == 2:
            args = list(args[0].seq)
        pandas_like, m_args = b.is_("DataFrame") or b.is_("Series"), {}
        if m in ("std", "var") and "ddof" not in kw:
            if pandas_like:
                m_args["ddof"] = K(1)
            elif not b.is_("ndarray"):
                return r
        if m in ("sum", "mean", "std", "var", "min", "max", "median", "prod", "quantile") and b.is_("DataFrame") and "axis" not in kw and (not args or m == "quantile"):
            m_args["axis"] = K(0)
        kw = {**kw, **m_args}
        if m in AXIS_KEPT | REDUCE | {"reshape", "ravel", "flatten"} and all(isinstance(x, V) for x in args):
            r = named(I, s, m, True, [b] + list(args), kw, r)
        if m == "dot" and len(args) == 1 and r.one() is None:
            r = r.but(vid=vn("MatMult", I.N(b, s).vid, I.N(args[0], s).vid))
    return r


def method0(I, s, b, m, args, kw, e, fv=None):
    pos = [a for a in args if isinstance(a, V)]
    vs = [a[1] if isinstance(a, tuple) else a for a in args] + list(kw.values())
    if b.attrs and b.attrs.get("logger"):
        I.emit("log", method=m, args=pos)
        return NONE
    for f in b.fn:
        if f[0] == "lib" and "ogger" in f[1]:
            return NONE
    if b.attrs and b.attrs.get("rng"):
        I.emit("draw", rng=b, method=m, kw=kw, state=s)
        if m in ("shuffle",):
            I.mutate(s, pos[0], "rng.shuffle")
        r = unknown(I, s, [b] + vs, "draw:" + m)
        if m in ("spawn", "bit_generator"):
            return r.but(attrs={"rng": True})
        mu = b.must
        return r.but(vid=vn("draw", m, getattr(e, "lineno", 0), getattr(e, "col_offset", 0), I.frame.stack()), nty=NN, tags=F(["random"]), may=r.may | F(["draw"]), deg=degtop(flat(I, s, vs)), ax=F().union(*[v.ax for v in flat(I, s, vs)]) if vs else _EMPTY)
    if m in LOGNAMES and b.ty is None and not b.reg and not b.may:
        return NONE
    objs = I.objs(s, b)
    kinds = {o.kind for _, o in objs}
    # a callable stored on an abstract object (or unknown package method)
    if m == "__setattr__" and len(pos) >= 2:
        if len(pos) == 3:     # object.__setattr__(self, name, value)
            nm = pos[1].one()
            I.setattr(s, pos[0], nm[0] if nm else "?", pos[2], how="object.__setattr__")
        else:
            nm = pos[0].one()
            I.setattr(s, b, nm[0] if nm else "?", pos[1])
        return NONE
    if kinds & {"list", "set"} or (b.ty is not None and b.ty <= {"list", "set"}):
        if m == "append" or m == "add":
            I.list_append(s, b, pos[0])
            return NONE
        if m == "extend" or m == "update":
            I.list_extend(s, b, pos[0])
            return NONE
        if m == "insert":
            I.list_append(s, b, pos[1], front=pos[0].one() == (0,))
            return NONE
        if m == "pop":
            it = I.known_items(b, s)
            if it and len(b.reg) == 1:
                c = pos[0].one() if pos else (-1,)
                if c is not None and isinstance(c[0], int) and -len(it) <= c[0] < len(it):
                    r = next(iter(b.reg))
                    it = list(it)
                    x = it.pop(c[0])
                    s.heap[r] = s.heap[r].but(seq=tuple(it), nonempty=bool(it))
                    I.mutate(s, b, "pop")
                    return x
            I.mutate(s, b, "pop")
            return I.elem_of(b, s)
        if m in ("remove", "clear", "sort", "reverse", "discard"):
            if m == "clear":
                for r, o in objs:
                    s.heap[r] = o.but(seq=(), elem=None, nonempty=False, must=_EMPTY)
            elif m in ("sort", "reverse", "remove", "discard"):
                for r, o in objs:
                    if o.seq is not None and len(o.seq) > 1:
                        sm = F().union(*[x.must for x in o.seq]) if m in ("sort", "reverse") else _EMPTY
                        s.heap[r] = o.but(seq=None, elem=join_all(o.seq), must=o.must | sm)
            I.mutate(s, b, m)
            return NONE
        if m == "copy":
            return copyval(I, s, b)
        if m == "index":
            n = I.N(b, s)
            return V(ty=F(["int"]), sign="+", may=n.may | (pos[0].may if pos else _EMPTY), must=(pos[0].must if pos else _EMPTY), vid=vn("index", b.vid, pos[0].vid if pos else 0), tags=pos_tag(I, s, b, pos[0]) if pos else _EMPTY)
        if m == "count":
            return V(ty=F(["int"]), sign="+", vid=vn("count", b.vid))
        if m in ("union", "intersection", "difference", "symmetric_difference"):
            rid = I.new_rid(e, "set")
            for p in pos:
                labcmp(I, b, p)
            s.heap[rid] = Obj("set", elem=join_all([I.elem_of(x, s) for x in [b] + pos]))
            return V(ty=F(["set"]), reg=F([rid]), tags=F(["unordered"]), may=deps(I, s, [b] + pos)[0], vid=vn(m, b.vid, *[p.vid for p in pos]))
        if m in ("issubset", "issuperset", "isdisjoint"):
            for p in pos:
                labcmp(I, b, p)
            return V(ty=F(["bool"]), vid=vn(m, b.vid, *[p.vid for p in pos]))
    if kinds & {"dict", "sol"} or (b.ty is not None and b.ty <= {"dict"}):
        r = dict_method(I, s, b, m, pos, kw, e, objs)
        if r is not None:
            return r
    if b.ty is not None and b.ty <= {"str"}:
        if m in ("lower", "strip", "upper", "casefold", "title", "lstrip", "rstrip", "replace", "format", "join", "capitalize", "removeprefix", "removesuffix"):
            if b.const is not None and m in ("lower", "upper", "strip", "casefold") and not pos and all(c[0] == "str" for c in b.const):
                cs = F(("str", getattr(c[1], m)()) for c in b.const)
                return b.but(const=cs, vid=vn(m, b.vid))
            return b.but(const=None, vid=vn(m, b.vid, *[p.vid for p in pos]))
        if m in ("startswith", "endswith", "isdigit", "isidentifier", "isnumeric", "isalpha"):
            c = b.one()
            if c is not None and all(p.one() for p in pos):
                try:
                    return K(getattr(c[0], m)(*[p.one()[0] for p in pos]))
                except Exception:
                    pass
            if "fresh-literal" in b.tags:
                return FALSE
            return V(ty=F(["bool"]), may=b.may, vid=vn(m, b.vid))
        if m in ("split", "rsplit", "partition", "splitlines"):
            return V(ty=F(["list"]), elem=V(ty=F(["str"]), may=b.may), may=b.may)
        return V(may=b.may)
    # ---- array / frame methods
    n = I.N(b, s)
    pandas_like = b.ty is not None and b.ty <= {"Series", "DataFrame", "Index"}
    inplace = kw.get("inplace")
    if inplace is not None and inplace.one() != (False,):
        I.mutate(s, b, "%s(inplace)" % m)
        return NONE
    if m in MUT and not (m == "pop" and b.ty is None and not pos) or m in ("pop",):
        if m == "update" and b.ty is None and not b.reg:
            return NONE
        if m in ("add",) and b.ty is not None and b.ty <= {"Series", "DataFrame", "Index"}:
            return binop(I, s, "Add", b, pos[0])
        if m in ("partition", "append", "insert") and b.is_("Index"):
            return b.but(reg=_EMPTY)
        new = join_all(flat(I, s, pos)) if pos and m in ("fill", "put", "itemset", "update", "setdefault", "append", "extend", "insert", "add") else None
        I.mutate(s, b, ".%s()" % m, new)
        for f in b.fn:
            if f[0] == "lib":
                I.emit("globalwrite", target=f[1] + "." + m)
        if m in ("pop", "popitem", "setdefault"):
            return I.elem_of(b, s)
        return NONE
    if m in ("reshape", "ravel", "squeeze", "transpose", "swapaxes", "view"):
        return n.but(const=None, reg=b.reg if b.ty is None or b.ty & {"ndarray", "matrix"} else _EMPTY, ty=b.ty, vid=n.vid if m != "transpose" else vn("T", n.vid))
    if m in ("to_numpy",):
        square(I, b)
        cp = kw.get("copy")
        return n.but(ty=ARR, nty=_EMPTY, reg=_EMPTY if cp is not None and cp.one() == (True,) else b.reg, const=None)
    if m in ("flatten", "tolist", "to_list", "item", "astype", "copy", "round"):
        if m == "copy":
            if objs:
                return copyval(I, s, b)
            if b.ty is None and not b.tags & F(["array"]):
                # ndarray/frame copy is deep, list/dict copy is shallow
                return n.but(reg=F(I.sub(r, "[]") for r in b.reg) if False else _EMPTY, const=b.const)
            return n.but(reg=_EMPTY)
        if m == "astype":
            cp = kw.get("copy")
            return n.but(reg=b.reg if cp is not None and cp.one() == (False,) else _EMPTY, const=None)
        ty = {"flatten": ARR, "tolist": F(["list"]), "to_list": F(["list"]), "item": F(["float"])}.get(m, b.ty)
        if m in ("tolist", "to_list"):
            return V(ty=F(["list"]), elem=n.but(reg=_EMPTY, const=None, lab=_EMPTY), may=n.may, must=n.must, lab=b.lab, ax=n.ax, vid=n.vid, sign=n.sign, pol=n.pol, deg=n.deg, tags=n.tags)
        if m == "round":
            return num(I, s, [b], "round", pol=n.pol, sign=n.sign, deg=deg_top(n.deg), ty=b.ty)
        return n.but(ty=ty, nty=_EMPTY, reg=_EMPTY, const=None, elem=None)
    if m in ("any", "all"):
        ax1 = bool(pos) or "axis" in kw
        sc = F(["bool"]) if b.ty is not None and b.ty <= {"ndarray", "Series"} and not ax1 else None
        return V(ty=sc, nty=NN, may=n.may, must=n.must, cond=cond_quant(n.cond, m), vid=vn(m, n.vid), ax=n.ax if ax1 else _EMPTY)
    if m in ("isna", "isnull", "notna", "notnull"):
        pos_ = m.startswith("not")
        I.nanchk.add((n.vid, n.may, n.ax))
        return V(ty=b.ty, nty=NN, may=n.may, must=n.must, cond=("notnan", n.vid, pos_, "both"), vid=vn(m, n.vid), ax=n.ax)
    if m in REDUCE:
        cond = None
        if m == "sum" and n.cond is not None and len(n.cond) == 4:
            cond = (n.cond[0], n.cond[1], n.cond[2], "count")
        may, must = deps(I, s, [b] + vs)
        ax = n.ax
        full = "axis" not in kw and not pos and not (b.is_("DataFrame"))
        if m in ("sum", "mean", "min", "max", "median", "quantile", "trace") and full:
            ax = _EMPTY
        ty = F(["Series"]) if b.is_("DataFrame") and m in ("sum", "mean", "min", "max", "median") else (b.ty if m in ("head", "tail", "cumsum", "cummax") else (F(["float"]) if b.is_("Series") and full else None))
        kk = [v.vid for v in vs]
        return V(ty=ty, nty=NN if ty is None else _EMPTY, may=may, must=must, sign=n.sign, pol=n.pol, deg=n.deg, ax=ax, cond=cond, vid=vn(m, n.vid, *kk), tags=F(t for t in n.tags if t == "finite"))
    if m in ("std", "var"):
        full = "axis" not in kw and not pos
        return num(I, s, [b], m, sign="+", deg=n.deg if m == "std" else deg_pow(n.deg, 2), ax=_EMPTY if full and not b.is_("DataFrame") else n.ax)
    if m in ("cov", "corr") and pandas_like:
        return num(I, s, [b] + pos, m, deg=deg_pow(n.deg, 2) if m == "cov" else {}, ty=F(["DataFrame"]) if b.is_("DataFrame") else None, ax=n.ax)
    if m in ("argmax", "argmin", "argsort", "idxmax", "idxmin", "searchsorted", "nonzero"):
        may, must = deps(I, s, [b] + vs)
        vid = vn(m, n.vid, *[v.vid for k, v in sorted(kw.items()) if k != "kind"])
        return V(ty=ARR if m == "argsort" else None, nty=NN, sign="+", may=may, must=must, deg=cmp_deg(n, I.N(pos[0], s)) if m == "searchsorted" and pos else inv_deg(n.deg), pol=poltop([n], I), vid=vid, lab=_EMPTY, tags=argsort_tag(n, vid) if m == "argsort" else pick_tag(I, n, m, vid) if m in ("argmin", "argmax") else mask_tag(I, n) if m == "nonzero" and not pos else _EMPTY)
    if m in ("dot", "matmul") and pos:
        return binop(I, s, "MatMult", b, pos[0]).but(ty=None, nty=NN)
    if m in ("add", "radd", "sub", "subtract", "mul", "multiply", "div", "divide", "truediv", "pow", "rsub", "rmul", "rdiv") and pos and (pandas_like or b.ty is None):
        op = {"add": "Add", "radd": "Add", "sub": "Sub", "subtract": "Sub", "mul": "Mult", "multiply": "Mult", "div": "Div", "divide": "Div", "truediv": "Div", "pow": "Pow", "rmul": "Mult"}.get(m)
        if op:
            return binop(I, s, op, b, pos[0])
        return binop(I, s, "Sub" if m == "rsub" else "Div", pos[0], b)
    if m == "clip":
        lo, hi = arg(pos, kw, 0, "lower", kw.get("min")), arg(pos, kw, 1, "upper", kw.get("max"))
        return clip(I, s, b, lo, hi)
    if m == "abs":
        return absval(I, s, b).but(ty=b.ty)
    if m in ("reindex", "reindex_like"):
        tgt = None
        for k in ("index", "labels", "columns"):
            if k in kw:
                tgt = kw[k]
        if pos:
            tgt = pos[0]
        setord_use(I, "reindexed to a set order", tgt)
        lab = labof(I, s, tgt)
        if tgt is not None and not lab and tgt.ax and m == "reindex_like":
            lab = tgt.ax
        ax = n.ax
        I.emit("reindex", value=b, target=tgt, fill="fill_value" in kw, vid=vn("reindex", n.vid, tgt.vid if tgt is not None else 0), old=n.ax, new=lab, may=n.may)
        if lab:
            ax = lab | F(x for x in n.ax if x.split(":")[0] not in {y.split(":")[0] for y in lab})
        else:
            ax = _EMPTY
        v = n.but(const=None, reg=_EMPTY, ax=ax, vid=vn("reindex", n.vid, tgt.vid if tgt is not None else 0), ty=b.ty, tags=F(["reindexed"]))
        return v
    if m in ("equals", "isin", "difference", "intersection", "union", "symmetric_difference", "get_indexer", "identical"):
        for p in pos:
            labcmp(I, b, p)
    if m == "equals":
        l1, l2 = b.lab, pos[0].lab if pos else _EMPTY
        if l1 and l2:
            return V(ty=F(["bool"]), cond=("eqlab", (F(l1), F(l2)), True, "both"), vid=vn("equals", b.vid, pos[0].vid))
        return V(ty=F(["bool"]), vid=vn("equals", b.vid, *[p.vid for p in pos]))
    if m in ("keys",) and pandas_like:
        return attr(I, s, b, "columns" if b.is_("DataFrame") else "index")
    if m in ("items", "iteritems") and (pandas_like or b.ty is None or b.ty & {"dict"}):
        k = V(may=b.may, must=b.must, lab=_EMPTY, vid=vn("key", b.vid), tags=F(["key"]))
        x = I.elem_of(b, s)
        if b.ax and not objs:
            l = (F(y for y in b.ax if y.startswith("port:")) or b.ax) if b.is_("DataFrame") else b.ax
            if len(cls_of(l)) == 1:
                k = k.but(tags=k.tags | {("item", l)})
        return V(ty=F(["other"]), elem=V(ty=F(["tuple"]), seq=(k, x), vid=vn("item", b.vid)), may=b.may, must=b.must, vid=vn("items", b.vid), tags=b.tags & F(["nonempty"]))
    if m in ("keys", "values") and (b.ty is None or b.ty & {"dict"}):
        x = I.elem_of(b, s) if m == "values" else V(may=b.may, must=b.must, vid=vn("key", b.vid))
        return V(ty=F(["other"]), elem=x, may=b.may, must=b.must, vid=vn(m, b.vid), tags=b.tags & F(["nonempty"]), lab=b.ax if m == "keys" else _EMPTY)
    if m == "get" and pos:
        x = getitem(I, s, b, pos[0]) if not objs else by_item(I.elem_of(b, s), pos[0])
        return join(x, pos[1] if len(pos) > 1 else NONE)
    if m in ("sort_index",):
        return n.but(const=None, reg=_EMPTY, ax=derived(n.ax, "sorted") if b.is_("Series") else _EMPTY, vid=vn(m, n.vid), ty=b.ty)
    if m in PURE_PD:
        if m in ("fillna", "dropna", "ffill", "bfill", "interpolate"):
            I.nanchk.add((n.vid, n.may, n.ax))
        r = n.but(const=None, reg=_EMPTY, vid=vn(m, n.vid, *[v.vid for v in vs]), ty=b.ty if m not in ("to_frame",) else F(["DataFrame"]))
        if m in ("sort_values", "drop", "groupby", "apply", "agg", "transform", "map"):
            r = r.but(sign=None)
        if m == "sort_values":
            r = r.but(ax=derived(n.ax, vn("sv", n.vid)) if b.is_("Series") else _EMPTY)
        if m in ("rename", "to_frame", "rename_axis", "infer_objects"):
            r = r.but(vid=n.vid)
        if m in ("dropna",):
            r = r.but(vid=vn(m, n.vid))
            s.facts = s.facts | {("notnan", r.vid)}
        may, must = deps(I, s, [b] + vs)
        return r.but(may=may, must=must)
    if m in ("isin", "duplicated", "unique", "nunique", "is_unique"):
        return V(nty=NN, may=n.may, must=n.must, vid=vn(m, n.vid, *[v.vid for v in vs]))
    if m in ("__len__",):
        return V(ty=F(["int"]), sign="+", vid=vn("len", b.vid))
    if m in ("get_loc", "get_indexer", "get_indexer_for"):
        may, must = deps(I, s, [b] + vs)
        return V(nty=NN, may=may, must=must, vid=vn(m, b.vid, *[v.vid for v in vs]), ty=F(["int"]) if m == "get_loc" else ARR, tags=pos_tag(I, s, b, pos[0]) if pos else _EMPTY)
    if m in ("to_dict",):
        d = I.new_dict(s, {}, e, n.but(reg=_EMPTY), None, False)
        r = next(iter(d.reg))
        s.heap[r] = s.heap[r].but(must=n.must, may=n.may)
        return d.but(ax=n.ax, may=n.may, must=n.must)
    if m in ("append",):
        I.mutate(s, b, ".append()")
        return NONE
    # stored callable / unknown method: external call
    if fv is not None:
        if I.opts.get("implicit"):
            I.raise_exc(s, "?")
        I.emit("extcall", fn=fv, args=args, kw=kw)
        return unknown(I, s, [b, fv] + vs, "m:" + m)
    I.unknown["." + m] = I.unknown.get("." + m, 0) + 1
    I.emit("extmethod", recv=b, method=m, args=args, kw=kw)
    return unknown(I, s, [b] + vs, "m:" + m).but(reg=_EMPTY)


def dict_method(I, s, b, m, pos, kw, e, objs):
    if m == "copy":
        return copyval(I, s, b)
    os = [o for _, o in objs if o.kind in ("dict", "sol")]
    if m == "get" and pos:
        c = ckey(pos[0])
        alts = []
        for o in os:
            if c is not None and o.keys is not None and c[0] in o.keys:
                x = o.keys[c[0]]
                if "maybe-absent" in x.tags:
                    x = join(x.but(tags=x.tags - {"maybe-absent"}), pos[1] if len(pos) > 1 else NONE)
                alts.append(x)
            elif c is not None and o.elem is None and o.keys is not None or ("fresh-literal" in pos[0].tags and o.elem is None):
                alts.append(pos[1] if len(pos) > 1 else NONE)
            else:
                x = join_all([v for v in list((o.keys or {}).values()) + [o.elem] if v is not None] or [V()])
                alts.append(join(x.but(may=x.may | pos[0].may), pos[1] if len(pos) > 1 else NONE))
        if not os:
            x = I.elem_of(b, s)
            alts.append(join(x, pos[1] if len(pos) > 1 else NONE))
        return join_all(alts)
    if m == "items":
        it = I.dict_items(b, s)
        if it is not None:
            q = tuple(V(ty=F(["tuple"]), seq=(k, v), vid=vn("kv", k.vid, v.vid)) for k, v in it)
            return V(ty=F(["other"]), seq=q, vid=vn("items", b.vid))
        k, x = I.elem_of(b, s), None
        vs = [v for o in os for v in list((o.keys or {}).values()) + ([o.elem] if o.elem is not None else [])]
        x = join_all(vs) if vs else I.elem_of(b, s)
        n = I.N(b, s)
        return V(ty=F(["other"]), elem=V(ty=F(["tuple"]), seq=(k, x), vid=vn("kv", b.vid)), may=n.may, must=n.must, vid=vn("items", b.vid), tags=F(["nonempty"]) if I.nonempty(b, s) else _EMPTY)
    if m == "values":
        it = I.dict_items(b, s)
        if it is not None:
            return V(ty=F(["other"]), seq=tuple(v for _, v in it), vid=vn("values", b.vid))
        vs = [v for o in os for v in list((o.keys or {}).values()) + ([o.elem] if o.elem is not None else [])]
        n = I.N(b, s)
        return V(ty=F(["other"]), elem=join_all(vs) if vs else I.elem_of(b, s), may=n.may, must=n.must, vid=vn("values", b.vid), tags=F(["nonempty"]) if I.nonempty(b, s) else _EMPTY)
    if m == "keys":
        it = I.dict_items(b, s)
        if it is not None:
            return V(ty=F(["other"]), seq=tuple(k for k, _ in it), vid=vn("keys", b.vid))
        return V(ty=F(["other"]), elem=I.elem_of(b, s), may=b.may, vid=vn("keys", b.vid))
    if m == "update":
        src_ = pos[0] if pos else None
        for r, o in objs:
            if o.kind != "dict":
                continue
            keys = dict(o.keys or {})
            elem, kel, must, ne = o.elem, o.kelem, o.must, o.nonempty
            if src_ is not None:
                so = [x for _, x in I.objs(s, src_) if x.kind == "dict"]
                if so and len(so) == len(src_.reg):
                    keys.update(so[0].keys or {})
                    if so[0].elem is not None:
                        elem = so[0].elem if elem is None else join(elem, so[0].elem)
                        kel = so[0].kelem if kel is None else kel
                    must |= so[0].must
                    ne = ne or so[0].nonempty
                else:
                    x = I.elem_of(src_, s)
                    elem = x if elem is None else join(elem, x)
                    must |= I.N(src_, s).must
            keys.update({k: v for k, v in kw.items() if k != "**"})
            s.heap[r] = o.but(keys=keys, elem=elem, kelem=kel, must=must, nonempty=ne or bool(keys))
        for f in b.fn:
            if f[0] == "lib":
                I.emit("globalwrite", target=f[1] + ".update")
        I.mutate(s, b, ".update()")
        return NONE
    if m in ("pop", "setdefault", "popitem", "clear", "__setitem__", "__delitem__"):
        c = ckey(pos[0]) if pos else None
        res = None
        for r, o in objs:
            keys = dict(o.keys or {})
            if m == "clear":
                s.heap[r] = o.but(keys={}, elem=None, kelem=None, nonempty=False, must=_EMPTY)
                continue
            if m == "setdefault" and c is not None:
                if c[0] in keys:
                    res = keys[c[0]]
                else:
                    d = pos[1] if len(pos) > 1 else NONE
                    if o.elem is not None:
                        d = join(d, o.elem)
                    keys[c[0]] = d
                    res = d
                s.heap[r] = o.but(keys=keys, nonempty=True)
            elif m == "pop" and c is not None:
                if c[0] in keys:
                    res = keys.pop(c[0])
                    if "maybe-absent" in res.tags:
                        res = join(res.but(tags=res.tags - {"maybe-absent"}), pos[1]) if len(pos) > 1 else res
                    s.heap[r] = o.but(keys=keys, nonempty=bool(keys))
                elif o.elem is None:
                    res = pos[1] if len(pos) > 1 else V()
                else:
                    res = join(o.elem, pos[1]) if len(pos) > 1 else o.elem
            else:
                res = I.elem_of(b, s)
                vs = [v for v in list(keys.values()) + ([o.elem] if o.elem is not None else [])]
                if vs:
                    res = join_all(vs)
                    if len(pos) > 1:
                        res = join(res, pos[1])
        for f in b.fn:
            if f[0] == "lib":
                I.emit("globalwrite", target=f[1] + "." + m)
        I.mutate(s, b, ".%s()" % m)
        if res is None:
            res = I.elem_of(b, s) if m != "clear" else NONE
            if m in ("pop", "setdefault") and len(pos) > 1:
                res = join(res, pos[1])
        return res
    return None
