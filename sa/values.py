"""Product abstract domain.

Every abstract value V carries, for one expression:
 ty/nty   type set (None = any) / excluded types          const  small set of known constants
 reg      memory regions it may share (aliasing)          may/must  data-dependence sources (some path / every path)
 sign     value sign: '+' >=0, '-' <=0, '0', None         pol    monotone direction in each source: '+','-','?'
 deg      degree of homogeneity in each source ('T'=none)  lab/ax label orders the value is / is indexed by
 tags     must-hold typestate tags                        fn     callables it may be
 seq/elem known items / summary item                      vid    global value number (identity conversions keep it)
 cond     predicate a boolean value stands for
"""
from fractions import Fraction

_EMPTY = frozenset()
ALLT = ("None", "bool", "int", "float", "str", "ndarray", "Series", "DataFrame", "Index", "list", "tuple", "dict", "set", "callable", "matrix", "obj", "other")
IMM = frozenset(["None", "bool", "int", "float", "str", "callable"])

_vn = {}
_terms = {}


def vn(*term):
    """hash-consed value number of a term"""
    k = _vn.get(term)
    if k is None:
        k = _vn[term] = len(_vn) + 1
        _terms[k] = term
    return k


def term(vid):
    return _terms.get(vid, ())


class V:
    __slots__ = ("ty", "nty", "const", "reg", "may", "must", "sign", "pol", "deg", "lab", "ax", "tags", "fn", "seq", "elem", "vid", "cond", "attrs", "_h")

    def __init__(self, ty=None, nty=_EMPTY, const=None, reg=_EMPTY, may=_EMPTY, must=_EMPTY, sign=None, pol=None, deg=None,
                 lab=_EMPTY, ax=_EMPTY, tags=_EMPTY, fn=_EMPTY, seq=None, elem=None, vid=0, cond=None, attrs=None):
        self.ty, self.nty, self.const, self.reg, self.may, self.must = ty, nty, const, reg, may, must
        self.sign, self.pol, self.deg, self.lab, self.ax, self.tags = sign, pol or {}, deg or {}, lab, ax, tags
        self.fn, self.seq, self.elem, self.vid, self.cond, self.attrs = fn, seq, elem, vid, cond, attrs
        self._h = None

    def but(self, **kw):
        n = V.__new__(V)
        for s in V.__slots__:
            setattr(n, s, kw[s] if s in kw else getattr(self, s))
        n._h = None
        return n

    def excl(self, t):
        if self.ty is not None:
            return t not in self.ty
        return t in self.nty

    def is_(self, t):
        return self.ty is not None and self.ty == frozenset([t])

    def none(self):
        """'y' definitely None, 'n' definitely not, '?'"""
        if self.excl("None"):
            return "n"
        if self.is_("None"):
            return "y"
        return "?"

    def one(self):
        """the single known constant (as a 1-tuple) or None"""
        if self.const is not None and len(self.const) == 1:
            return (next(iter(self.const))[1],)
        return None

    def __repr__(self):
        b = []
        if self.ty is not None:
            b.append("|".join(sorted(self.ty)))
        if self.const is not None:
            b.append("=" + ",".join(repr(c[1]) for c in sorted(self.const, key=repr)))
        for n in ("sign", "reg", "may", "must", "pol", "deg", "lab", "ax", "tags"):
            v = getattr(self, n)
            if v:
                b.append("%s:%s" % (n, sorted(map(str, v)) if isinstance(v, frozenset) else v))
        if self.fn:
            b.append("fn%s" % list(self.fn))
        if self.seq is not None:
            b.append("seq%d" % len(self.seq))
        return "V(" + " ".join(b) + ")"


class Obj:
    """Heap object. kind: list|dict|set|obj|sol|clos|ext"""
    __slots__ = ("kind", "seq", "elem", "keys", "kelem", "attrs", "cls", "nonempty", "may", "must", "tags")

    def __init__(self, kind, seq=None, elem=None, keys=None, kelem=None, attrs=None, cls=None, nonempty=False, may=_EMPTY, must=_EMPTY, tags=_EMPTY):
        self.kind, self.seq, self.elem, self.keys, self.kelem = kind, seq, elem, keys, kelem
        self.attrs, self.cls, self.nonempty, self.may, self.must, self.tags = attrs, cls, nonempty, may, must, tags

    def but(self, **kw):
        n = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(n, s, kw[s] if s in kw else getattr(self, s))
        return n


def tyname(c):
    if c is None:
        return "None"
    return {bool: "bool", int: "int", float: "float", str: "str"}.get(type(c), "other")


def K(c):
    t = tyname(c)
    s = None
    if t in ("int", "float", "bool"):
        s = "0" if c == 0 else ("+" if c > 0 else ("-" if c < 0 else None))
    return V(ty=frozenset([t]), const=frozenset([(t, c)]), sign=s, vid=vn("k", t, repr(c)))


def KS(*cs):
    t = frozenset(tyname(c) for c in cs)
    return V(ty=t, const=frozenset((tyname(c), c) for c in cs), vid=vn("ks", repr(cs)))


NONE = K(None)
TRUE, FALSE = K(True), K(False)
BOOL = V(ty=frozenset(["bool"]))


def src(name, ty=None, nty=_EMPTY, **kw):
    """a fresh source value"""
    s = frozenset([name])
    kw.setdefault("pol", {name: "+"})
    kw.setdefault("deg", {name: Fraction(1)})
    kw.setdefault("vid", vn("src", name))
    return V(ty=frozenset([ty]) if isinstance(ty, str) else (frozenset(ty) if ty else None), nty=frozenset(nty), may=s, must=s, **kw)


# ---- sign / polarity / degree arithmetic -------------------------------------------------
def s_neg(s):
    return {"+": "-", "-": "+", "0": "0"}.get(s)


def s_join(a, b):
    if a == b:
        return a
    if a == "0" and b in "+-" if b else False:
        return b
    if b == "0" and a in "+-" if a else False:
        return a
    return None


def s_add(a, b):
    return s_join(a, b)


def s_mul(a, b):
    if a == "0" or b == "0":
        return "0"
    if a is None or b is None:
        return None
    return "+" if a == b else "-"


def p_neg(p):
    return {"+": "-", "-": "+", "?": "?"}[p]


def pol_neg(p):
    return {k: p_neg(v) for k, v in p.items()}


def pol_add(a, b):
    if not b:
        return a
    if not a:
        return b
    o = dict(a)
    for k, v in b.items():
        o[k] = v if k not in o or o[k] == v else "?"
    return o


def pol_scale(p, sign):
    if sign == "+":
        return p
    if sign == "-":
        return pol_neg(p)
    if sign == "0":
        return {}
    return {k: "?" for k in p}


def pol_mul(a, b):
    o = {}
    for k in set(a.pol) | set(b.pol):
        ia, ib = k in a.pol, k in b.pol
        if ia and not ib:
            r = pol_scale({k: a.pol[k]}, b.sign).get(k)
        elif ib and not ia:
            r = pol_scale({k: b.pol[k]}, a.sign).get(k)
        else:
            x = pol_scale({k: a.pol[k]}, b.sign).get(k)
            y = pol_scale({k: b.pol[k]}, a.sign).get(k)
            r = x if x == y else (x if y is None else (y if x is None else "?"))
        if r:
            o[k] = r
    return o


def pol_div(a, b):
    o = {}
    for k in set(a.pol) | set(b.pol):
        ia, ib = k in a.pol, k in b.pol
        if ia and not ib:
            r = pol_scale({k: a.pol[k]}, b.sign).get(k)
        elif ib and not ia:
            s = a.sign
            r = pol_scale({k: p_neg(b.pol[k])}, s).get(k)
        else:
            r = "?"
        if r:
            o[k] = r
    return o


def is_zero(v):
    return v.sign == "0" or (v.tags and "zero" in v.tags)


def tiny(v):
    if v.tags and "tiny" in v.tags:
        return True
    o = [c[1] for c in v.const or ()]
    return bool(o) and all(isinstance(x, (int, float)) and abs(x) <= 1e-5 for x in o) and any(o)


def deg_same(a, b):
    """degree of a+b / join(a,b): equal degrees, with exact zeros and epsilon constants neutral"""
    if is_zero(a) or (tiny(a) and not tiny(b)):
        return b.deg
    if is_zero(b) or tiny(b):
        return a.deg
    o = {}
    for k in set(a.deg) | set(b.deg):
        x, y = a.deg.get(k, 0), b.deg.get(k, 0)
        o[k] = x if x == y else "T"
    return o


def deg_mul(a, b, sg=1):
    # (a degree that comes out as zero stays recorded: the value is known not to change under that scaling)
    o = {}
    for k in set(a) | set(b):
        x, y = a.get(k, 0), b.get(k, 0)
        o[k] = "T" if "T" in (x, y) else x + sg * y
    return o


def deg_pow(a, e):
    return {k: ("T" if v == "T" else v * e) for k, v in a.items()}


def deg_top(a):
    return {k: ("T" if v else v) for k, v in a.items()}


def vid_join(a, b):
    return a if a == b else vn("phi", *sorted((a, b)))


def join_seq(a, b, st=None):
    if a is not None and b is not None and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    return None


def join(a, b):
    if a is b:
        return a
    ty = None if a.ty is None or b.ty is None else a.ty | b.ty
    nty = _EMPTY
    if ty is None:
        nty = frozenset(t for t in (a.nty | b.nty | frozenset(["None"])) if a.excl(t) and b.excl(t))
    const = None
    if a.const is not None and b.const is not None:
        const = a.const | b.const
        if len(const) > 10:
            const = None
    # None contributes nothing numerically
    if a.is_("None"):
        x, y = b, a
    else:
        x, y = a, b
    if y.is_("None") and not x.is_("None"):
        sign, pol, deg = x.sign, x.pol, x.deg
        ax, lab = x.ax, x.lab
    else:
        sign, pol, deg = s_join(a.sign, b.sign), pol_add(a.pol, b.pol), deg_same(a, b)
        ax, lab = a.ax | b.ax, a.lab | b.lab
    seq = join_seq(a.seq, b.seq)
    elem = None
    if seq is None:
        es = [e for v in (a, b) for e in ([v.elem] if v.elem is not None else []) + list(v.seq or ())]
        for e in es:
            elem = e if elem is None else join(elem, e)
    cond = a.cond if a.cond == b.cond else None
    attrs = a.attrs if a.attrs == b.attrs else None
    tags = a.tags & b.tags
    if a.tags != b.tags:
        if y.is_("None") and not x.is_("None"):
            tags = x.tags
        elif "tiny" in a.tags | b.tags and (tiny(a) or is_zero(a)) and (tiny(b) or is_zero(b)):
            tags |= {"tiny"}
    return V(ty=ty, nty=nty, const=const, reg=a.reg | b.reg, may=a.may | b.may, must=a.must & b.must, sign=sign, pol=pol, deg=deg,
             lab=lab, ax=ax, tags=tags, fn=a.fn | b.fn, seq=seq, elem=elem, vid=vid_join(a.vid, b.vid), cond=cond, attrs=attrs)


def join_all(vs):
    o = None
    for v in vs:
        o = v if o is None else join(o, v)
    return o


def same(a, b, depth=0):
    """structural equality (for fixpoints)"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    for s in ("ty", "nty", "const", "reg", "may", "must", "sign", "pol", "deg", "lab", "ax", "tags", "fn"):
        if getattr(a, s) != getattr(b, s):
            return False
    if (a.seq is None) != (b.seq is None):
        return False
    if a.seq is not None:
        if len(a.seq) != len(b.seq) or (depth < 4 and not all(same(x, y, depth + 1) for x, y in zip(a.seq, b.seq))):
            return False
    if a.elem is not None or b.elem is not None:
        return depth > 3 or same(a.elem, b.elem, depth + 1)
    return True


def ckey(v):
    """the concrete dict key `v` is known to be (as a 1-tuple), or None"""
    c = v.one()
    if c is not None:
        return c if isinstance(c[0], (str, int, float, bool, type(None))) else None
    if v.seq and v.ty == frozenset(["tuple"]) and not v.reg:
        q = [ckey(x) for x in v.seq]
        return (tuple(x[0] for x in q),) if all(q) else None
    return None
