"""P09: the optimisers hand the solver the documented problem, and report the documented numbers about its solution."""
import itertools
from .common import *
from sa.values import *
from sa import drive, scen
from sa.terms import *
from sa.blocks import Blocks, Broken, Mat, Unknown, STACKV, STACKH, rows, split, num, ONE as D1, ZERO as D0, SAMPLE

PRE = '''
import numpy as np
from pyvallocation.optimization import MeanVariance, MeanCVaR, RobustOptimizer, RelaxedRiskParity
'''
SHAPES = {"mu": ("N",), "S": ("N", "N"), "R": ("T", "N"), "p": ("T",), "G": ("K", "N"), "h": ("K",), "A": ("M", "N"), "b": ("M",), "w0": ("N",), "c": ("N",), "rb": ("N",), "t": (), "l1": (), "l2": (), "mt": (), "lam": (), "alpha": (), "g": (), "s": (), "rf": ()}
HALF = Fraction(1, 2)
POS = {"alpha", "lam", "g", "s", "l1", "l2", "mt", "N", "T", "K", "M"}
TINY = Fraction(1, 100000)


# ------------------------------------------------------------------ names
def jitter(v, depth=0):
    """a factor of at most 1e-5, which only repairs numerical definiteness"""
    t = term(v)
    if not t or depth > 30:
        return False
    go = lambda x: isinstance(x, int) and jitter(x, depth + 1)
    c = const(v)
    if c is not None:
        return 0 <= c <= TINY
    if t[0] in ("Mult", "min"):
        return any(go(x) for x in t[1:])
    if t[0] in ("Div", "float", "N", "Ns"):
        return go(t[1])
    if t[0] in ("max", "phi", "Add"):
        return all(go(x) for x in t[1:] if isinstance(x, int))
    return grown(t, v)


def grown(t, v):
    """a jitter that a loop makes larger step by step"""
    todo, seen = [v], set()
    while todo and t[0] == "loop":
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        c = const(y)
        if c is not None and 0 < c <= TINY:
            return True
        todo += [z for z in (term(y) or ())[1:] if isinstance(z, int)]
    return False


def ridge(B, v):
    t = term(v)
    if t and t[0] == "Mult" and len(t) == 3:
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            q = term(a)
            if q and q[0] in ("numpy.eye", "numpy.identity") and B.shape(a) is not None and jitter(b):
                return True
    return False


def solution(v):
    t = term(v)
    while t and t[0] in ("N", "Ns") and isinstance(t[1], int):
        t = term(t[1])
    if t and t[0] == "phi":
        return all(solution(y) for y in t[1:] if isinstance(y, int))
    return bool(t) and t[0] == "solx"


def total(B, p):
    """the sum of the entries of a vector"""
    out = Poly()
    for m, c in p.items():
        u, r = B.N.split(m)
        fs = sorted(r, key=canon)
        if len(fs) == 1 and fs[0][1] == 2:
            x = B.N.matmul(atom(fs[0][0]), atom(fs[0][0]))
        elif len(fs) == 2 and all(e == 1 for _, e in fs):
            x = min((B.N.matmul(atom(a), atom(b)) for a, b in (fs, fs[::-1]) for a, b in ((a[0], b[0]),)), key=lambda q: canon(q.key()))
        elif not fs:
            return atom(("?", "sum of a constant"))
        else:
            a = ("f", "sum", Poly({r: Fraction(1)}).key())
            B.N.scalars.add(a)
            x = atom(a)
        out = padd(out, pmul(Poly({u: c}), x))
    return out


def extra(B, v, t):
    if ridge(B, v):
        return Poly()
    if t[0] == "Sub" and len(t) == 3 and ridge(B, t[2]):
        p = B.N(t[1])
        return None if p is None else padd(p, atom("ridge"), -1)
    if t[0] in ("abs", "numpy.abs") and len(t) == 2:
        p = B.N(t[1])
        if p is None or opaque(p):
            return None
        if len(p) == 1 and all(a in POS for a, _ in next(iter(p))):
            return p if next(iter(p.values())) > 0 else neg(p)
        a = ("f", "abs", p.key())
        if B.shape(t[1]) == ():
            B.N.scalars.add(a)
        return atom(a)
    if t[0] == "chol":
        p = B.N(t[1])
        return "L" if p is not None and p.key() == atom("S").key() else None
    if solution(v):
        return "x"
    if t[0] == "get" and len(t) == 3 and solution(t[1]):
        try:
            o, w = B.span(t[2], atom("end"))
        except Unknown:
            return None
        return atom(("x", o.key(), w.key()))
    if t[0] == "Mult" and len(t) == 3:      # the identity times a vector
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            q, s = term(a), B.shape(b)
            if q and q[0] in ("numpy.eye", "numpy.identity") and s and len(s) == 1:
                p = B.N(b)
                return None if p is None or opaque(p) else B.N.diag(p)
    if t[0] in ("MatMult", "numpy.dot") and len(t) == 3:
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            q, s = term(a), B.shape(a)
            if s and len(s) == 1 and q and q[0] in ("numpy.ones", "full"):
                p, f = B.N(b), B.N(a)
                if p is None or opaque(p) or f is None or opaque(f) or not solution(b) and len(B.shape(b) or (1, 1)) != 1:
                    return ("?", v)
                return pmul(f, total(B, p))
    if t[0] == "sum" and len(t) == 2:
        p = B.N(t[1])
        return None if p is None or opaque(p) else total(B, p)
    if t[0] in ("max", "min", "mean") and len(t) == 2:
        p = B.N(t[1])
        if p is None or opaque(p):
            return None
        a = ("f", t[0], p.key())
        B.N.scalars.add(a)
        return a
    if t[0] == "get" and len(t) == 3 and index(t[2]):
        q = term(t[1])
        if q and q[0] == "full":
            return B.N(q[1])
        if sources(t[1]) != {"rb"}:
            return None
        got = [B.N(x) for x in (q[1:] if q[0] == "phi" else (t[1],)) if isinstance(x, int)]
        if any(p is None or opaque(p) for p in got):
            return "rbi"
        tot = ("f", "sum", atom("rb").key())
        bad = [p for p in got if p.key() not in (atom("rb").key(), pmul(atom("rb"), ppow(atom(tot), Fraction(-1))).key())]
        return "an entry of " + bad[0].show() if bad else "rbi"
    if t[0] == "attr" and len(t) == 3 and t[2] in ("start", "stop") and term(t[1]) and term(t[1])[0] == "slice":
        y = term(t[1])[1 if t[2] == "start" else 2]
        return B.N(y) if term(y)[:2] != ("k", "None") else None
    if t[0] == "clip" and len(t) >= 3 and const(t[2]) == 0:
        return B.N(t[1])
    if index(v):
        return "i"
    if t[0] == "solprimal objective":
        return "best"
    if t[0] in ("el", "ei", "loop") and len(t) == 2:
        q = term(t[1])
        while q and q[0] in ("get", "N", "Ns") and isinstance(q[1], int):
            q = term(q[1])
        if q and q[0] in ("linspace", "numpy.linspace"):
            lo, hi = B.N(q[1]), B.N(q[2])
            if lo is None or hi is None or opaque(lo) or opaque(hi):
                return None
            ok = hi.key() == neg(atom("best")).key() and lo.key() in LOWEST
            a = "tgrid" if ok else "grid from %s to %s" % (lo.show(), hi.show())
            B.N.scalars.add(a)
            return a
        if B.shape(t[1]) and len(B.shape(t[1])) == 2:
            return B.N(t[1])        # one of the rows
    return None


def index(v):
    """the counter of a loop over the assets"""
    t = term(v)
    if t and t[0] in ("el", "ei", "loop") and len(t) == 2:
        q = term(t[1])
        return bool(q) and q[0] == "range"
    return bool(t) and t[0] == "ri"


VECS = {a for a, s in SHAPES.items() if len(s) == 1} | {"x"}


def NV():
    return Norm(lambda v, t: None, sym={"S"}, vecs=VECS)


def _lowest():
    N = NV()
    out = set()
    for x in ("x", ("x", D0.key(), atom("N").key())):
        for m in (atom("mu"), MM("p", "R")):
            out.add(N.matmul(m, atom(x)).key())
    return out


LOWEST = set()


def blocks():
    LOWEST.update(LOWEST or _lowest())
    B = Blocks(SHAPES, extra, scalars={"rbi", "i", "best"}, sym={"S"})
    B.N.vecs |= VECS
    return B


# ------------------------------------------------------------------ documented problems
def P_(s):
    """small formulas: sums of +-coefficient*atoms written as 'coef name*name^e'"""
    return s


class Problem:
    def __init__(self, vars):
        self.vars = vars                # [(name, width)]
        self.c, self.ineq, self.eq, self.cones = {}, [], [], []
        self.P = None
        self.some, self.some_eq, self.maybe_eq = [], [], []

    def at(self, order):
        out, o = {}, D0
        for v, w in order:
            out[v] = (o, w)
            o = padd(o, w)
        return out, o

    def orders(self):
        head, rest = self.vars[:1], self.vars[1:]
        return [head + list(p) for p in itertools.permutations(rest)] if len(rest) <= 5 else [self.vars]


def n_(a):
    return atom(a)


def base(vs):
    return Problem([(a, w) for a, w in vs])


Nn, Tt, Kk, Mm = n_("N"), n_("T"), n_("K"), n_("M")
I, one = n_("I"), k(1)
neg = lambda p: pmul(k(-1), p)


def user(pr, G, A, some=False):
    """some: rows that are written on some paths only (blocks without rows are left out)"""
    if G:
        (pr.some if some else pr.ineq).append((Kk, {"w": n_("G")}, n_("h")))
    if A:
        (pr.some_eq if some else pr.eq).append((Mm, {"w": n_("A")}, n_("b")))


def costs(pr):
    pr.ineq += [(Nn, {"u+": neg(I)}, Poly()), (Nn, {"u-": neg(I)}, Poly())]
    pr.eq.append((Nn, {"w": I, "u+": neg(I), "u-": I}, n_("w0")))
    pr.c.update({"u+": n_("c"), "u-": n_("c")})


def mean_variance(G, A, C, t):
    pr = base([("w", Nn)])
    pr.P = pmul(k(2), n_("S"))
    if C:
        d = n_(("f", "diag", n_("c").key()))
        pr.P = padd(pr.P, pmul(k(2), d))
        pr.c["w"] = pmul(k(-2), NV().matmul(d, n_("w0")))
        pr.c2 = {"w": pmul(k(-2), pmul(n_("c"), n_("w0")))}
    user(pr, G, A)
    if t is not None:
        pr.ineq.append((one, {"w": neg(n_("mu"))}, neg(t)))
    return pr


def mean_cvar(G, A, C, t):
    pr = base([("w", Nn), ("var", one), ("xi", Tt)] + [("u+", Nn), ("u-", Nn)] * C)
    pr.c.update({"var": one, "xi": pmul(n_("p"), ppow(n_("alpha"), Fraction(-1)))})
    pr.ineq += [(Tt, {"w": neg(n_("R")), "var": neg(one), "xi": neg(I)}, Poly()), (Tt, {"xi": neg(I)}, Poly())]
    if C:
        costs(pr)
    user(pr, G, A)
    if t is not None:
        pr.ineq.append((one, {"w": neg(MM("p", "R"))}, neg(t)))
    return pr


def MM(a, b):
    return NV().matmul(n_(a), n_(b))


def robust(G, A, C, lam, s=None):
    pr = base([("w", Nn), ("risk", one)] + [("u+", Nn), ("u-", Nn)] * C)
    pr.c.update({"w": neg(n_("mu")), "risk": lam})
    if C:
        costs(pr)
    user(pr, G, A)
    if s is not None:
        pr.ineq.append((one, {"risk": one}, ppow(s, HALF)))
    pr.cones.append([(one, {"risk": neg(one)}, Poly()), (Nn, {"w": neg(n_(("T", "L")))}, Poly())])
    return pr


def risk_parity(G, A, lam, t, rb):
    pr = base([("w", Nn), ("zeta", Nn), ("psi", one), ("gamma", one), ("rho", one), ("q", one)])
    pr.c.update({"psi": one, "gamma": neg(one)})
    pr.eq.append((Nn, {"w": neg(n_("S")), "zeta": I}, Poly()))
    pr.ineq += [(Nn, {"w": neg(I)}, Poly()), (Nn, {"zeta": neg(I)}, Poly())] + [(one, {a: neg(one)}, Poly()) for a in ("psi", "gamma", "rho")]
    pr.maybe_eq = [(one, {"w": one}, one)]
    user(pr, G, A, True)
    if t is not None:
        pr.ineq.append((one, {"w": neg(n_("mu"))}, neg(t)))
    pr.cones.append([(one, {"q": neg(one)}, Poly()), (Nn, {"w": neg(n_(("T", "L")))}, Poly())])
    rt = ppow(Nn, HALF)
    pr.cones.append([(one, {"psi": neg(rt)}, Poly()), (one, {"q": neg(one)}, Poly()), (one, {"rho": neg(rt)}, Poly())])
    if lam:
        pr.cones.append([(one, {"rho": neg(one)}, Poly()), (Nn, {"w": neg(pmul(ppow(n_("lam"), HALF), n_(("f", "diag", ppow(n_(("f", "diag", n_("S").key())), HALF).key()))))}, Poly())])
    return pr


# ------------------------------------------------------------------ canonical form of a problem
def norm_row(ents, rhs, sign):
    """a row up to a positive factor (an equality: any factor)"""
    if not ents:
        return frozenset(), rhs.key()
    lead = min(ents, key=lambda q: (canon(q[0]), canon(q[1])))
    m = min(lead[2], key=canon)
    f = lead[2][m]
    f = 1 / (f if sign else abs(f))
    s = lambda p: Poly({a: c * f for a, c in p.items()}).key()
    return frozenset((c.key(), w.key(), s(e)) if not isinstance(c, frozenset) else (c, w, s(e)) for c, w, e in ents), s(rhs)


def groups(m):
    """{(offset, height): [(column, width, entry)]}"""
    out = {}
    for r, h, c, w, e in split(m.regs):
        if e:
            out.setdefault((r.key(), h.key()), []).append((c.key(), w.key(), e))
    return out


def rhs_of(v, off, h):
    """the right-hand side along one block of rows"""
    for r, hh, _, _, e in v.regs:
        if (r.key(), hh.key()) == (off, h):
            return e
    a, b = num(Poly(dict(off))), num(Poly(dict(h)))
    for r, hh, _, _, e in v.regs:
        x, y = num(r), num(hh)
        if x < a + b and a < x + y:
            if x <= a and a + b <= x + y and not e.keys() - {frozenset()}:
                return e
            raise Unknown("right-hand side in other blocks")
    return Poly()


def table(m, v, sign=False):
    """the rows of (matrix, right-hand side): [(height, normalised row, rhs)]"""
    g = groups(m)
    out = []
    for (o, h), ents in g.items():
        out.append((h,) + norm_row(ents, rhs_of(v, o, h), sign))
    for r, h, _, _, e in v.regs:
        if e and not any(num(Poly(dict(o))) < num(r) + num(h) and num(r) < num(Poly(dict(o))) + num(Poly(dict(q))) for o, q in g):
            raise Unknown("right-hand side without a row")
    return out


def want_rows(rows_, at, sign=False):
    return [(h.key(),) + norm_row([(at[v][0].key(), at[v][1].key(), e) for v, e in ents.items() if e], rhs, sign) for h, ents, rhs in rows_]


def cut(m, lo, hi):
    """rows lo..hi of a matrix"""
    a, b = num(lo), num(hi)
    regs = []
    for r, h, c, w, e in split(m.regs):
        x, y = num(r), num(r) + num(h)
        if y <= a or x >= b:
            continue
        if x < a or y > b:
            raise Unknown("a block across the cone boundary")
        regs.append((padd(r, lo, -1), h, c, w, e))
    return Mat(padd(hi, lo, -1), m.W, regs, m.nd)


def cone_rows(m, v):
    out = []
    for (o, h), ents in groups(m).items():
        out.append((o, h, frozenset((c, w, e.key()) for c, w, e in ents), rhs_of(v, o, h).key()))
    return frozenset(out)


def want_cone(rows_, at):
    out, o = [], D0
    for h, ents, rhs in rows_:
        out.append((o.key(), h.key(), frozenset((at[v][0].key(), at[v][1].key(), e.key()) for v, e in ents.items() if e), rhs.key()))
        o = padd(o, h)
    return frozenset(out)


def height(rows_):
    o = D0
    for h, _, _ in rows_:
        o = padd(o, h)
    return o


NAMES = {"qp": ("P", "q", "G", "h", "A", "b"), "lp": ("c", "G", "h", "A", "b"), "conelp": ("c", "G", "h", "dims", "A", "b")}


class Call:
    """the arguments of one solver call"""

    def __init__(self, I, ev):
        self.ev, self.kind = ev, ev["name"].split(".")[-1]
        self.args = dict(zip(NAMES[self.kind], ev["args"]))
        self.args.update({a: v for a, v in (ev.get("kw") or {}).items() if a in NAMES[self.kind]})
        self.I = I
        self.lacks = []

    def none(self, a):
        v = self.args.get(a)
        return v is None or tuple(v.ty or ()) == ("None",) or term(v.vid)[:2] == ("k", "None")

    def mat(self, B, a):
        return Mat(D0, D0, []) if self.none(a) else B(self.args[a].vid)

    def dims(self, B):
        st, v = self.ev["state"], self.args["dims"]
        for _, o in self.I.objs(st, v):
            ks = o.keys or {}
            if "l" in ks and "q" in ks:
                return B.scalar(ks["l"].vid), self.qs(B, st, ks["q"])
        return None, None

    def qs(self, B, st, v):
        it = self.I.known_items(v, st)
        if it is None:
            return None
        return [B.scalar(x.vid) for x in it]


def differences(call, spec, B):
    """[] when the call is the documented problem for some order of the auxiliary variables; otherwise what differs (for the order that fits best)"""
    best = None
    c = call.mat(B, "q" if call.kind == "qp" else "c")
    G, h = call.mat(B, "G"), call.mat(B, "h")
    A, b = (None, None) if spec.some_eq else (call.mat(B, "A"), call.mat(B, "b"))
    linear, cones = (G, h), []
    if call.kind == "conelp":
        l, qs = call.dims(B)
        if l is None or qs is None or None in qs:
            raise Unknown("cone sizes")
        hv = h
        linear = cut(G, D0, l), cut(hv, D0, l)
        o = l
        for q in qs:
            cones.append((q, cone_rows(cut(G, o, padd(o, q)), cut(hv, o, padd(o, q)))))
            o = padd(o, q)
        if o.key() != G.H.key():
            return ["the cone sizes %s + %s do not add up to the %s rows" % (l.show(), "+".join(q.show() for q in qs), G.H.show())], None
    ineq, eq = table(*linear), table(A, b, True) if A is not None else None
    P = None
    if call.kind == "qp":
        P = groups(call.mat(B, "P"))
    cg = [(o, w, e) for (o, w), ents in groups(c).items() for _, _, e in ents]
    for order in spec.orders():
        at, total = spec.at(order)
        why = []
        if G.H and G.W.key() != total.key() or A is not None and A.H and A.W.key() != total.key() or c.H.key() != total.key():
            why.append("%s columns for %s variables" % (G.W.show(), total.show()))
        why += objective(call, spec, at, P, cg)
        why += rows_differ("inequality", ineq, want_rows(spec.ineq, at), [])
        if A is not None:
            why += rows_differ("equality", eq, want_rows(spec.eq, at, True), [])
        else:
            ms, found, some = [], set(), want_piece_rows(spec.some_eq, at, True)
            known = pieces(B, call.args["A"].vid, ms)
            why += pieces_differ("equality", ms, total, want_piece_rows(spec.eq, at, True), set(), some, known, True, found)
            why += sides(B, call.args["b"].vid, {one.key()})
            call.lacks = ["A"] if known and some - found else []
        if call.kind == "conelp":
            want = [(height(r).key(), want_cone(r, at)) for r in spec.cones]
            got = [(q.key(), r) for q, r in cones]
            if sorted(map(repr, want)) != sorted(map(repr, got)) and set(want) != set(got):
                why.append("cone rows %s where %s are documented" % (show_cones(got), show_cones(want)))
        if best is None or len(why) < len(best[0]):
            best = (why, at)
        if not why:
            break
    return best


def pk(p):
    return Poly(dict(p)).show()


def show_row(q):
    return "[%s rows: %s; rhs %s]" % (pk(q[0]), ", ".join(sorted("%s at %s" % (pk(e), pk(c)) for c, w, e in q[1])), pk(q[2]))


def show_cones(cs):
    return "{" + " / ".join("; ".join(sorted("%s: %s" % (pk(o), ", ".join("%s at %s" % (pk(e), pk(c)) for c, w, e in ents)) for o, h, ents, rhs in rows_)) for _, rows_ in cs) + "}"


def rows_differ(what, got, want, optional):
    g = [q for q in got if q[1]]
    out = []
    left = list(want)
    for q in g:
        if q in left:
            left.remove(q)
        elif q in want or q in optional:
            pass
        else:
            out.append("%s rows %s are not documented" % (what, show_row(q)))
    out += ["no %s rows %s" % (what, show_row(q)) for q in left]
    return out


def objective(call, spec, at, P, cg):
    want = [{at[v][0].key(): (at[v][1].key(), e) for v, e in {**spec.c, **over}.items() if e} for over in [{}] + [x for x in (getattr(spec, "c2", None),) if x]]
    got = {o: (w, e) for o, w, e in cg}
    if call.kind == "qp":
        one_ = P.get((D0.key(), Nn.key()))
        if one_ is None or len(P) != 1 or len(one_) != 1 or one_[0][:2] != (D0.key(), Nn.key()):
            return ["the quadratic term is not the documented one"]
        e = one_[0][2]
        m = min(spec.P, key=canon)
        if not e.get(m):
            return ["quadratic term %s instead of %s" % (e.show(), spec.P.show())]
        f = e[m] / spec.P[m]
        if f <= 0 or e.key() != pmul(k(f), spec.P).key():
            return ["quadratic term %s instead of %s" % (e.show(), spec.P.show())]
    else:
        f = None
        for w in want:
            for o, (ww, e) in w.items():
                if o in got and f is None:
                    m = min(e, key=canon)
                    f = got[o][1].get(m, 0) / e[m] or None
        if f is None or f < 0:
            f = 1
    for w in want:
        if {o: (x, pmul(k(f), e).key()) for o, (x, e) in w.items()} == {o: (x, e.key()) for o, (x, e) in got.items()}:
            return []
    sh = lambda d: "{" + ", ".join(sorted("%s at %s" % (e.show(), pk(o)) for o, (x, e) in d.items())) + "}"
    return ["linear objective %s instead of %s" % (sh(got), sh(want[0]))]


# ------------------------------------------------------------------ client programs
def cons(G, A):
    return ", ".join((["G=G, h=h"] if G else []) + (["A=A, b=b"] if A else []))


def programs():
    """(name, text, spec builder, public class)"""
    out = []
    ARG = "mu: 'arr', S: 'arr', R: 'arr', p: 'arr', alpha: 'pos', G: 'arr', h: 'arr', A: 'arr', b: 'arr', w0: 'arr', c: 'arr', lam: 'pos', g: 'pos', s: 'pos', t: 'num', rb: 'arr', rf: 'num', l1: 'pos', l2: 'pos', mt: 'num'"

    def add(name, expr, spec, cls, what):
        expr = expr.replace(", , ", ", ")
        out.append((name, "def NAME(%s):\n    return %s\n" % (ARG, expr), spec, cls, what))
    for G in (0, 1):
        for A in (0, 1):
            cs = cons(G, A)
            for C in (0, 1):
                for t in (0, 1):
                    tag, T = "%d%d%d%d" % (G, A, C, t), "t" if t else ""
                    co = ", initial_weights=w0, %s=c"
                    add("mv" + tag, "MeanVariance(mu, S, %s).efficient_portfolio(%s)" % (cs + (co % "market_impact_costs") * C, T), ("mv", G, A, C, t), "MeanVariance", "weights")
                    add("cv" + tag, "MeanCVaR(R, p, alpha, %s).efficient_portfolio(%s)" % (cs + (co % "proportional_costs") * C, T), ("cv", G, A, C, t), "MeanCVaR", "weights")
                tag = "%d%d%d" % (G, A, C)
                add("mvf" + tag, "MeanVariance(mu, S, %s).efficient_frontier(5)" % (cs + (co % "market_impact_costs") * C), ("mvf", G, A, C, 0), "MeanVariance", "frontier")
                add("cvf" + tag, "MeanCVaR(R, p, alpha, %s).efficient_frontier(5)" % (cs + (co % "proportional_costs") * C), ("cvf", G, A, C, 0), "MeanCVaR", "frontier")
                add("rl" + tag, "RobustOptimizer(mu, S, %s).solve_lambda_variant(lam)" % (cs + (co % "proportional_costs") * C), ("rl", G, A, C, 0), "RobustOptimizer", "robust")
                add("rg" + tag, "RobustOptimizer(mu, S, %s).solve_gamma_variant(g, s)" % (cs + (co % "proportional_costs") * C), ("rg", G, A, C, 0), "RobustOptimizer", "robust")
                add("rf" + tag, "RobustOptimizer(mu, S, %s).efficient_frontier([l1, l2])" % (cs + (co % "proportional_costs") * C), ("rf", G, A, C, 0), "RobustOptimizer", "rfrontier")
            add("ms%d%d" % (G, A), "MeanVariance(mu, S, %s).max_sharpe(rf)" % cs, ("ms", G, A, 0, 0), "MeanVariance", "sharpe")
            for lam in (0, 1):
                for t in (0, 1, 2):
                    for rb in (0, 1):
                        add("rp%d%d%d%d%d" % (G, A, lam, t, rb), "RelaxedRiskParity(mu, S, %s).solve(lambda_reg=%s%s)" % (cs + ", risk_budgets=rb" * rb, "lam" if lam else "0.0", ("", ", return_target=t", ", return_target=t, min_target=mt")[t]),
                            ("rp", G, A, lam, (t, rb)), "RelaxedRiskParity", "parity")
    return out


def max_return(G, A, kind):
    """the linear program of the largest expected return over the feasible set (its variables as in the main problem)"""
    pr = mean_variance(G, A, 0, None) if kind == "mv" else None
    pr.P = None
    pr.c = {"w": neg(n_("mu"))}
    return pr


def specs(sp, ev):
    """the documented problems one solver call may be"""
    kind, G, A, C, t = sp
    tt = n_("t") if t == 1 else None
    if kind == "mv":
        return [mean_variance(G, A, C, tt)]
    if kind == "cv":
        return [mean_cvar(G, A, C, tt)]
    if kind == "mvf":
        return [max_return(G, A, "mv")] if ev["name"].endswith("lp") else [mean_variance(G, A, C, None), mean_variance(G, A, C, n_("tgrid"))]
    if kind == "cvf":
        mx = mean_cvar(G, A, C, None)
        mx.c = {"w": neg(MM("p", "R"))}
        return [mean_cvar(G, A, C, None), mx, mean_cvar(G, A, C, n_("tgrid"))]
    if kind == "rl":
        return [robust(G, A, C, n_("lam"))]
    if kind == "rg":
        return [robust(G, A, C, n_("g"), n_("s"))]
    if kind == "rf":
        return [robust(G, A, C, n_("l1")), robust(G, A, C, n_("l2"))]
    if kind == "ms":
        pr = base([("w", Nn)])
        pr.P = pmul(k(2), n_("S"))
        pr.eq.append((one, {"w": padd(n_("mu"), n_("rf"), -1)}, one))
        pr.ineq.append((one, {"w": neg(one)}, Poly()))
        if G:
            pr.ineq.append((Kk, {"w": padd(n_("G"), n_("h"), -1)}, Poly()))
        if A:
            pr.some_eq.append((Mm, {"w": padd(n_("A"), n_("b"), -1)}, Poly()))
        return [pr]


def flavour(ev):
    return ev["name"].split(".")[-1]


def job(P, it):
    name, text, sp, cls, what = it
    f = scen.load(P, PRE + text.replace("NAME", name, 1), "_p09_" + name)[name]
    r = run_entry(P, f, scen.make(f), opts={"sites": True})
    n = {"programs": 1, "solver_calls": 0, "problems_compared": 0, "problems_undecided": 0, "results_compared": 0, "results_undecided": 0}
    fs = []
    say = lambda rule, ev, w: fs.append(finding(P, rule, ev, w, name))
    seen, lacks = set(), {}
    for ev in r.events:
        if ev["kind"] != "solver" or flavour(ev) not in NAMES:
            continue
        n["solver_calls"] += 1
        call = Call(r.I, ev)
        key = (ev["file"], ev["line"])
        if sp[0] == "rp":
            why, dec = parity(call, sp)
        else:
            why, dec = compare(call, specs(sp, ev))
        n["problems_compared" if dec else "problems_undecided"] += 1
        lacks.setdefault(key, []).append((ev, call.lacks if dec else []))
        if why and key not in seen:
            seen.add(key)
            say("problem-differs", ev, "%s: %s hands %s another problem than documented: %s" % (name, cls, flavour(ev), "; ".join(why)[:1500]))
    for key, l in lacks.items():
        for a in sorted({a for _, x in l for a in x}):
            if all(a in x for _, x in l) and key not in seen:
                say("problem-differs", l[0][0], "%s: %s" % (name, "the constraint rows %s of the caller never reach %s" % (a, flavour(l[0][0])) if a in ("G", "A") else "%s hands %s %s" % (cls, flavour(l[0][0]), a)))
    if not r.outs:
        say("never-returns", {"file": f.mod.path, "line": f.node.lineno, "stack": (), "cms": ()}, "%s: %s cannot return" % (name, text.split("return ")[1].strip())) if r.level == 0 else None
    for w, ok in results(r, sp, what):
        n["results_compared" if ok is not None else "results_undecided"] += 1
        if ok is False:
            fs.append(at(P, cls, "result-differs", "%s: %s" % (name, w), name))
    return {"n": n, "f": fs, "name": name, "visited": sorted(getattr(r.I, "visited", [])), "calls": n["solver_calls"]}


def compare(call, sps):
    """(differences, decided): the call is one of the documented problems on at least one of the joined alternatives"""
    best = None
    if not sps:
        return [], False
    for sp in sps:
        B = blocks()
        try:
            got = B.each(lambda: differences(call, sp, B))
        except Broken as e:
            return [str(e)], True
        if any(g is None for g in got):
            if any(g is not None and not g[0] for g in got):
                return [], True
            best = best or ([], False)
            if best[1]:
                best = ([], False)
            continue
        if any(not g[0] for g in got):
            return [], True
        w = min((g[0] for g in got), key=len)
        if best is None or best[1] and len(w) < len(best[0]):
            best = (w, True)
    return best


# ------------------------------------------------------------------ blocks collected in loops, whose order is not known
def pieces(B, v, out, vector=False, depth=0):
    """the blocks a matrix (a vector) may be stacked from, in any order; False when some of them are not known"""
    t = term(v)
    if not t or depth > 60:
        return False
    go = lambda xs: all([pieces(B, x, out, vector, depth + 1) for x in xs])
    if t[0] == "phi":
        return go([x for x in t[1:] if isinstance(x, int)])
    f = term(t[1]) if len(t) > 1 and isinstance(t[1], int) else None
    if t[0] in ("N", "Ns") and f:
        if f[0] in ("list", "tup") and not (vector and all(B.shape(x) == () for x in t[2:])):
            return go(t[2:])
        if f[0] not in ("list", "tup"):
            return go([t[1]])
    if t[0] in STACKV or vector and t[0] in STACKH or t[0] in ("numpy.concatenate", "numpy.append") and (vector or not any(isinstance(x, tuple) and x and x[0] == "axis" and x[1] != "(0,)" for x in t[1:])):
        o = ordered(t[1])
        if o is None and f and f[0] in ("N", "Ns"):
            o = [x for x in f[2:] if isinstance(x, int)]
        if o is not None:
            return go(o)
    if t[0] == "upd":
        b = t
        while b and b[0] == "upd":
            b = term(b[1])
        if b and b[0] == "phi":      # a write to one of several arrays: each array also appears by itself
            return True
    ok = True
    for m in B.each(lambda: B(v)):
        if m is None:
            ok = False
            continue
        if not vector and m.nd < 2:
            m = Mat(D1, m.H, [(c, w, r, h, e) for r, h, c, w, e in m.regs], 2)
        out.append(m)
    return ok


def bare(q):
    """a row without its height: one of several rows written one by one"""
    return q[1]


def pieces_differ(what, ms, width, ineq, cones, optional, known, sign=False, found=None):
    """blocks that are not documented, and (when all blocks are known) documented ones that are missing"""
    rows_, cs, out = set(), set(), []
    for m in ms:
        if not m.regs:
            continue
        if m.W.key() != width.key():
            out.append("%s columns for %s variables" % (m.W.show(), width.show()))
        c = frozenset((o, h, frozenset((a, w, e.key()) for a, w, e in ents)) for (o, h), ents in groups(m).items())
        if c in cones:
            cs.add(c)
            continue
        for (o, h), ents in groups(m).items():
            q = norm_row(ents, Poly(), sign)[0]
            if q in ineq or q in optional:
                rows_.add(q)
                if found is not None:
                    found.add(q)
            else:
                out.append("%s rows [%s] are not documented" % (what, ", ".join(sorted("%s at %s" % (pk(e), pk(a)) for a, w, e in q))))
                break
    if known:
        out += ["no %s rows [%s]" % (what, ", ".join(sorted("%s at %s" % (pk(e), pk(a)) for a, w, e in q))) for q in ineq - rows_ - optional]
        lost = ["no cone {%s}" % "; ".join(sorted("%s: %s" % (pk(o), ", ".join(sorted("%s at %s" % (pk(e), pk(a)) for a, w, e in ents))) for o, h, ents in c)) for c in cones - cs]
        if found is None:
            out += lost
        else:
            found.update(("cone", x) for x in lost)
    return out


def sides(B, v, allowed):
    """the right-hand sides that are not documented"""
    ms, out = [], []
    pieces(B, v, ms, True)
    for m in ms:
        for r, h, c, w, e in m.regs:
            if e.key() not in allowed and not opaque(e):
                out.append("right-hand side %s is not documented" % e.show())
    return out


def capped(v, floor, depth=0):
    """is a return target the wanted one, lowered to what is reachable and raised to the floor?  None: not known"""
    t = term(v)
    if not t or depth > 20:
        return None
    if t[0] in ("phi", "N", "Ns"):
        q = [capped(x, floor, depth + 1) for x in t[1:] if isinstance(x, int)]
        return False if False in q else None if None in q else True
    if t == ("src", "t"):
        return True
    if t[0] in ("max", "min"):
        mt = [x for x in t[1:] if isinstance(x, int) and term(x) == ("src", "mt")]
        if mt and t[0] == "min":
            return False
    return None


def want_piece_rows(rows_, at, sign=False):
    return {norm_row([(at[v][0].key(), at[v][1].key(), e) for v, e in ents.items() if e], Poly(), sign)[0] for h, ents, rhs in rows_}


def parity(call, sp):
    """the relaxed risk-parity cone problem and the linear program that caps its return target"""
    kind, G, A, lam, (t, rb) = sp
    pr = risk_parity(G, A, lam, n_("t") if t else None, rb)
    if call.kind == "lp":
        sp_ = base([("w", Nn)])
        sp_.c["w"] = neg(n_("mu"))
        sp_.ineq = [(Nn, {"w": neg(I)}, Poly())]
        sp_.maybe_eq = [(one, {"w": one}, one)]
        user(sp_, G, A, True)
        sp_.floors = []
    else:
        sp_ = pr
        rbi = n_("rbi") if rb else ppow(Nn, Fraction(-1))
        sp_.floors = [(n_("i"), ppow(rbi, HALF))]
    B = blocks()
    Gs, As = [], []
    kG = kA = True
    if not call.none("G"):
        kG = pieces(B, call.args["G"].vid, Gs)
    if not call.none("A"):
        kA = pieces(B, call.args["A"].vid, As)
    if not Gs and not As:
        return [], False
    best = None
    for order in sp_.orders():
        at_, total = sp_.at(order)
        why = []
        cones = set()
        for c in sp_.cones:
            cones.add(frozenset((o, h, ents) for o, h, ents, rhs in want_cone(c, at_)))
        for i, b in sp_.floors:
            wi, zi, o1 = padd(at_["w"][0], i), padd(at_["zeta"][0], i), D1.key()
            row = lambda n, es: (k(n).key() if n else D0.key(), o1, frozenset((c.key(), o1, e.key()) for c, e in es))
            cones.add(frozenset([row(0, [(wi, neg(one)), (zi, neg(one))]), row(1, [(at_["gamma"][0], pmul(k(-2), b))]), row(2, [(wi, neg(one)), (zi, one)])]))
        some, some_eq = want_piece_rows(sp_.some, at_), want_piece_rows(sp_.some_eq, at_, True)
        seen = set()
        why += pieces_differ("inequality", Gs, total, want_piece_rows(sp_.ineq, at_), cones, some, kG, False, seen)
        must = want_piece_rows(sp_.eq, at_, True)
        why += pieces_differ("equality", As, total, must, set(), want_piece_rows(sp_.maybe_eq, at_, True) | some_eq, kA, True, seen)
        got = B.each(lambda: [(o, w, e) for (o, w), ents in groups(call.mat(B, "c")).items() for _, _, e in ents])
        for g in got:
            if g is not None:
                why += objective(call, sp_, at_, None, g)
        if best is None or len(why) < len(best):
            best = why
            call.lacks = (["G"] if kG and some - seen else []) + (["A"] if kA and some_eq - seen else []) + sorted(x[1] for x in seen if isinstance(x, tuple) and x[0] == "cone")
        if not why:
            break
    if not call.none("b"):
        best = best + sides(B, call.args["b"].vid, {n_("b").key(), one.key()})
    if t and call.kind == "conelp":
        best = best + [x for x in target_sides(B, call.args["h"].vid, G)]
    elif not call.none("h"):
        best = best + sides(B, call.args["h"].vid, {n_("h").key()})
    return best, kG and kA or bool(best)


def target_sides(B, v, G):
    todo, seen, out = [v], set(), []
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        t = term(y)
        if t and t[0] == "min" and ("src", "mt") in [term(x) for x in t[1:] if isinstance(x, int)]:
            out.append("the return target is capped by the minimum target instead of raised to it")
        todo += [x for x in (t or ())[1:] if isinstance(x, int)]
    return out


# ------------------------------------------------------------------ reported results
def results(r, sp, what):
    """[(what differs, True / False / None)]"""
    out = []
    for st, v in r.outs:
        B = blocks()
        nm = lambda x: B.N(r.I.N(x, st).vid)
        ob = [o for _, o in r.I.objs(st, v) if o.kind == "obj"]
        w0 = atom(("x", D0.key(), Nn.key()))
        want = {}
        if what == "weights" and sp[0] in ("mv", "cv"):
            want = {"weights": (v, [w0, atom("x")] if sp[0] == "mv" else [w0])}
        elif len(ob) == 1:
            at_ = ob[0].attrs or {}
            N2 = Norm(lambda a, b: None, scalars=B.N.scalars, sym={"S"}, vecs=B.N.vecs)
            if what == "robust":
                ret = N2.matmul(n_("mu"), w0)
                want = {"weights": (at_.get("weights"), [w0]), "nominal_return": (at_.get("nominal_return"), [ret]), "risk": (at_.get("risk"), [atom(("x", Nn.key(), D1.key()))])}
            elif what == "sharpe":
                tot = n_(("f", "sum", atom("x").key()))
                N2.scalars.add(("f", "sum", atom("x").key()))
                w = pmul(atom("x"), ppow(tot, Fraction(-1)))
                var = N2.matmul(N2.matmul(w, n_("S")), w)
                want = {"weights": (at_.get("weights"), [w]), "nominal_return": (at_.get("nominal_return"), [N2.matmul(n_("mu"), w)]), "risk": (at_.get("risk"), [ppow(var, HALF)])}
            elif what == "parity":
                x = lambda o, n: atom(("x", o.key(), n.key()))
                N_2 = pmul(k(2), Nn)
                psi, gam, rho = (x(padd(N_2, k(i)), D1) for i in (0, 1, 2))
                want = {"weights": (at_.get("weights"), [w0]), "marginal_risk": (at_.get("marginal_risk"), [x(Nn, Nn)]), "psi": (at_.get("psi"), [psi]), "gamma": (at_.get("gamma"), [gam]), "rho": (at_.get("rho"), [rho]),
                        "objective": (at_.get("objective"), [padd(psi, gam, -1)]), "max_return": (at_.get("max_return"), [neg(n_("best"))] if sp[4][0] else [])}
        for a, (x, ok) in want.items():
            if x is None or not ok:
                continue
            p = nm(x)
            if p is None or opaque(p):
                out.append((a, None))
            elif p.key() in [q.key() for q in ok]:
                out.append((a, True))
            else:
                out.append(("reports %s = %s where %s is documented" % (a, p.show(), ok[0].show()), False))
    return out


def at(P, name, rule, what, program):
    x = P.public().get(name)
    if x is None:
        raise AnalysisBroken("%s vanished" % name)
    return Finding(rule, "%s:%s" % (rel(P, x[1].mod.path), name), what, x[1].node.lineno, (program,), rel(P, x[1].mod.path))


def run(P, tier):
    its = programs()
    R = pmap(P, job, its)
    fs, tot, vis = [], {}, set()
    for d in R:
        fs += d["f"]
        vis |= set(d["visited"])
        for a, b in d["n"].items():
            tot[a] = tot.get(a, 0) + b
    if tot["solver_calls"] < 60:
        raise AnalysisBroken("only %d solver calls in %d programs" % (tot["solver_calls"], len(its)))
    return fs, {**tot, "functions_interpreted": len(vis), "explanation": "%d client programs build every optimiser with and without inequalities, equalities, trading costs, return targets, penalties and risk budgets and are interpreted on every path. The arguments of each solver call are value numbers; they are split into blocks (offset, height, column, width, entry) whose sizes are polynomials in the numbers of assets, scenarios and constraints and whose entries are normal forms over the named inputs, and compared with the documented problem for every order of the auxiliary variables, rows up to positive factors. Reported numbers are compared with the documented functions of the solution." % len(its),
        "assumptions": ["blocks of different symbolic sizes do not coincide", "identity multiples of at most 1e-5 only repair definiteness", "problems with forms the normaliser cannot name are counted as undecided and not compared"]}
