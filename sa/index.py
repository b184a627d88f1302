"""Index notation: the entry of an array at symbolic indices as a polynomial over entries of the inputs, with sums over bound indices."""
import itertools
import math
import random
import time
from fractions import Fraction
from .terms import Poly, term, const, canon, padd, k, atom, Branch
from .blocks import Blocks, Unknown, ONE as D1

F1 = Fraction(1)
MAXTERMS = 400
MAXSTEPS = 3000000
SECONDS = 40


# ------------------------------------------------------------------ atoms: name | ("@", name, idx) | ("F", op, keys...) with indices inside | ("M", op, key over ("p", 0), ("p", 1), idx) | ("P", key) a sum under a power
def ri(i, m):
    if isinstance(i, tuple) and i[:1] == ("order",) and i not in m:
        return ("order", ri(i[1], m))
    return m.get(i, i)


def ren_atom(a, m):
    if not isinstance(a, tuple) or not a:
        return a
    if a[0] in ("@", "?"):
        return (a[0], a[1], tuple(ri(i, m) for i in a[2]))
    if a[0] in ("F", "P"):
        return tuple(ren_key(x, m) if isinstance(x, frozenset) else x for x in a)
    if a[0] == "M":
        return a[:-1] + (tuple(ri(i, m) for i in a[-1]),)
    return a


def ren_key(key, m):
    return frozenset((frozenset((ren_atom(a, m), e) for a, e in mon), c) for mon, c in key)


def idx_of(a, out=None):
    out = set() if out is None else out
    if isinstance(a, tuple) and a:
        if a[0] in ("@", "?"):
            out |= flat(a[2])
        elif a[0] in ("F", "P"):
            for x in a:
                if isinstance(x, frozenset):
                    for mon, _ in x:
                        for b, _ in mon:
                            idx_of(b, out)
        elif a[0] == "M":
            out |= flat(a[-1])
    return out


def flat(ix):
    """the indices of an entry; of an entry in another order, the index that is put into order"""
    return {f for i in ix for f in ([i] if not (isinstance(i, tuple) and i[:1] == ("order",)) else flat(i[1:]))}


WHOLE = {"argsort", "sort", "cumsum", "cumprod", "argmax", "argmin", "take_along_axis", "median", "quantile", "max", "min"}
EXACT = {"exp": math.exp, "log": math.log, "abs": abs, "lt": lambda x: float(x < 0), "max": max, "min": min, "sin": math.sin, "cos": math.cos, "tanh": math.tanh,
         "clip": lambda x, lo, hi: min(x if lo is None else max(x, lo), hi if hi is not None else float("inf"))}
SOFT = {"clip", "max", "min", "abs", "sign", "lt", "where"}


def inner(p, out=None):
    """the atoms of a form that are only known by name: results of calls not modelled, and kinked functions"""
    out = set() if out is None else out

    def go(a):
        if not isinstance(a, tuple) or not a:
            return
        if a[0] == "?" or a[0] == "F" and a[1] in SOFT or a[0] == "M" and a[1] != "inv":
            out.add(a)
        for x in a:
            if isinstance(x, frozenset):
                for mon, _ in x:
                    for b, _ in mon:
                        go(b)
    for mon in p:
        for a, _ in mon:
            go(a)
    return out


def named_only(p):
    """the parts of a form known by name only, wherever they stand"""
    class Any(dict):
        def get(self, i, d=None):
            return "_"

        def __contains__(self, i):
            return True
    return {ren_atom(a, Any()) for a in inner(p) if a[0] != "F" or a[1] not in EXACT} | {("F",) + tuple(a[1:2]) for a in functions(p) if a[1] not in EXACT}


def functions(p):
    out = set()

    def go(a):
        if isinstance(a, tuple) and a:
            if a[0] == "F":
                out.add(a)
            for x in a:
                if isinstance(x, frozenset):
                    for mon, _ in x:
                        for b, _ in mon:
                            go(b)
    for mon in p:
        for a, _ in mon:
            go(a)
    return out


def swap(p, m):
    """p with atoms replaced at any depth"""
    def at_(a):
        if a in m:
            return m[a]
        if isinstance(a, tuple) and a and a[0] in ("F", "P", "M"):
            return tuple(ke(x) if isinstance(x, frozenset) else x for x in a)
        return a

    def ke(key):
        out = Poly()
        for mon, c in key:
            out = padd(out, Poly({frozenset((at_(a), e) for a, e in mon): c}))
        return out.key()
    return Poly(dict(ke(p.key())))


class Index(Blocks):
    """sym: symmetric inputs; unit: vectors that sum to one"""

    def __init__(self, shapes, name=None, sym=(), unit=(), dims=()):
        Blocks.__init__(self, shapes, None, sym=sym)
        self.own, self.sym, self.unit = name, set(sym), set(unit)
        self.deadline = time.process_time() + SECONDS
        self.bound, self.n, self.fixed, self.force, self.alias = set(), 0, {}, {}, {}
        self.ememo = {}

    # -------------------------------------------------------------- algebra
    def fresh(self, bound=False):
        self.n += 1
        t = ("t", self.n)
        if bound:
            self.bound.add(t)
        return t

    def apart(self, p):
        """p with its bound indices renamed"""
        bs = {i for mon in p for a, _ in mon for i in idx_of(a) if i in self.bound}
        if not bs:
            return p
        m = {i: self.fresh(True) for i in bs}
        return self.rename(p, m)

    def rename(self, p, m):
        out = Poly()
        for mon, c in p.items():
            if any(isinstance(a, tuple) and a[:2] == ("@", "I") for a, _ in mon):       # an identity whose indices become known
                ds = [self.delta(tuple(ri(i, m) for i in a[2])) for a, e in mon if isinstance(a, tuple) and a[:2] == ("@", "I")]
                if any(not d for d in ds):
                    continue
                mon = frozenset((a, e) for a, e in mon if not (isinstance(a, tuple) and a[:2] == ("@", "I") and self.delta(tuple(ri(i, m) for i in a[2])).key() == k(1).key()))
            out = padd(out, Poly({frozenset((self.symm(ren_atom(a, m)), e) for a, e in mon): c}))
        return out

    def symm(self, a):
        if isinstance(a, tuple) and a and a[0] in ("@", "M") and len(a[-1]) == 2 and (a[1] in self.sym or a[1] == "I" or a[0] == "M" and a[1] == "inv" and a[2] in self.sym):
            return a[:-1] + (tuple(sorted(a[-1], key=canon)),)
        return a

    def tidy(self, p):
        """collect equal monomials after renaming bound indices canonically"""
        out = Poly()
        for mon, c in p.items():
            out = padd(out, Poly({self.canonical(mon): c}))
        return out

    def canonical(self, mon):
        bs = sorted({i for a, _ in mon for i in idx_of(a) if i in self.bound}, key=canon)
        if not bs:
            return mon
        col = {i: 0 for i in bs}
        for _ in range(len(bs)):
            sig = {}
            for i in bs:
                m = {j: ("col", col[j], i == j) for j in bs}
                sig[i] = canon((col[i], tuple(sorted((canon(ren_atom(a, m)), str(e)) for a, e in mon if i in idx_of(a)))))
            ranks = {x: q for q, x in enumerate(sorted(set(sig.values())))}
            new = {i: ranks[sig[i]] for i in bs}
            if len(set(new.values())) == len(set(col.values())):
                col = new
                break
            col = new
        groups = [[i for i in bs if col[i] == c] for c in sorted(set(col.values()))]
        n = 1
        for g in groups:
            for q in range(2, len(g) + 1):
                n *= q
        if n > 200:
            raise Unknown("too many sums")
        best, h = None, self.height(mon)
        for perm in itertools.product(*[itertools.permutations(g) for g in groups]):
            m = {i: ("b", h, q) for q, i in enumerate(x for g in perm for x in g)}
            x = frozenset((self.symm(ren_atom(a, m)), e) for a, e in mon)
            t = canon(x)
            if best is None or t < best[0]:
                best = (t, x)
        for a, _ in best[1]:
            self.bound |= {i for i in idx_of(a) if i[0] == "b"}
        return best[1]

    def key(self, p):
        """the key of a sum inside an atom: its own bound indices are closed off ("z"), so outer sums leave them alone"""
        p = self.tidy(p)
        out = Poly()
        for mon, c in p.items():
            bs = {i for a, _ in mon for i in idx_of(a) if i in self.bound}
            h = self.height(mon)
            m = {i: ("z", h, i[2]) if i[0] == "b" else ("z", h, i) for i in bs}
            out = padd(out, Poly({frozenset((self.symm(ren_atom(a, m)), e) for a, e in mon): c}))
        return out.key()

    def thaw(self, key):
        out = Poly()
        for mon, c in key:
            h = self.height(mon)
            m = {i: self.fresh(True) for a, _ in mon for i in idx_of(a) if isinstance(i, tuple) and i[0] == "z" and i[1] == h}
            out = padd(out, Poly({frozenset((self.symm(ren_atom(a, m)), e) for a, e in mon): c}))
        return out

    def height(self, mon):
        def h(a):
            return 1 + max([h(b) for x in a if isinstance(x, frozenset) for mm, _ in x for b, _ in mm] or [0]) if isinstance(a, tuple) and a and a[0] in ("F", "P") else 0
        return max([h(a) for a, _ in mon] or [0])

    def in_time(self):
        if time.process_time() > self.deadline:
            raise Unknown("time")

    def mul(self, a, b):
        self.in_time()
        ia = {i for mon in a for x, _ in mon for i in idx_of(x) if i in self.bound}
        ib = {i for mon in b for x, _ in mon for i in idx_of(x) if i in self.bound}
        if ia & ib:
            b = self.apart(b)
        if len(a) * len(b) > MAXTERMS:
            raise Unknown("too many terms")
        out = Poly()
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d, ex = {}, None
                ob = {i: ("o", i) for m in (m1, m2) for x, _ in m for i in idx_of(x) if i in self.bound}       # set aside while inner sums are opened
                back = {y: x for x, y in ob.items()}
                if ob:
                    m1x, m2x = [frozenset((ren_atom(x, ob), e) for x, e in m) for m in (m1, m2)]
                else:
                    m1x, m2x = m1, m2
                for m in (m1x, m2x):
                    for x, e in m:
                        if isinstance(x, tuple) and x[:2] == ("F", "exp"):
                            y = self.thaw(x[2])
                            y = Poly({mm: c * e for mm, c in y.items()})
                            ex = y if ex is None else padd(ex, y)
                        elif isinstance(x, tuple) and x[:2] == ("F", "lt") and e > 0:
                            d[x] = F1
                        else:
                            d[x] = d.get(x, 0) + e
                more = [self.thaw(x[1]) for x, e in d.items() if isinstance(x, tuple) and x[0] == "P" and e.denominator == 1 and e > 0 for _ in range(int(e))]
                d = {x: e for x, e in d.items() if e and not (isinstance(x, tuple) and x[0] == "P" and e.denominator == 1 and e > 0)}
                if ex:
                    d[("F", "exp", self.key(ex))] = F1
                q = Poly({frozenset(d.items()): c1 * c2})
                for y in more:
                    q = self.mul(q, y)
                if back:
                    q = self.apart(q)
                    q = self.rename(q, back)
                out = padd(out, q)
        return self.tidy(out)

    def power(self, a, e):
        a = self.tidy(a)
        if e == 0:
            return k(1)
        if not a:
            return Poly() if e > 0 else self.lost_("division by zero")
        if e.denominator == 1 and 0 < e <= 4:
            out = k(1)
            for _ in range(int(e)):
                out = self.mul(out, a)
            return out
        if len(a) == 1:
            (mon, c), = a.items()
            plain = {(x, y) for x, y in mon if not any(i in self.bound for i in idx_of(x))}
            tied = mon - plain
            cc = self.root(c, e)
            if cc is not None:
                d = {}
                ex = None
                for x, y in plain:
                    if isinstance(x, tuple) and x[:2] == ("F", "exp"):
                        ex = ("F", "exp", frozenset((mm, q * y * e) for mm, q in x[2]))
                    else:
                        d[x] = y * e
                if ex:
                    d[ex] = F1
                out = Poly({frozenset(d.items()): cc})
                if tied:
                    out = self.mul(out, atom(("P", self.key(Poly({frozenset(tied): F1})))) if e == 1 else Poly({frozenset([(("P", self.key(Poly({frozenset(tied): F1}))), e)]): F1}))
                return self.mul(out, k(1))
        # a sum: its leading coefficient comes out of integer powers
        if e.denominator == 1:
            lead = a[min(a, key=canon)]
            b = Poly({m: c / lead for m, c in a.items()})
            return Poly({frozenset([(("P", self.key(b)), e)]): lead ** int(e)})
        return Poly({frozenset([(("P", self.key(a)), e)]): F1})

    @staticmethod
    def root(c, e):
        if e.denominator == 1:
            return c ** int(e)
        if c == 1:
            return c
        if c > 0 and e.denominator == 2:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Fraction(n, d) ** e.numerator
        return None

    def lost_(self, why):
        raise Unknown(why)

    def total(self, p, t, dim):
        """sum over the index t of an axis of the given size"""
        out = Poly()
        self.bound.add(t)
        for mon, c in p.items():
            q = Poly({mon: c})
            if not any(t in idx_of(a) for a, _ in mon):
                q = self.mul(q, dim)
            else:
                own = [a for a, e in mon if t in idx_of(a)]
                if len(own) == 1 and isinstance(own[0], tuple) and own[0][0] == "@" and own[0][1] in self.unit and (own[0], F1) in mon:
                    q = Poly({mon - {(own[0], F1)}: c})
                deltas = [a for a in own if a[0] == "@" and a[1] == "I"]
                if deltas and (deltas[0], F1) in mon:
                    o = [i for i in deltas[0][2] if i != t]
                    if o:
                        q = self.rename(Poly({mon - {(deltas[0], F1)}: c}), {t: o[0]})
            out = padd(out, q)
        return self.tidy(out)

    def func(self, op, p):
        p = self.tidy(p)
        if op == "exp":
            if not p:
                return k(1)
            if len(p) == 1:
                (mon, c), = p.items()
                if len(mon) == 1:
                    (a, e), = mon
                    if e == 1 and isinstance(a, tuple) and a[:2] == ("F", "log"):
                        return self.power(self.thaw(a[2]), c)
            pw, rest = k(1), Poly()
            for mon, c in p.items():
                (a, e), = mon if len(mon) == 1 else ((None, 0),)
                if e == 1 and isinstance(a, tuple) and a[:2] == ("F", "log") and not any(i in self.bound for i in idx_of(a)):
                    pw = self.mul(pw, self.power(self.thaw(a[2]), c))
                else:
                    rest = padd(rest, Poly({mon: c}))
            if len(rest) < len(p):
                return self.mul(pw, self.func("exp", rest))
            return atom(("F", "exp", self.key(p)))
        if op == "log":
            if p.key() == k(1).key():
                return Poly()
            if len(p) == 1:
                (mon, c), = p.items()
                if c == 1 and len(mon) == 1:
                    (a, e), = mon
                    if isinstance(a, tuple) and a[:2] == ("F", "exp"):
                        return Poly({mm: q * e for mm, q in self.thaw(a[2]).items()})
                    if e != 1 and not any(i in self.bound for i in idx_of(a)):
                        b = self.thaw(a[1]) if isinstance(a, tuple) and a[0] == "P" else atom(a)
                        return Poly({frozenset([(("F", "log", self.key(b)), F1)]): e})
        return atom(("F", op, self.key(p)))

    # -------------------------------------------------------------- entries
    def dims(self, v):
        s = self.shape(v)
        if s is None:
            raise Unknown("shape of %s" % (term(v)[:2],))
        return s

    def align(self, v, idx):
        """the indices of an operand broadcast against a longer shape"""
        s = self.dims(v)
        if len(s) > len(idx):
            raise Unknown("more axes than indices")
        out = idx[len(idx) - len(s):]
        return tuple(0 if d.key() == D1.key() else i for d, i in zip(s, out))

    def at(self, v, idx):
        v = self.alias.get(v, v)
        key = (v, idx, tuple(sorted(self.chosen.items())))
        if key not in self.ememo:
            self.ememo[key] = self.entry(v, idx)
        return self.ememo[key]

    def entry(self, v, idx, depth=0):
        t = term(v)
        if not t:
            raise Unknown("no term")
        op = t[0]
        if v in self.fixed:
            return atom(("?", v, idx))
        if self.own:
            q = self.own(self, v, t, idx)
            if q is not None:
                return q
        c = const(v)
        if c is not None:
            return k(c)
        u = self.strip(v)
        if u != v:
            return self.at(u, idx)
        if op == "get" and len(t) == 3 and term(t[2])[:2] == ("k", "str"):
            b, seen = t[1], 0
            while b in self.chosen and seen < 20:
                b, seen = self.chosen[b], seen + 1
            rs = [r for r in self.recs(b) or () if any(x[1].strip("'\"") == term(t[2])[2].strip("'\"") for x in term(r)[1:])]       # the others have no such column
            if rs and term(b)[:1] == ("phi",):
                raise Branch(b, rs)
        if op == "phi":
            if v in self.chosen:
                return self.at(self.chosen[v], idx)
            raise Branch(v, self.alts(t))
        if op == "src":
            n = t[1]
            if n not in self.shapes:
                raise Unknown(n)
            if not self.shapes[n]:
                return atom(n)
            if len(idx) != len(self.shapes[n]):
                raise Unknown("indices of " + n)
            return atom(self.symm(("@", n, idx)))
        d = self.dimterm(t)
        if d is not None:
            return d
        at = self.at
        if op in ("Add", "Sub", "Mult", "Div"):
            a, b = at(t[1], self.align(t[1], idx)), at(t[2], self.align(t[2], idx))
            if op in ("Add", "Sub"):
                return self.tidy(padd(a, b, 1 if op == "Add" else -1))
            return self.mul(a, b if op == "Mult" else self.power(b, Fraction(-1)))
        if op == "neg":
            return self.mul(k(-1), at(t[1], idx))
        if op == "Pow":
            e = const(t[2])
            if e is None:
                q = at(t[2], self.align(t[2], idx))
                b = at(t[1], self.align(t[1], idx))
                return self.func("exp", self.mul(q, self.func("log", b)))
            return self.power(at(t[1], idx), Fraction(e))
        if op in ("exp", "log", "expm1", "log1p", "abs", "sin", "cos", "tanh", "sign"):
            x = at(t[1], idx)
            if op == "expm1":
                return padd(self.func("exp", x), k(1), -1)
            if op == "log1p":
                return self.func("log", padd(x, k(1)))
            return self.func(op, x)
        if op == "T":
            return at(t[1], tuple(reversed(idx)))
        if op in ("float", "int", "asarray", "squeeze", "numpy.squeeze", "nan_to_num"):
            return at(t[1], idx)
        if op in ("N", "Ns", "numpy.vstack"):
            its = self.rows_of(v)
            if its:
                r = 0 if len(its) == 1 else idx[0][1] if isinstance(idx[0], tuple) and idx[0][0] == "c" else None
                if r is not None and -len(its) <= r < len(its):
                    return at(its[r], idx[1:])
                raise Unknown("row %r of a list" % (idx[0],))
            if op != "numpy.vstack" and isinstance(t[1], int) and term(t[1])[0] not in ("list", "tup", "tups"):
                return at(t[1], idx)
        if op == "outer":
            return self.mul(at(t[1], idx[:1]), at(t[2], idx[1:]))
        if op == "MatMult":
            sa, sb = self.dims(t[1]), self.dims(t[2])
            if not sa or not sb:
                raise Unknown("product of a scalar")
            u = self.fresh()
            na = len(sa) - 1
            a = at(t[1], idx[:na] + (u,))
            b = at(t[2], (u,) + idx[na:] if len(sb) > 1 else (u,))
            return self.total(self.mul(a, b), u, sa[-1])
        if op == "upd":
            return self.update(t, idx)
        if op == "diag":
            s = self.dims(t[1])
            if len(s) == 2:
                return at(t[1], (idx[0], idx[0]))
            return self.mul(at(t[1], idx[:1]), self.delta(idx))
        if op == "trace":
            u = self.fresh()
            return self.total(at(t[1], (u, u)), u, self.dims(t[1])[0])
        if op in ("sum", "mean", "average"):
            return self.reduce(op, t, idx)
        if op in ("std", "var"):
            return self.spread(op, t, idx)
        if op == "einsum":
            return self.einsum(t, idx)
        if op == "get":
            return self.select(t, idx, v)
        if op == "col":
            return at(t[1], idx[:1]) if len(self.dims(t[1])) == 1 else at(t[1], idx)
        if op == "row":
            return at(t[1], idx[1:]) if len(self.dims(t[1])) == 1 else at(t[1], idx)
        if op == "vec":
            s = self.dims(t[1])
            if len([d for d in s if d.key() != D1.key()]) > 1:
                raise Unknown("a matrix read as a vector")
            return at(t[1], tuple(0 if d.key() == D1.key() else idx[0] for d in s))
        if op == "full":
            return at(t[1], ())
        if op in ("numpy.ones", "ones_like", "numpy.ones_like"):
            return k(1)
        if op in ("numpy.zeros", "zeros_like", "numpy.zeros_like"):
            return Poly()
        if op in ("numpy.eye", "numpy.identity"):
            return self.delta(idx)
        if op == "solve" and len(t) == 3 and len(self.dims(t[1])) == 2 and len(self.dims(t[2])) in (1, 2):
            u = self.fresh()
            d = self.dims(t[1])
            one = d[1].key() == D1.key()
            rhs = at(t[2], self.align(t[2], (0 if one else u,) + idx[1:]))
            if one:
                return self.mul(self.power(at(t[1], (0, 0)), F1 * -1), rhs)
            return self.total(self.mul(atom(self.symm2(("M", "inv", self.key(self.at(t[1], (("p", 0), ("p", 1)))), (idx[0], u)))), rhs), u, d[1])
        if op == "inv" or op == "pinv":
            p0, p1 = ("p", 0), ("p", 1)
            if [d.key() for d in self.dims(t[1])] == [D1.key()] * 2:
                return self.power(at(t[1], (0, 0)), F1 * -1)
            return atom(self.symm2(("M", "inv", self.key(self.at(t[1], (p0, p1))), idx)))
        if op in ("maximum", "minimum", "max", "min") and len(t) == 3 and all(isinstance(x, int) for x in t[1:]) and (op in ("maximum", "minimum") or () == self.shape(t[1]) == self.shape(t[2])):
            a, b = [self.key(at(x, self.align(x, idx))) for x in t[1:]]
            return atom(("F", op[:3], *sorted((a, b), key=canon)))
        if op == "clip" and len(t) == 4:
            return atom(("F", "clip", *[self.key(self.at(x, self.align(x, idx))) if term(x)[:2] != ("k", "None") else None for x in t[1:]]))
        if op == "FloorDiv":        # only of numbers that divide
            return self.mul(at(t[1], idx), self.power(at(t[2], ()), Fraction(-1)))
        if op == "ppf":
            return atom(("F", "ppf", *[self.key(at(x, self.align(x, idx))) for x in t[1:]]))
        if op == "pct_change" and len(t) == 2 and len(idx) == 2:        # entry i is x[i] / x[i-1] - 1
            j = self.fresh()
            back = self.moved(at(t[1], (j,) + idx[1:]), j, idx[0], k(-1))
            return padd(self.mul(at(t[1], idx), self.power(back, Fraction(-1))), k(1), -1)
        if op == "cov" and len(t) == 5 and t[3] == "aweights" and t[4] == (("bias", True),) and len(idx) == 2:
            d = self.dims(t[2])[0]

            def mean(*xs):
                u = self.fresh()
                q = self.at(t[2], (u,))
                for x in xs:
                    q = self.mul(q, at(t[1], (x, u)))
                return self.total(q, u, d)
            W = self.power(mean(), Fraction(-1))
            return padd(self.mul(mean(idx[0], idx[1]), W), self.mul(self.mul(mean(idx[0]), W), self.mul(mean(idx[1]), W)), -1)
        if op in WHOLE:
            return self.whole(op, t, idx)
        if op in ("arange", "numpy.arange") and len(idx) == 1:
            return padd(atom(("@", ("position", self.dims(v)[0].key()), idx)), at(t[1], ()) if len(t) > 2 else Poly())
        if op in ("Lt", "Gt", "LtE", "GtE") and len(t) == 3:
            a, b = [at(x, self.align(x, idx)) for x in t[1:]]
            if op in ("Gt", "LtE"):
                a, b = b, a
            p = self.tidy(padd(a, b, -1))
            if p:
                c = abs(p[min(p, key=canon)])
                p = Poly({m: x / c for m, x in p.items()})
            q = atom(("F", "lt", self.key(p)))
            return q if op in ("Lt", "Gt") else padd(k(1), q, -1)
        return self.opaque(v, idx)

    def opaque(self, v, idx):
        s = self.shape(v)
        if s is not None and len(s) == len(idx):
            return atom(("?", v, idx))
        raise Unknown(term(v)[0])

    def symm2(self, a):
        """the inverse of a symmetric matrix is symmetric"""
        if self.is_symmetric(a[2]):
            return a[:-1] + (tuple(sorted(a[-1], key=canon)),)
        return a

    def is_symmetric(self, key):
        if key not in self.known_symmetric:
            x = Poly(dict(key))
            self.known_symmetric[key] = self.rename(x, {("p", 0): ("p", 1), ("p", 1): ("p", 0)}).key() == x.key()
        return self.known_symmetric[key]

    def whole(self, op, t, idx):
        """a function of whole arrays, known by name: its arguments entry by entry, axes of size one left out"""
        keys = []
        for x in t[1:]:
            if isinstance(x, tuple):
                x = x[-1] if isinstance(x[-1], int) else None
            if x is None or const(x) is not None or term(x)[0] == "k":
                continue        # an axis
            s = self.dims(x)
            it = iter(range(9))
            keys.append(self.key(self.at(x, tuple(0 if d.key() == D1.key() else ("p", next(it)) for d in s))))
        if any(len([d for d in self.dims(x) if d.key() != D1.key()]) > 1 for x in t[1:2]):
            keys.append("axis %s" % [const(x) if isinstance(x, int) else const(x[-1]) for x in t[2:] if not isinstance(x, int) and isinstance(x[-1], int) or isinstance(x, int) and const(x) is not None])
        return atom(("M", op, *keys, tuple(i for i in idx if i != 0)))

    @staticmethod
    def delta(idx):
        """the identity; different free indices stand for different entries (the diagonal is compared separately)"""
        if idx[0] == idx[1]:
            return k(1)
        if all(isinstance(i, str) for i in idx) or all(isinstance(i, tuple) and i[0] == "c" for i in idx):
            return Poly()
        return atom(("@", "I", tuple(sorted(idx, key=canon))))

    @staticmethod
    def diagonal(v):
        """does index v name the diagonal?"""
        t = term(v)
        if t[:1] in (("numpy.diag_indices",), ("numpy.diag_indices_from",), ("diag_indices",), ("diag_indices_from",)) or t == ("diagonal",):
            return True
        return t[:1] == ("ix",) and len(t) == 3 and t[1] == t[2] and term(t[1])[:1] in (("arange",), ("numpy.arange",)) and len(term(t[1])) == 2

    def position(self, v, depth=0):
        """the place a scalar index names: a number, or the place of a number in 0, 1, 2, …"""
        t = term(v)
        if t[:2] == ("k", "int"):
            c = int(const(v))
            return c if c >= 0 else None
        if t[:1] == ("index",) and len(t) == 3 and term(t[1])[:1] == ("range",) and len(term(t[1])) == 2:
            return self.position(t[2], depth + 1)
        if t[:1] == ("phi",) and depth < 4:
            s = {self.position(x, depth + 1) if isinstance(x, int) else None for x in t[1:]}
            return s.pop() if len(s) == 1 else None
        return None

    def update(self, t, idx):
        sel = term(t[3]) if len(t) == 4 else ()
        if len(idx) == 2 and sel[:1] == ("ix",) and len(sel) == 3:       # a row or a column of a matrix
            for ax in (0, 1):
                o = term(sel[2 - ax])
                n = self.position(sel[1 + ax])
                if n is not None and o[:1] == ("slice",) and all(term(z)[:2] == ("k", "None") for z in o[1:]):
                    if not (isinstance(idx[ax], tuple) and idx[ax][0] == "c"):
                        raise Unknown("a written row or column under an index")
                    if idx[ax][1] < 0:
                        raise Unknown("a place counted from the end")
                    if idx[ax][1] != n:
                        return self.at(t[1], idx)
                    return self.at(t[2], self.align(t[2], (idx[1 - ax],)))
        pos = self.position(t[3]) if len(t) == 4 and len(idx) == 1 else None
        if pos is not None:
            n = ("c", pos)
            old = self.at(t[1], idx)
            if isinstance(idx[0], tuple) and idx[0][0] == "c":
                return self.at(t[2], ()) if idx[0] == n else old
            d = self.delta((idx[0], n))
            return padd(self.mul(d, self.at(t[2], ())), padd(old, self.mul(self.mul(k(-1), d), old)))
        if len(t) != 4 or not self.diagonal(t[3]) or len(idx) != 2:
            raise Unknown("an array written in part")
        if idx[0] == idx[1]:
            return self.at(t[2], idx[:1] if len(self.dims(t[2])) == 1 else ())
        if all(isinstance(i, str) for i in idx):
            return self.at(t[1], idx)
        raise Unknown("a written diagonal under a sum")

    def options(self, t, names):
        """keyword and positional arguments of a reduction"""
        out, pos = {}, []
        for x in t[2:]:
            if isinstance(x, tuple) and x and x[0] == "kw":
                out[x[1]] = x[2]
            elif isinstance(x, int):
                pos.append(x)
        out.update(zip(names, pos))
        return {a: x for a, x in out.items() if term(x)[:2] != ("k", "None")}

    def reduce(self, op, t, idx):
        o = self.options(t, ("axis", "weights") if op == "average" else ("axis",))
        s = self.dims(t[1])
        if set(o) - {"axis", "weights", "keepdims"}:
            raise Unknown("options of " + op)
        keep = "keepdims" in o and const(o["keepdims"]) != 0 and term(o["keepdims"])[-1] not in ("False", False)
        if "axis" in o:
            a = const(o["axis"])
            if a is None:
                raise Unknown("axis")
            axes = [int(a) % len(s)] if s else []
        else:
            axes = list(range(len(s)))
        us = {a: self.fresh() for a in axes}
        it = iter(idx)
        full = []
        for a in range(len(s)):
            if a in us:
                if keep:
                    next(it, None)
                full.append(us[a])
            else:
                full.append(next(it))
        p = self.at(t[1], tuple(full))
        den = k(1)
        if op == "average" and "weights" in o:
            if len(axes) != 1:
                raise Unknown("weights of several axes")
            w = self.at(o["weights"], tuple(us.values()))
            p = self.mul(p, w)
            x = self.fresh()
            den = self.total(self.rename(w, {axes and us[axes[0]]: x}), x, s[axes[0]])
        elif op in ("mean", "average"):
            for a in axes:
                den = self.mul(den, s[a])
        for a in axes:
            p = self.total(p, us[a], s[a])
        return self.mul(p, self.power(den, Fraction(-1))) if den.key() != k(1).key() else p

    def spread(self, op, t, idx):
        """a variance along one axis (numpy: divided by the length less ddof)"""
        o, s = self.options(t, ("axis",)), self.dims(t[1])
        d = const(o["ddof"]) if "ddof" in o else 0
        if set(o) - {"axis", "ddof"} or d is None or "axis" not in o and len(s) != 1:
            raise Unknown("options of " + op)
        a = const(o["axis"]) if "axis" in o else 0
        if a is None:
            raise Unknown("axis")
        a, u, x = int(a) % len(s), self.fresh(), self.fresh()
        at = lambda i: self.at(t[1], idx[:a] + (i,) + idx[a:])
        m = self.mul(self.total(at(x), x, s[a]), self.power(s[a], Fraction(-1)))
        c = padd(at(u), m, -1)
        v = self.mul(self.total(self.mul(c, c), u, s[a]), self.power(padd(s[a], k(d), -1), Fraction(-1)))
        return v if op == "var" else self.power(v, Fraction(1, 2))

    def einsum(self, t, idx):
        sub = term(t[1])
        if not sub or sub[:2] != ("k", "str"):
            raise Unknown("einsum")
        spec = sub[2].strip("'\"").replace(" ", "")
        ins, _, out = spec.partition("->")
        if "->" not in spec or "." in spec:
            raise Unknown("einsum")
        m = dict(zip(out, idx))
        dims, p = {}, k(1)
        ops = [x for x in t[2:] if isinstance(x, int)]
        for letters, x in zip(ins.split(","), ops):
            for l, d in zip(letters, self.dims(x)):
                dims.setdefault(l, d)
                m.setdefault(l, None)
        for l in m:
            if m[l] is None:
                m[l] = self.fresh()
        for letters, x in zip(ins.split(","), ops):
            p = self.mul(p, self.at(x, tuple(m[l] for l in letters)))
        for l in sorted(set(dims) - set(out)):
            p = self.total(p, m[l], dims[l])
        return p

    def select(self, t, idx, v0):
        x = term(t[2])
        if len(t) == 3 and self.diagonal(t[2]) and len(idx) == 1:
            return self.at(t[1], idx * 2)
        parts = [term(y) for y in x[1:]] if x and x[0] == "ix" else [x]
        ids = list(x[1:]) if x and x[0] == "ix" else [t[2]]
        out, it, moved = [], iter(idx), {}
        for y, v in zip(parts, ids):
            if y[:2] == ("k", "None"):
                next(it)
            elif y[0] == "slice" and all(term(z)[:2] == ("k", "None") for z in y[1:] if isinstance(z, int)):
                out.append(next(it))
            elif y[0] == "slice":
                dim = self.dims(t[1])[len(out)]
                off, _ = self.span(v, dim)
                i = next(it)
                if off:
                    j = self.fresh()
                    moved[j] = (i, off)
                    i = j
                out.append(i)
            elif self.ordering(v):
                i = next(it)
                out.append(("order", i))          # (that everything is put into the same order is decided by P07)
            elif y[:2] == ("k", "int"):
                out.append(("c", int(const(v))))
            elif len(parts) == 1 and y[0] in ("Lt", "Gt", "LtE", "GtE") and self.shape(v) == self.shape(t[1]):
                q = self.mul(self.at(t[1], idx), self.at(v, idx))
                return q
            else:
                return self.opaque(v0, idx)
        out += list(it)
        q = self.at(t[1], tuple(out))
        for j, (i, off) in moved.items():
            q = self.moved(q, j, i, off)
        return q

    def moved(self, p, j, i, off):
        """p with index j replaced by i + off: entries of inputs are named after the shifted array"""
        def at_(a):
            if not isinstance(a, tuple) or not a or j not in idx_of(a):
                return a
            if a[0] in ("F", "P"):
                return tuple(ke(x) if isinstance(x, frozenset) else x for x in a)
            if a[0] == "@" and a[1] != "I" and a[1][0] != "position":
                ax = [q for q, x in enumerate(a[2]) if x == j]
                if a[1][0] == "sh":
                    m = a[1]
                    if m[2] != tuple(ax):
                        raise Unknown("shift")
                    to = padd(Poly(dict(m[3])), off)
                    return ("@", ("sh", m[1], m[2], to.key()) if to else m[1], tuple(i if x == j else x for x in a[2]))
                return ("@", ("sh", a[1], tuple(ax), off.key()), tuple(i if x == j else x for x in a[2]))
            raise Unknown("shift")

        def ke(key):
            out = Poly()
            for mon, c in key:
                out = padd(out, Poly({frozenset((at_(a), e) for a, e in mon): c}))
            return out.key()
        return Poly(dict(ke(p.key())))

    @staticmethod
    def ordering(v):
        return term(v)[:1] in (("argsort",), ("M",))

    def reordered(self, v):
        """the array whose entries v holds in another order"""
        t = term(v)
        if t[:1] == ("get",) and len(t) == 3:
            ids = term(t[2])[1:] if term(t[2])[:1] == ("ix",) else (t[2],)
            if any(self.ordering(x) for x in ids) and all(self.ordering(x) or term(x)[:1] == ("slice",) and all(term(z)[:2] == ("k", "None") for z in term(x)[1:] if isinstance(z, int)) for x in ids):
                return t[1]
        return None

    guards = nothing_zero = False

    def alts(self, t):
        """the alternatives of a joined value; a constant next to formulas is a guard for degenerate numbers"""
        xs = {x for x in t[1:] if isinstance(x, int)}
        ys = {x for x in xs if const(x) is None} or xs
        self.guards |= len(ys) < len(xs)
        return sorted(ys)

    def recs(self, v, depth=0):
        """the tables v may be, or None"""
        v = self.chosen.get(v, v)
        t = term(v)
        if t[:1] == ("rec",):
            return [v]
        if t[:1] == ("phi",) and depth < 20:
            out = set()
            for x in t[1:]:
                r = self.recs(x, depth + 1)
                if not r:
                    return None
                out |= set(r)
            return sorted(out)
        return None

    def strip(self, v, depth=0):
        """entries put into another order of the labels are the same quantities (the order itself is decided by P06)"""
        t = term(v)
        if not t or depth > 30:
            return v
        if t[0] == "reindex" and isinstance(t[1], int):
            return self.strip(t[1], depth + 1)
        if t[0] == "get" and term(t[1])[:1] == ("attr",) and term(t[1])[2] == "loc":
            return self.strip(term(t[1])[1], depth + 1)
        if self.nothing_zero and t[0] == "get" and len(t) == 3 and term(t[2])[:1] == ("inv",) and term(term(t[2])[1])[:1] == ("isclose",):
            return self.strip(t[1], depth + 1)      # the entries that are not zero
        if t[0] == "get" and len(t) >= 3 and all(isinstance(x, int) and term(x)[:1] == ("attr",) and term(x)[2] in ("index", "columns") for x in t[2:]):
            return self.strip(t[1], depth + 1)
        if t[0] == "get" and len(t) == 3 and term(t[2])[:2] == ("k", "str"):
            b, seen = t[1], 0
            while b in self.chosen and seen < 20:
                b, seen = self.chosen[b], seen + 1
            q, key = term(self.strip(b, depth + 1)), term(t[2])[2].strip("'\"")
            if q[:1] == ("rec",):
                for x in q[1:]:
                    if x[1].strip("'\"") == key:
                        return self.strip(x[2], depth + 1)
            rs = self.recs(b)
            if rs and q[:1] == ("phi",):
                got = {self.strip(x[2], depth + 1) for r in rs for x in term(r)[1:] if x[1].strip("'\"") == key}
                if len(got) == 1:
                    return got.pop()
        if t[0] in ("N", "Ns") and len(t) == 2:
            return self.strip(t[1], depth + 1)
        if t[0] == "phi" and v not in self.chosen:
            u = {self.strip(x, depth + 1) for x in self.alts(t)}
            u.discard(v)
            if len(u) == 1:
                return u.pop()
        return v

    def rows_of(self, v):
        """the equally shaped rows of an array made from a list of arrays, or None"""
        t = term(v)
        if t[:1] == ("numpy.vstack",) and len(t) == 2 and isinstance(t[1], int):
            return self.rows_of(t[1])
        if t[:1] != ("Ns",) or len(t) < 3 or not all(isinstance(x, int) for x in t[1:]):
            return None
        b = term(t[1])
        while b[:1] in (("N",), ("Ns",), ("numpy.vstack",)) and isinstance(b[1], int):
            b = term(b[1])
        if b[:1] != ("list",):
            return None
        s = [self.shape(x) for x in t[2:]]
        if any(x is None or len(x) > 1 for x in s) or len({x[0].key() if x else None for x in s}) != 1:
            return None
        return t[2:]

    # -------------------------------------------------------------- shapes of the additional forms
    def shape(self, v, depth=0):
        v = self.alias.get(v, v)
        t = term(v)
        if v in self.fixed:
            return self.fixed[v]
        if t and depth <= 40:
            go = lambda x: self.shape(x, depth + 1)
            if t[0] == "vec":
                s = go(t[1])
                return None if s is None or len([d for d in s if d.key() != D1.key()]) > 1 else tuple([d for d in s if d.key() != D1.key()] or [D1])
            if t[0] in ("exp", "log", "expm1", "log1p", "abs", "neg"):
                return go(t[1])
            if t[0] in ("col", "row"):
                s = go(t[1])
                return s if s is None or len(s) != 1 else (s[0], D1) if t[0] == "col" else (D1, s[0])
            if t[0] == "rint":
                return go(t[1])
            if t[0] == "get" and len(t) == 3 and term(t[2])[:1] == ("slice",) and go(t[1]) is None and [term(z)[:2] == ("k", "None") for z in term(t[2])[1:]] == [True, False, True]:
                n = term(term(t[2])[2])
                s = go(n[1]) if n[:1] == ("len",) else None
                return s[:1] if s else None         # the first entries of an array not known otherwise
            if t[0] == "get" and len(t) == 3 and self.diagonal(t[2]):
                s = go(t[1])
                return None if s is None or len(s) != 2 else s[:1]
            its = self.rows_of(v) if t[0] in ("Ns", "numpy.vstack") else None
            if its:
                return (k(len(its)),) + go(its[0])
            u = self.strip(v)
            if u != v:
                return go(u)
            if t[0] == "phi":
                if v in self.chosen:
                    return go(self.chosen[v])
                raise Branch(v, self.alts(t))
            if t[0] in ("numpy.zeros_like", "numpy.ones_like", "zeros_like", "ones_like", "nan_to_num", "argsort", "sort", "cumsum", "cumprod", "clip", "numpy.asarray"):
                return go(t[1])
            if t[0] in ("Lt", "Gt", "LtE", "GtE", "maximum", "minimum", "FloorDiv", "ppf") and len(t) == 3:
                a, b = go(t[1]), go(t[2])
                return None if a is None or b is None else a if len(a) >= len(b) else b
            if t[0] == "take_along_axis" and len(t) == 4:
                a, b = go(t[1]), go(t[2])
                ax = const(t[3] if isinstance(t[3], int) else t[3][-1])
                return None if a is None or b is None or ax is None or len(a) != len(b) else tuple(b[q] if q == ax else a[q] for q in range(len(a)))
            if t[0] in ("argmax", "argmin") and len(t) == 3:
                a, ax = go(t[1]), const(t[2] if isinstance(t[2], int) else t[2][-1])
                return None if a is None or ax is None else a[:int(ax)] + a[int(ax) + 1:]
            if t[0] in ("arange", "numpy.arange") and all(isinstance(x, int) for x in t[1:]):
                a = [self.at(x, ()) for x in t[1:3]]
                return (a[0],) if len(a) == 1 else (padd(a[1], a[0], -1),)
            if t[0] == "get" and len(t) == 3 and term(t[2])[:1] and term(t[2])[0] in ("Lt", "Gt", "LtE", "GtE"):
                return go(t[1])
            if t[0] == "outer":
                a, b = go(t[1]), go(t[2])
                return a + b if a and b else None
            if t[0] == "Pow":
                a, b = go(t[1]), go(t[2])
                return None if a is None or b is None else a if len(a) >= len(b) else b
            if t[0] in ("Add", "Sub", "Mult", "Div"):
                a, b = go(t[1]), go(t[2])
                if a is None or b is None:
                    return None
                if len(a) < len(b):
                    a, b = b, a
                out = list(a)
                for i, d in enumerate(b):
                    j = len(a) - len(b) + i
                    if out[j].key() == D1.key():
                        out[j] = d
                return tuple(out)
            if t[0] in ("sum", "mean", "average", "std", "var"):
                s = go(t[1])
                if s is None:
                    return None
                o = self.options(t, ("axis", "weights") if t[0] == "average" else ("axis",))
                keep = "keepdims" in o and term(o["keepdims"])[-1] not in ("False", False)
                if "axis" not in o:
                    return () if not keep else tuple(D1 for _ in s)
                a = const(o["axis"])
                if a is None or not s:
                    return None
                a = int(a) % len(s)
                return s[:a] + ((D1,) if keep else ()) + s[a + 1:]
            if t[0] == "einsum":
                q = term(t[1])
                if not q or q[:2] != ("k", "str") or "->" not in q[2]:
                    return None
                ins, out = q[2].strip("'\"").replace(" ", "").split("->")
                dims = {}
                for letters, x in zip(ins.split(","), [x for x in t[2:] if isinstance(x, int)]):
                    s = go(x)
                    if s is None:
                        return None
                    dims.update(zip(letters, s))
                return tuple(dims.get(l) for l in out) if all(l in dims for l in out) else None
            if t[0] == "get" and len(t) == 3:
                x = term(t[2])
                s = go(t[1])
                if x and s is not None and (x[0] in ("ix", "slice") or x[:2] == ("k", "int") or self.ordering(t[2])) and self.dimterm(t) is None:
                    out, rest = [], list(s)
                    for z in (x[1:] if x[0] == "ix" else [t[2]]):
                        y = term(z)
                        if y[:2] == ("k", "None"):
                            out.append(D1)
                        elif not rest:
                            return None
                        elif y[0] == "slice" and all(term(z)[:2] == ("k", "None") for z in y[1:] if isinstance(z, int)):
                            out.append(rest.pop(0))
                        elif self.ordering(z):
                            out.append(rest.pop(0))
                        elif y[0] == "slice":
                            out.append(self.span(z, rest.pop(0))[1])
                        elif y[:2] == ("k", "int"):
                            rest.pop(0)
                        else:
                            return None
                    return tuple(out + rest)
            if t[0] == "solve" and len(t) == 3:
                return go(t[2])
            if t[0] == "range" and len(t) == 2:
                q = self.scalar(t[1])
                return None if q is None else (q,)
            if t[0] in ("inv", "pinv", "upd", "pct_change"):
                return go(t[1])
            if t[0] == "cov" and len(t) == 5:
                return go(t[1])[:1] * 2
        return Blocks.shape(self, v, depth)

    # -------------------------------------------------------------- comparison
    def clear(self, p):
        """multiply a sum by the bases of its negative powers: it is zero exactly when the result is"""
        for _ in range(12):
            p = self.tidy(p)
            neg = {}
            for mon in p:
                for a, e in mon:
                    if isinstance(a, tuple) and a[0] == "P" and e < 0 and not any(i in self.bound for i in idx_of(a)):
                        neg[a] = min(neg.get(a, 0), e)
            if not neg:
                return p
            a = min(neg, key=lambda x: (self.height([(x, 1)]), canon(x)))
            f = Poly({frozenset([(a, -neg[a])]): F1})
            out = Poly()
            for mon, c in p.items():
                out = padd(out, self.mul(Poly({mon: c}), f))
            p = out
        return p

    # -------------------------------------------------------------- forms as functions: two forms with equal values at random points are the same function
    SIZES = {"N": 3, "T": 4, "M": 2}

    def size_of(self, name):
        if name[0] == "position":
            return [self.number(Poly(dict(name[1])))]
        s = self.shapes.get(name)
        if s is None:
            raise Unknown("size")
        return [self.SIZES[x] if isinstance(x, str) else self.number(x) for x in s]

    def number(self, p):
        return int(sum(c * math.prod(self.SIZES[a] ** int(e) for a, e in mon) for mon, c in p.items()))

    def value(self, p, env, seed, key=False):
        out = 0.0
        for mon, c in (p if key else p.items()):
            h = self.height(mon)
            here = sorted({i for a, _ in mon for i in idx_of(a) if i not in env and (i[0] == "z" and i[1] == h if key and isinstance(i, tuple) else i in self.bound)}, key=canon)
            rng = []
            for i in here:
                n = self.range_of(i, mon)
                if n is None:
                    raise Unknown("range")
                rng.append(range(n))
            for q in itertools.product(*rng):
                e2 = {**env, **dict(zip(here, q))}
                x = float(c)
                for a, e in mon:
                    x *= self.value_of(a, e2, seed) ** (int(e) if e.denominator == 1 else float(e))
                out += x
        return out

    drawn, values, known_symmetric, steps = {}, {}, {}, 0

    def range_of(self, i, mon):
        def go(a):
            if not isinstance(a, tuple) or not a:
                return None
            if a[0] == "@" and i in a[2] and (a[1] in self.shapes or a[1][0] == "position"):
                return self.size_of(a[1])[a[2].index(i)]
            if a[0] == "?" and i in a[2]:
                s = self.shape(a[1])
                d = [x for x in s or () if x.key() != D1.key()]
                return self.number(d[a[2].index(i)]) if len(d) == len(a[2]) else None
            if a[0] == "M" and i in a[-1] and a[1] in ("inv", "pinv"):        # as many as the matrix has rows
                for x in a[2:-1]:
                    for mm, _ in x if isinstance(x, frozenset) else ():
                        for b, _ in mm:
                            if isinstance(b, tuple) and b[0] == "@" and b[1] in self.shapes and len(b[2]) == 2:
                                return self.size_of(b[1])[0]
            for x in a:
                if isinstance(x, frozenset):
                    for mm, _ in x:
                        for b, _ in mm:
                            n = go(b)
                            if n:
                                return n
            return None
        for a, _ in mon:
            n = go(a)
            if n:
                return n
        return None

    def value_of(self, a, env, seed):
        """of an atom (compound atoms are computed once per assignment of their indices)"""
        self.steps += 1
        if not self.steps % 1000:
            self.in_time()
        if self.steps > MAXSTEPS:
            raise Unknown("too many values")
        if isinstance(a, str) or a[0] not in ("P", "F"):
            return self.fresh_value(a, env, seed)
        key = (a, seed, tuple((i, env.get(i)) for i in sorted(idx_of(a), key=canon)), tuple(self.force.items()))
        if key not in self.values:
            self.values[key] = self.fresh_value(a, env, seed)
        return self.values[key]

    def fresh_value(self, a, env, seed):
        def rnd(*x):
            if seed > 3 and x[0] != "M" and len(x) > 1 and x[0] not in self.sym and x[0] not in self.unit and (x[0] == "?" or x[0] in self.shapes):     # of either sign
                return draw(*x) * (1 if draw("sign", *x) < 3 else -1)
            return draw(*x)

        def draw(*x):
            y = (seed,) + x
            if y not in self.drawn:
                self.drawn[y] = random.Random(repr(y)).uniform(0.1, 0.9 if seed < 3 else 6.0)
            return self.drawn[y]

        def pos(i):
            if i in env:
                return env[i]
            if isinstance(i, int):
                return i
            if isinstance(i, tuple) and i[0] == "c":
                return i
            raise Unknown("index")
        if isinstance(a, str):
            if a in self.force:
                return self.force[a]
            return float(self.SIZES[a]) if a in self.SIZES else rnd(a)
        if a[0] == "P":
            return self.value(a[1], env, seed, True)
        if a[0] == "@":
            ix = [pos(i) for i in a[2]]
            if a[1] in self.force:
                return self.force[a[1]]
            if a[1] == "I":
                return 1.0 if ix[0] == ix[1] else 0.0
            if a[1][0] == "position":
                return float(ix[0])
            if a[1] in self.unit:
                n, = self.size_of(a[1])
                return rnd(a[1], ix[0]) / sum(rnd(a[1], j) for j in range(n))
            if a[1] in self.sym:        # a covariance
                return sum(rnd(a[1], ix[0], q) * rnd(a[1], ix[1], q) for q in range(3)) / 3 + (0.2 if ix[0] == ix[1] else 0.0)
            return rnd(a[1], *ix)
        if a[0] == "M" and a[1] in ("inv", "pinv") and len(a[-1]) == 2 and self.is_symmetric(a[2]):
            return rnd("M", canon(a[1:-1]), *sorted(map(pos, a[-1])))
        if a[0] in ("?", "M"):
            return rnd(a[0], canon(a[1:-1]), *[pos(i) for i in a[-1]])
        if a[0] == "F":
            xs = [None if x is None else self.value(x, env, seed, True) for x in a[2:]]
            if any(isinstance(x, complex) for x in xs):
                raise Unknown("complex")
            f = EXACT.get(a[1])
            if f:
                return f(*xs)
            return rnd(a[1], *["%.6g" % x if x is not None else "" for x in xs])
        raise Unknown("value")

    def agree(self, a, b):
        """equal at random points? (None where a value does not exist)"""
        try:
            free = {i for p in (a, b) for mon in p for x, _ in mon for i in idx_of(x) if isinstance(i, str)}
            self.steps, self.values, self.drawn = 0, {}, {}
            for seed in range(6):       # from 3 on: wide ranges (a clipped value is not always at its bound)
                env = {i: q % 2 for q, i in enumerate(sorted(free))}
                try:
                    x, y = self.value(a, env, seed), self.value(b, env, seed)
                    if isinstance(x, complex) or isinstance(y, complex):
                        raise Unknown("complex")
                except (Unknown, KeyError, ValueError, OverflowError, ZeroDivisionError, TypeError):
                    if seed < 3:
                        raise
                    continue
                if abs(x - y) > 1e-8 * (1 + abs(x) + abs(y)):
                    return False
            return True
        except (Unknown, KeyError, ValueError, OverflowError, ZeroDivisionError, TypeError):
            return None

    @staticmethod
    def names_in(p):
        """the inputs a form is about"""
        out = set()

        def go(a):
            if isinstance(a, str):
                out.add(a)
            elif isinstance(a, tuple) and a:
                if a[0] == "@" and isinstance(a[1], str):
                    out.add(a[1])
                for x in a:
                    if isinstance(x, frozenset):
                        for mon, _ in x:
                            for b, _ in mon:
                                go(b)
        for mon in p:
            for a, _ in mon:
                go(a)
        return out

    def agree_where(self, a, b, names):
        """do the forms agree where one of the scalars is 0 or 1? (a shortcut for such a value is not a different formula)"""
        for n in names:
            for x in (1.0, 0.0):
                self.force = {n: x}
                try:
                    if self.agree(a, b):
                        return True
                finally:
                    self.force = {}
        return False

    def pieces(self, a, b):
        """the pieces of the kinked functions in b (min, max, clip) with which b agrees with a"""
        out = set()
        if any(x[1] in ("min", "max", "clip") for x in functions(a)):
            return out
        for q, x in enumerate(sorted((x for x in functions(b) if x[1] in ("min", "max", "clip") and x in {y for mon in b for y, _ in mon}), key=canon)[:3]):
            for n, y in enumerate(x[2:]):
                if y is not None and self.agree(a, swap(b, {x: ("P", y)})):
                    out.add((q, n))
        return out

    def same(self, a, b):
        """True / False / None (not known)"""
        try:
            r = self.same_form(a, b)
        except Unknown:         # too large to compare term by term
            r = None
        if not r:
            q = self.agree(a, b)
            if q:
                return True
            if r is None and q is False and named_only(a) == named_only(b):
                return False
        return r

    def same_form(self, a, b):
        d = self.clear(padd(a, b, -1))
        if not d:
            return True
        x, y = inner(a), inner(b)
        if x == y:
            return False
        top = lambda p: {q for mon in p for q, _ in mon if q in inner(atom(q))}
        x, y = top(a) - top(b), top(b) - top(a)
        if len(x) == len(y) == 1:
            (x,), (y,) = x, y
            if x[:2] == y[:2] and len(x) == len(y) and x[0] in ("F", "M") and (x[0] == "F" or x[-1] == y[-1]) and not self.clear(padd(swap(a, {x: "soft"}), swap(b, {y: "soft"}), -1)):
                ps = [(p, q) for p, q in zip(x[2:], y[2:]) if p != q]
                if all(isinstance(p, frozenset) and isinstance(q, frozenset) for p, q in ps):
                    r = [self.same(self.thaw(p), self.thaw(q)) for p, q in ps]
                    if False in r and None not in r:
                        return False
        return None


def show(p):
    def a_(a):
        if isinstance(a, tuple) and a:
            if a[0] == "@":
                return "%s[%s]" % (a[1], ",".join(i_(i) for i in a[2]))
            if a[0] == "?":
                return "%s[%s]" % (term(a[1])[0], ",".join(i_(i) for i in a[2]))
            if a[0] == "P":
                return "(%s)" % show(Poly(dict(a[1])))
            if a[0] == "F":
                return "%s(%s)" % (a[1], ", ".join(show(Poly(dict(x))) for x in a[2:] if isinstance(x, frozenset)))
            if a[0] == "M":
                return "%s(%s)[%s]" % (a[1], ", ".join(show(Poly(dict(x))) for x in a[2:-1] if isinstance(x, frozenset)), ",".join(i_(i) for i in a[-1]))
        return str(a)

    def i_(i):
        return i if isinstance(i, str) else "klmnq"[i[2] % 5] + "'" * i[1] if i and i[0] == "b" else str(i[1]) if i else "0"
    if not p:
        return "0"
    out = []
    for mon, c in sorted(p.items(), key=lambda q: canon(q[0])):
        fs = [a_(a) + ("" if e == 1 else "^%s" % e) for a, e in sorted(mon, key=lambda q: canon(q[0]))]
        out.append((str(c) if c != 1 or not fs else "") + ("*" if c != 1 and fs else "") + "*".join(fs))
    return " + ".join(out).replace("+ -", "- ")
