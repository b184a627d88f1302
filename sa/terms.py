"""Value numbers as formulas: normal forms of the expression a value was computed by (global value numbering; nothing is executed)."""
from fractions import Fraction
from .values import term

WRAP = {"numpy.vstack", "numpy.hstack", "numpy.concatenate", "numpy.array", "numpy.stack", "numpy.row_stack", "numpy.atleast_2d", "numpy.asarray", "reshape", "ravel", "flatten"}


def show(vid, depth=6):
    t = term(vid)
    if not t or depth < 0:
        return ".." if t else str(vid)
    return "(%s)" % " ".join(show(x, depth - 1) if isinstance(x, int) else str(x) for x in t)


def const(vid):
    t = term(vid)
    if t and t[0] == "k" and t[1] in ("int", "float"):
        try:
            return Fraction(t[2]) if t[1] == "int" else Fraction(float(t[2])).limit_denominator(10 ** 12)
        except (ValueError, OverflowError):
            return None
    if t and t[0] == "neg":
        c = const(t[1])
        return None if c is None else -c
    return None


def sources(vid, seen=None):
    """names of the inputs a value was computed from"""
    out, todo, seen = set(), [vid], set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        t = term(v)
        if t and t[0] == "src":
            out.add(t[1])
            continue
        todo += [x for x in t[1:] if isinstance(x, int)]
    return out


def strings(vid):
    """string constants a value was computed from"""
    out, todo, seen = set(), [vid], set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        t = term(v)
        if t and t[0] == "k" and t[1] == "str":
            out.add(str(t[2]).strip("'\""))
            continue
        todo += [x for x in t[1:] if isinstance(x, int)]
    return out


def leaves(vid, depth=0):
    """the rows stacked into a matrix (or entries into a vector), whatever the order; None when unknown"""
    t = term(vid)
    if not t or depth > 40:
        return None
    if t[0] in ("phi", "N", "Ns") or t[0] in WRAP:
        out = set()
        for x in t[1:]:
            if not isinstance(x, int):
                continue
            s = term(x)
            if t[0] in ("N", "Ns") and s and s[0] in ("list", "tup"):
                continue
            y = leaves(x, depth + 1)
            if y is None:
                return None
            out |= y
        return out
    return {vid}


def ordered(vid, depth=0):
    """the entries of a list or of an array built from one, in order; None when unknown"""
    t = term(vid)
    if not t or depth > 20:
        return None
    if t[0] == "Ns":
        return list(t[2:])
    if t[0] == "tup":
        return list(t[1:])
    ch = [x for x in t[1:] if isinstance(x, int)]
    if t[0] in WRAP and ch:
        return ordered(ch[0], depth + 1)
    return None


def subterms(vid, ops):
    out, todo, seen = [], [vid], set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        t = term(v)
        if t and t[0] in ops:
            out.append(v)
        todo += [x for x in t[1:] if isinstance(x, int)]
    return out


# ------------------------------------------------------------------ polynomials with rational coefficients and exponents over named atoms
class Poly(dict):
    """{frozenset of (atom, exponent): coefficient}"""

    def key(self):
        return frozenset(self.items())

    def show(self):
        if not self:
            return "0"
        out = []
        for m, c in sorted(self.items(), key=lambda x: str(sorted(map(str, x[0])))):
            fs = ["%s" % (a if isinstance(a, str) else _sh(a)) + ("" if e == 1 else "^%s" % e) for a, e in sorted(m, key=str)]
            out.append(("" if c == 1 and fs else "-" if c == -1 and fs else "%s%s" % (c, "*" if fs else "")) + "*".join(fs))
        return " + ".join(out).replace("+ -", "- ")


def _sh(a):
    if isinstance(a, tuple) and a and a[0] == "mm":
        return "(" + " @ ".join(Poly({m: Fraction(1)}).show() for m in a[1]) + ")"
    if isinstance(a, tuple) and a and a[0] == "T":
        return _sh(a[1]) + "'"
    if isinstance(a, tuple) and a and a[0] == "f":
        return "%s(%s)" % (a[1], ", ".join(Poly(dict(x)).show() if isinstance(x, frozenset) else str(x) for x in a[2:]))
    return str(a)


ONE = frozenset()


def k(c):
    return Poly({ONE: Fraction(c)}) if c else Poly()


def atom(a):
    return Poly({frozenset([(a, Fraction(1))]): Fraction(1)})


def padd(a, b, s=1):
    out = Poly(a)
    for m, c in b.items():
        out[m] = out.get(m, Fraction(0)) + s * c
        if not out[m]:
            del out[m]
    return out


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, Fraction(0)) + e
    return frozenset((x, e) for x, e in d.items() if e)


def pmul(a, b):
    out = Poly()
    if len(a) * len(b) > 400:
        return None
    for m, c in a.items():
        for n, d in b.items():
            out = padd(out, Poly({mmul(m, n): c * d}))
    return out


def ppow(a, e):
    if e == 0:
        return k(1)
    if len(a) == 1:
        (m, c), = a.items()
        if e.denominator == 1:
            return Poly({frozenset((x, y * e) for x, y in m): c ** int(e) if e > 0 or c else None})
        if c == 1:
            return Poly({frozenset((x, y * e) for x, y in m): c})
        return None
    if e.denominator == 1 and 0 < e <= 4:
        out = k(1)
        for _ in range(int(e)):
            out = pmul(out, a)
            if out is None:
                return None
        return out
    if not a:
        return Poly()
    return atom(("f", "pow", a.key(), e))


_CANON = {}


def canon(x):
    """text that is the same for equal values"""
    if x not in _CANON:
        _CANON[x] = "{%s}" % ",".join(sorted(map(canon, x))) if isinstance(x, frozenset) else "(%s)" % ",".join(map(canon, x)) if isinstance(x, tuple) else str(x)
    return _CANON[x]


class Branch(Exception):
    def __init__(self, vid, alts):
        Exception.__init__(self, vid)
        self.vid, self.alts = vid, alts


class Norm:
    """polynomial normal form of value numbers.  name(vid, term) -> atom name, Poly, or None (descend / opaque)
    scalars: names of atoms known to be scalars (they commute with matrix products); sym: names of symmetric matrices"""

    def __init__(self, name, scalars=(), sym=(), vecs=()):
        self.vecs = set(vecs)      # names of vectors: a product between two of them is the same from the right
        self.name, self.scalars, self.sym, self.memo = name, set(scalars), set(sym), {}
        self.chosen, self.branching = {}, False

    def cases(self, vid, cap=48):
        """normal forms of the alternatives a value may be, each alternative taken consistently; None when too many"""
        out, todo, n = {}, [{}], 0
        self.branching = True
        try:
            while todo:
                n += 1
                if n > cap:
                    return None
                self.chosen, self.memo = todo.pop(), {}
                try:
                    p = self(vid)
                    if p is None:
                        p = atom(("?", vid))
                    out[p.key()] = p
                except Branch as b:
                    todo += [{**self.chosen, b.vid: x} for x in b.alts]
        finally:
            self.chosen, self.memo, self.branching = {}, {}, False
        return list(out.values())

    def __call__(self, vid, depth=0):
        if vid not in self.memo:
            self.memo[vid] = self.build(vid, depth)
        return self.memo[vid]

    def diag(self, a):
        """linear, so the scalars come out"""
        out = Poly()
        for m, c in a.items():
            u, r = self.split(m)
            out = padd(out, pmul(Poly({u: c}), atom(("f", "diag", Poly({r: Fraction(1)}).key()))))
        return out

    def build(self, vid, depth):
        t = term(vid)
        if not t or depth > 60:
            return None
        n = self.name(vid, t)
        if isinstance(n, Poly):
            return n
        if n is not None:
            return atom(n)
        c = const(vid)
        if c is not None:
            return k(c)
        op = t[0]
        go = lambda x: self(x, depth + 1)
        if op in ("Add", "Sub", "Mult", "Div", "MatMult"):
            a, b = go(t[1]), go(t[2])
            if a is None or b is None:
                return None
            if op in ("Add", "Sub"):
                return padd(a, b, 1 if op == "Add" else -1)
            if op == "Mult":
                return pmul(a, b)
            if op == "Div":
                d = ppow(b, Fraction(-1))
                return None if d is None else pmul(a, d)
            return self.matmul(a, b)
        if op == "neg":
            a = go(t[1])
            return None if a is None else pmul(k(-1), a)
        if op == "Pow":
            a, e = go(t[1]), const(t[2])
            return None if a is None or e is None else ppow(a, e)
        if op == "T":
            a = go(t[1])
            return None if a is None else self.transpose(a)
        if op in ("phi", "N", "Ns"):
            if vid in self.chosen:
                return go(self.chosen[vid])
            if op != "phi" and isinstance(t[1], int) and term(t[1]) and term(t[1])[0] not in ("list", "tup", "tups", "dict"):
                return go(t[1])         # the snapshot of an array: the array itself
            xs = [x for x in t[1:] if isinstance(x, int) and not (op != "phi" and term(x) and term(x)[0] in ("list", "tup"))]
            ps = [go(x) for x in xs]
            if any(p is None for p in ps) or len({p.key() for p in ps}) != 1:
                if op == "phi" and self.branching:
                    raise Branch(vid, xs)
                return None
            return ps[0]
        if op in ("solve", "numpy.linalg.solve", "inv", "numpy.linalg.inv", "pinv", "numpy.linalg.pinv") and len(t) in (2, 3):
            a = go(t[1])
            if a is None:
                return None
            i = atom(("f", "inv", a.key()))
            if len(t) == 2:
                return i
            b = go(t[2])
            return None if b is None else self.matmul(i, b)
        if op in ("diag", "numpy.diag") and (len(t) == 2 or len(t) == 3 and isinstance(t[2], int) and const(t[2]) == 0):
            a = go(t[1])
            return None if a is None else self.diag(a)
        if op in WRAP and sum(isinstance(x, int) for x in t[1:]) == 1:
            return go([x for x in t[1:] if isinstance(x, int)][0])
        return atom(("?", vid))

    def split(self, m):
        """scalar part and the rest of a monomial"""
        s = frozenset((a, e) for a, e in m if a in self.scalars)
        return s, m - s

    def matmul(self, a, b):
        out = Poly()
        for m, c in a.items():
            for n, d in b.items():
                s1, r1 = self.split(m)
                s2, r2 = self.split(n)
                chain = self.chain(r1) + self.chain(r2)
                key = mmul(s1, s2)
                if len(chain) == 1 or not chain:
                    key = mmul(key, chain[0]) if chain else key
                else:
                    key = mmul(key, frozenset([(("mm", self.either(tuple(chain))), Fraction(1))]))
                out = padd(out, Poly({key: c * d}))
        return out

    def either(self, chain):
        if not self.vecs or not all(self.isvec(m) for m in (chain[0], chain[-1])):
            return chain
        back = tuple(m if i in (0, len(chain) - 1) else frozenset((self.tr_atom(x), e) for x, e in m) for i, m in reversed(list(enumerate(chain))))
        return min(chain, back, key=lambda c: [canon(m) for m in c])

    def isvec(self, m):
        """is an elementwise product one of vectors?"""
        vs = [a for a, e in m if a in self.vecs or isinstance(a, tuple) and a and a[0] in self.vecs]
        return bool(vs) and all(a in self.vecs or a in self.scalars or isinstance(a, tuple) and a and a[0] in self.vecs for a, e in m)

    def chain(self, m):
        if not m:
            return []
        if len(m) == 1:
            (a, e), = m
            if e == 1 and isinstance(a, tuple) and a and a[0] == "mm":
                return list(a[1])
        return [m]

    def tr_atom(self, a):
        if a in self.sym or a in self.scalars:
            return a
        if isinstance(a, tuple) and a and a[0] == "T":
            return a[1]
        if isinstance(a, tuple) and a and a[0] == "mm":
            return ("mm", tuple(frozenset((self.tr_atom(x), e) for x, e in m) for m in reversed(a[1])))
        return ("T", a)

    def transpose(self, p):
        out = Poly()
        for m, c in p.items():
            out = padd(out, Poly({frozenset((self.tr_atom(a), e) for a, e in m): c}))
        return out


def opaque(p):
    """does a normal form contain atoms the specification does not name?"""
    def bad(a):
        if isinstance(a, tuple):
            if a and a[0] == "?":
                return True
            if a and a[0] == "mm":
                return any(bad(x) for m in a[1] for x, _ in m)
            if a and a[0] == "T":
                return bad(a[1])
            if a and a[0] == "f":
                return any(bad(x) for q in a[2:] if isinstance(q, frozenset) for m, _ in q for x, _ in m)
        return False
    return p is None or any(bad(a) for m in p for a, _ in m)
