"""Matrices as blocks: value numbers of stacked, padded and partly overwritten matrices as lists of placed blocks with symbolic offsets and sizes."""
from fractions import Fraction
from .values import term
from .terms import Norm, Poly, padd, pmul, ppow, atom, k, opaque, const, ordered, Branch, sources

STACKV = {"numpy.vstack", "numpy.row_stack"}
STACKH = {"numpy.hstack", "numpy.column_stack", "numpy.c_"}
SAMPLE = {"N": 7, "T": 31, "K": 11, "M": 3, "i": 2}     # sizes used only to order offsets that are already known as formulas


class Unknown(Exception):
    pass


def num(p):
    """value of a size formula at the sample sizes"""
    out = Fraction(0)
    for m, c in p.items():
        v = c
        for a, e in m:
            if a not in SAMPLE or e.denominator != 1:
                raise Unknown("size %s" % p.show())
            v *= Fraction(SAMPLE[a]) ** int(e)
        out += v
    return out


class Mat:
    """blocks (row offset, height, column offset, width, entry) over a zero background; a vector has nd 1 and width 1"""

    def __init__(self, H, W, regs, nd=2):
        self.H, self.W, self.regs, self.nd = H, W, regs, nd

    def map(self, f):
        return Mat(self.H, self.W, [(r, h, c, w, f(e)) for r, h, c, w, e in self.regs], self.nd)

    def show(self):
        return "%s x %s: " % (self.H.show(), self.W.show()) + "; ".join("[%s+%s, %s+%s] %s" % (r.show(), h.show(), c.show(), w.show(), e.show()) for r, h, c, w, e in self.regs)


ONE, ZERO = k(1), Poly()


class Broken(Exception):
    """an expression numpy refuses"""


class Blocks:
    """shapes: {input name: sizes}, e.g. {"S": ("N", "N"), "mu": ("N",)}; name: as for Norm"""

    def __init__(self, shapes, name=None, scalars=(), sym=(), sample=None):
        self.shapes = {a: tuple(k(d) if isinstance(d, int) else atom(d) for d in s) for a, s in shapes.items()}
        self.extra = name
        self.N = Norm(self.name, scalars=set(scalars) | set(SAMPLE) | {a for a, s in shapes.items() if not s}, sym=sym, vecs={a for a, s in shapes.items() if len(s) == 1})
        self.memo = {}
        self.chosen = {}

    # ---------------------------------------------------------------- scalars and whole matrices
    def name(self, v, t):
        if self.extra:
            q = self.extra(self, v, t)
            if q is not None:
                return q
        if t[0] == "src":
            return t[1]
        if t[0] in ("numpy.eye", "numpy.identity") and self.square_eye(t):
            return "I"
        if t[0] == "numpy.ones":
            return k(1)
        if t[0] == "numpy.zeros":
            return Poly()
        if t[0] == "full" and len(t) == 3 and self.shape(t[1]) == ():
            return self.N(t[1])
        if t[0] in ("float", "int", "squeeze", "numpy.squeeze", "asarray"):
            return self.N(t[1])
        d = self.dimterm(t)
        if d is not None:
            return d
        if t[0] == "get" and len(t) == 3 and term(t[2]) and term(t[2])[0] == "ix":      # a vector as a column or a row
            s, q = self.shape(v), self.shape(t[1])
            if q and s and len(q) == 1 and len(s) == 2:
                p = self.N(t[1])
                return p if p is None or s[1].key() == ONE.key() else self.N.transpose(p)
        return None

    def square_eye(self, t):
        a = self.dims_args(t)
        return len(a) == 1

    def dims_args(self, t):
        return [x for x in t[1:] if isinstance(x, int) and not (term(x) and term(x)[0] == "g")]

    def dimterm(self, t):
        """sizes of known matrices"""
        if t[0] == "attr" and len(t) == 3 and t[2] == "size":
            m = self.shape(t[1])
            if m is None:
                return None
            out = ONE
            for d in m:
                out = pmul(out, d)
            return out
        if t[0] == "len" and len(t) == 2:
            m = self.shape(t[1])
            return m[0] if m else None
        if t[0] in ("get", "unp") and len(t) == 3:
            q = term(t[1])
            while q and q[0] in ("N", "Ns") and isinstance(q[1], int):
                q = term(q[1])
            if q and q[0] == "attr" and q[2] in ("shape", "size"):
                m = self.shape(q[1])
                if not m:
                    return None
                if t[0] == "get":
                    i = const(t[2])
                else:
                    i = t[2] if isinstance(t[2], int) and not isinstance(t[2], bool) and t[2] in (0,) else -1
                    if len(m) > 2:
                        return None
                try:
                    return m[int(i)] if i is not None else None
                except IndexError:
                    return None
        return None

    def scalar(self, v):
        p = self.N(v)
        if p is None or opaque(p):
            return None
        return p

    # ---------------------------------------------------------------- shapes
    def shape(self, v, depth=0):
        t = term(v)
        if not t or depth > 40:
            return None
        go = lambda x: self.shape(x, depth + 1)
        q = self.extra(self, v, t) if self.extra else None
        if isinstance(q, str) and q in self.N.scalars:
            return ()
        if t[0] == "el" and len(t) == 2:
            s = go(t[1])
            return s[1:] if s else None
        if t[0] in ("attr", "len", "unp", "get") and self.dimterm(t) is not None:
            return ()
        if t[0] == "get" and len(t) == 3 and go(t[2]) == ():
            s = go(t[1])
            return s[1:] if s else None
        if t[0] == "src":
            return self.shapes.get(t[1])
        if t[0] == "k":
            return ()
        if t[0] == "T":
            s = go(t[1])
            return None if s is None else tuple(reversed(s)) if len(s) == 2 else s
        if t[0] in ("sum", "mean", "max", "min", "prod", "trace") and len(t) == 2:
            return ()
        if t[0] in ("neg", "Pow", "abs", "sqrt", "exp", "log", "clip", "chol", "max", "min"):
            return go(t[1])
        if t[0] in ("Add", "Sub", "Mult", "Div"):
            a, b = go(t[1]), go(t[2])
            if a is None or b is None:
                return None
            if len(a) != len(b):
                return a if len(a) > len(b) else b
            out = []
            for x, y in zip(a, b):
                out.append(y if x.key() == ONE.key() else x)
            return tuple(out)
        if t[0] in ("numpy.eye", "numpy.identity"):
            a = self.dims_args(t)
            d = [self.scalar(x) for x in a[:2]]
            return None if None in d or not d else (d[0], d[1] if len(d) > 1 else d[0])
        if t[0] == "full" and len(t) == 3:
            return self.dimspec(t[2])
        if t[0] in ("numpy.zeros", "numpy.ones", "numpy.empty"):
            return self.dimspec(self.dims_args(t)[0]) if self.dims_args(t) else None
        if t[0] == "diag":
            s = go(t[1])
            return None if not s else (s[0], s[0]) if len(s) == 1 else (s[0],)
        if t[0] == "MatMult":
            a, b = go(t[1]), go(t[2])
            if not a or not b:
                return None
            return a[:-1] + (b[1:] if len(b) > 1 else ())
        if t[0] in ("phi",):
            q = {tuple(d.key() for d in s) if s is not None else None: s for s in map(go, [x for x in t[1:] if isinstance(x, int)])}
            return next(iter(q.values())) if len(q) == 1 else None
        if t[0] in ("N", "Ns") and term(t[1]) and term(t[1])[0] not in ("list", "tup"):
            return go(t[1])
        if t[0] == "get" and len(t) == 3 and term(t[2]) and term(t[2])[0] == "ix":
            s = go(t[1])
            if s is not None and len(s) == 1 and len(term(t[2])) == 3:
                ks = [term(y) for y in term(t[2])[1:]]
                none = [y[:2] == ("k", "None") for y in ks]
                if none == [True, False]:
                    return (ONE, s[0])
                if none == [False, True]:
                    return (s[0], ONE)
            return None
        try:
            m = self.struct(v, t, depth + 1)
        except Unknown:
            return None
        if m is None:
            return None
        return (m.H, m.W) if m.nd == 2 else (m.H,)

    def dimspec(self, v):
        t = term(v)
        if t and t[0] in ("tup", "Ns") and (t[0] == "tup" or term(t[1])[0] == "tup"):
            d = [self.scalar(x) for x in (t[1:] if t[0] == "tup" else t[2:])]
        else:
            d = [self.scalar(v)]
        return None if None in d else tuple(d)

    # ---------------------------------------------------------------- blocks
    def __call__(self, v, depth=0):
        t = term(v)
        if not t or depth > 60:
            raise Unknown(str(v))
        if t[0] == "phi" and v in self.chosen:
            return self(self.chosen[v], depth + 1)
        m = self.struct(v, t, depth)
        if m is not None:
            return m
        s = self.shape(v)
        p = self.N(v)
        if s is None or p is None or opaque(p):
            if t[0] == "phi":
                raise Branch(v, [x for x in t[1:] if isinstance(x, int)])
            raise Unknown("%s" % (t[:2],))
        H = s[0] if s else ONE
        W = s[1] if len(s) > 1 else ONE
        return Mat(H, W, [(ZERO, H, ZERO, W, p)] if p else [], 2 if len(s) > 1 else 1 if s else 0)

    def struct(self, v, t, depth):
        """matrices put together from others; None for everything else"""
        go = lambda x: self(x, depth + 1)
        op = t[0]
        if op in ("numpy.zeros", "numpy.empty"):
            d = self.dimspec(self.dims_args(t)[0])
            if d is None:
                raise Unknown("dims")
            return Mat(d[0], d[1] if len(d) > 1 else ONE, [], len(d))
        if op in ("numpy.eye", "numpy.identity") and len(self.dims_args(t)) >= 2:
            a = [self.scalar(x) for x in self.dims_args(t)]
            if None in a:
                raise Unknown("dims")
            off = a[2] if len(a) > 2 else ZERO
            if a[0].key() != ONE.key():
                raise Unknown("eye")
            return Mat(a[0], a[1], [(ZERO, a[0], off, ONE, k(1))], 2)
        if op in STACKV | STACKH | {"numpy.concatenate", "numpy.append"}:
            o = ordered(t[1])
            if o is None and op == "numpy.append":
                o = [x for x in t[1:] if isinstance(x, int)]
            if not o:
                raise Unknown("stack of an unknown list")
            ms = [go(x) for x in o]
            if op == "numpy.concatenate" or op == "numpy.append":
                ax = [x for x in t[1:] if isinstance(x, tuple) and x and x[0] == "axis"]
                horiz = bool(ax) and ax[0][1] in ("(1,)", "(-1,)")
                if ax and ax[0][1] not in ("(0,)", "(1,)", "(-1,)"):
                    raise Unknown("axis")
                return self.stack(ms, horiz if any(m.nd == 2 for m in ms) else False, False)
            if op in STACKH:
                for x, m in zip(o, ms):
                    q = term(x)
                    if q and q[0] in ("Ns", "tup") and (q[0] == "tup" or term(q[1]) and term(q[1])[0] in ("tup", "list")) and op == "numpy.hstack":
                        inner = [y for y in (q[1:] if q[0] == "tup" else q[2:])]
                        if inner and all(go(y).nd == 1 for y in inner) and any(m.nd < 2 for y, m in zip(o, ms) if y != x):
                            raise Broken("numpy.hstack is given vectors next to a group of vectors, which it refuses to join")
                if all(m.nd < 2 for m in ms) and op == "numpy.hstack":
                    return self.stack(ms, False, False)
                return self.stack(ms, True, False)
            return self.stack(ms, False, True)
        if op in ("Ns", "N"):
            f = term(t[1])
            if f and f[0] in ("list", "tup", "tups"):
                if op == "N":
                    raise Unknown("list of unknown length")
                ms = [go(x) for x in t[2:]]
                if not ms:
                    return Mat(ZERO, ONE, [], 1)
                if all(m.nd == 0 for m in ms):
                    return self.stack(ms, False, False)
                return self.stack(ms, False, any(m.nd == 1 for m in ms) and not any(m.nd == 2 for m in ms) and False)
            return go(t[1])
        if op == "upd" and len(t) == 4:
            return self.update(go(t[1]), t[2], t[3], depth)
        if op == "T":
            m = go(t[1])
            if m.nd < 2:
                return Mat(ONE, m.H, [(c, w, r, h, e) for r, h, c, w, e in m.regs], 2)
            tr = lambda e: self.N.transpose(e)
            vec = lambda h, w: h.key() == ONE.key() or w.key() == ONE.key()
            return Mat(m.W, m.H, [(c, w, r, h, e if vec(h, w) else tr(e)) for r, h, c, w, e in m.regs], 2)
        if op == "neg":
            m = go(t[1])
            return m.map(lambda e: pmul(k(-1), e))
        if op in ("Mult", "Div"):
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if op == "Div" and a == t[2] and a != t[1]:
                    continue
                s = self.shape(b)
                f = term(a)
                if s == () and f and f[0] in STACKV | STACKH | {"numpy.concatenate", "upd", "Ns", "neg", "numpy.zeros", "numpy.append"}:
                    p = self.scalar(b)
                    if p is None:
                        raise Unknown("factor")
                    if op == "Div":
                        p = ppow(p, Fraction(-1))
                    return go(a).map(lambda e: pmul(p, e))
        return None

    def stack(self, ms, horiz, rows):
        """rows: one-dimensional members become rows (vstack)"""
        regs, at, other = [], ZERO, None
        two = any(m.nd == 2 for m in ms) or rows
        for m in ms:
            if two and m.nd < 2:
                if horiz:
                    m = Mat(m.H, ONE, m.regs, 2)
                else:
                    m = Mat(ONE, m.H, [(c, w, r, h, e) for r, h, c, w, e in m.regs], 2)
            if horiz:
                regs += [(r, h, padd(c, at), w, e) for r, h, c, w, e in m.regs]
                at = padd(at, m.W)
                other = other or m.H
            else:
                regs += [(padd(r, at), h, c, w, e) for r, h, c, w, e in m.regs]
                at = padd(at, m.H)
                other = m.W if other is None else other
        if horiz:
            return Mat(other, at, regs, 2)
        return Mat(at, other, regs, 2 if two else 1)

    def span(self, v, dim):
        """(offset, length) of an index along one axis"""
        t = term(v)
        if t and t[0] == "slice":
            ends = []
            for x, d in ((t[1], ZERO), (t[2], dim)):
                q = term(x)
                p = d if q and q[:2] == ("k", "None") else self.scalar(x)
                if p is None:
                    raise Unknown("slice")
                if not p.get(frozenset(), 0) >= 0 and len(p) == 1:
                    p = padd(dim, p)
                ends.append(p)
            if len(t) > 3 and isinstance(t[3], int) and term(t[3])[:2] != ("k", "None"):
                raise Unknown("step")
            return ends[0], padd(ends[1], ends[0], -1)
        p = self.scalar(v)
        if p is None:
            raise Unknown("index")
        if len(p) == 1 and p.get(frozenset(), 0) < 0:
            p = padd(dim, p)
        return p, ONE

    def update(self, m, val, idx, depth):
        t = term(idx)
        if t and t[0] == "ix" and len(t) == 3:
            (r, h), (c, w) = self.span(t[1], m.H), self.span(t[2], m.W)
        elif m.nd == 1:
            (r, h), (c, w) = self.span(idx, m.H), (ZERO, ONE)
        else:
            (r, h), (c, w) = self.span(idx, m.H), (ZERO, m.W)
        x = self(val, depth + 1)
        if not x.regs:
            new = []
        elif len(x.regs) == 1 and not x.regs[0][0] and not x.regs[0][2] and (x.regs[0][1].key(), x.regs[0][3].key()) == (x.H.key(), x.W.key()):
            new = [(r, h, c, w, x.regs[0][4])]
        elif x.nd == 2:
            new = [(padd(r, a), b, padd(c, d), e, f) for a, b, d, e, f in x.regs]
        else:
            raise Unknown("value")
        key = lambda q: tuple(y.key() for y in q[:4])
        box = (r.key(), h.key(), c.key(), w.key())
        keep = []
        for q in m.regs:
            if key(q) == box:
                continue
            if overlap(q, (r, h, c, w)):
                raise Unknown("overlapping writes")
            keep.append(q)
        return Mat(m.H, m.W, keep + new, m.nd)

    def cases(self, v, cap=24):
        """the matrix for each way the joined alternatives may have gone; [] entries of None are undecided"""
        return self.each(lambda: self(v), cap)

    def each(self, f, cap=24):
        out, todo, n = [], [{}], 0
        while todo:
            n += 1
            if n > cap:
                return [None]
            self.chosen = todo.pop()
            self.N.memo = {}
            try:
                out.append(f())
            except Branch as b:
                todo += [{**self.chosen, b.vid: x} for x in b.alts]
            except (Unknown, TypeError, IndexError, AttributeError, KeyError, ValueError, ZeroDivisionError, RecursionError) as u:      # a form not foreseen here is not known
                self.lost = repr(u)
                out.append(None)
            finally:
                self.chosen = {}
        return out


def overlap(a, b):
    for (o1, l1), (o2, l2) in (((a[0], a[1]), (b[0], b[1])), ((a[2], a[3]), (b[2], b[3]))):
        x, y = num(o1), num(o2)
        if x + num(l1) <= y or y + num(l2) <= x:
            return False
    return True


def split(regs):
    """identities spanning several blocks of the same size, one block each"""
    out = []
    for r, h, c, w, e in regs:
        if h.key() == w.key() and len(h) == 1:
            (m, n), = h.items()
            if m and n > 1 and n.denominator == 1 and len(e) == 1 and frozenset([("I", Fraction(1))]) in e:
                one = Poly({m: Fraction(1)})
                out += [(padd(r, pmul(k(i), one)), one, padd(c, pmul(k(i), one)), one, e) for i in range(int(n))]
                continue
        out.append((r, h, c, w, e))
    return out


def rows(m):
    """{(offset, height): {(column, width, entry)}} as formulas, ordered"""
    out = {}
    for r, h, c, w, e in split(m.regs):
        if e:
            out.setdefault((r.key(), h.key()), set()).add((c.key(), w.key(), e.key()))
    return out
