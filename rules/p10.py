"""P10: every stated view reaches entropy pooling (or the Black-Litterman system), about the right assets and in the right direction."""
import re
from .common import *
from sa.values import *
from sa import drive, scen
from sa.terms import *
from sa.project import Func

PRE = '''
import numpy as np
from pyvallocation.views import FlexibleViewsProcessor, BlackLittermanProcessor, entropy_pooling, at_least, at_most, above, below, between
'''
#           name   written                     direction of each target
OPS = [("value", "t", {"t": "="}), ("eq", "('==', t)", {"t": "="}), ("at_least", "at_least(t)", {"t": ">"}), ("at_most", "at_most(t)", {"t": "<"}), ("above", "above(t)", {"t": ">"}),
       ("below", "below(t)", {"t": "<"}), ("ge", "('>=', t)", {"t": ">"}), ("le", "('<=', t)", {"t": "<"}), ("gt", "('>', t)", {"t": ">"}), ("lt", "('<', t)", {"t": "<"}),
       ("list", "['>=', t]", {"t": ">"}), ("between", "between(lo, hi)", {"lo": ">", "hi": "<"})]
KINDS = {"mean": "mean_views={i: %s}", "relative": "mean_views={(i, j): %s}", "vol": "vol_views={i: %s}", "var": "var_views={i: %s}", "skew": "skew_views={i: %s}", "corr": "corr_views={(i, j): %s}",
         "quantile": "quantile_views={i: (level, %s)}"}
PRIORS = {"scen": ("R: 'df+', p: 'arr'", "prior_risk_drivers=R, prior_probabilities=p"), "mom": ("mu: 'series+', cov: 'df'", "prior_mean=mu, prior_cov=cov, random_state=1, num_scenarios=100"),
          "arr": ("R: 'arr+', p: 'arr'", "prior_risk_drivers=R, prior_probabilities=p"), "uni": ("R: 'df+'", "prior_risk_drivers=R")}
ARGS = "t: 'pos', u: 'pos', v: 'pos', w: 'pos', z: 'pos', lo: 'pos', hi: 'pos', level: 'num', g: 'pos'"
ASSETS = {"i", "j", "k"}       # written as the labels 'i', 'j', 'k'
HALF = Fraction(1, 2)


def x(a):
    return atom("x:" + a)


def spec(kind, t, i="i", j="j", new=False):
    """(row, right-hand side) of one view: E[row] = rhs"""
    m, v, T = (lambda a: atom(("M:" if new else "m:") + a)), (lambda a: atom(("V:" if new else "v:") + a)), atom(t)
    if kind == "mean":
        return x(i), T
    if kind == "relative":
        return padd(x(i), x(j), -1), T
    if kind == "rank":
        return padd(x(i), x(j), -1), k(0)
    if kind == "vol":
        return ppow(x(i), Fraction(2)), padd(ppow(T, Fraction(2)), ppow(m(i), Fraction(2)))
    if kind == "var":
        return ppow(x(i), Fraction(2)), padd(T, ppow(m(i), Fraction(2)))
    if kind == "skew":
        r = pmul(T, ppow(v(i), Fraction(3, 2)))
        r = padd(r, pmul(k(3), pmul(m(i), v(i))))
        return ppow(x(i), Fraction(3)), padd(r, ppow(m(i), Fraction(3)))
    if kind == "corr":
        return pmul(x(i), x(j)), padd(pmul(T, pmul(ppow(v(i), HALF), ppow(v(j), HALF))), pmul(m(i), m(j)))
    if kind in ("tail", "tail_default"):
        return atom("T:" + i), T if kind == "tail" else k(Fraction(5, 100))
    if kind in ("cvar", "cvar_default"):
        return pmul(atom("T:" + i), x(i)), pmul(T, atom("g") if kind == "cvar" else k(Fraction(5, 100)))
    if kind == "quantile":
        return atom("P:" + i), T
    raise KeyError(kind)


def neg(p):
    return pmul(k(-1), p)


def programs():
    """[(name, text, {views: [(kind, target, direction, assets)], mode})]"""
    out = []

    def a(name, prior, views, stated, **kw):
        sig, ctor = PRIORS[prior]
        views = re.sub(r"(?<![\w'.])([ijk])(?![\w'(])", r"'\1'", views)
        tx = "def NAME(%s, %s):\n    o = FlexibleViewsProcessor(%s, %s)\n    return o.get_posterior_probabilities(), o.get_posterior()\n" % (sig, ARGS, ctor, views)
        out.append((name, tx, dict(kw, views=stated, prior=prior, text=views)))
    for kd, form in KINDS.items():
        for op, txt, want in OPS:
            for seq in (False, True):
                a("%s_%s%s" % (kd, op, "_s" * seq), "scen", form % txt + ", sequential=%s" % seq, [(kd, t, d, "i", "j") for t, d in want.items()])
        for pr in ("mom", "arr", "uni"):
            a("%s_%s" % (kd, pr), pr, form % "at_least(t)", [(kd, "t", ">", "i", "j")])
        two = {"relative": "mean_views={(i, j): at_least(t), (j, k): at_most(u)}", "corr": "corr_views={(i, j): at_least(t), (j, k): at_most(u)}", "quantile": "quantile_views={i: (level, at_least(t)), j: (level, at_most(u))}"}.get(
            kd, "%s_views={i: at_least(t), j: at_most(u)}" % kd)
        st = [(kd, "t", ">", "i", "j"), (kd, "u", "<", "j", "k")]
        for seq in (False, True):
            a("two_%s%s" % (kd, "_s" * seq), "scen", two + ", sequential=%s" % seq, st)
    for seq in (False, True):
        s = "_s" * seq
        a("rank" + s, "scen", "rank_mean=[i, j, k], sequential=%s" % seq, [("rank", None, ">", "i", "j"), ("rank", None, ">", "j", "k")])
        a("rank_mean" + s, "scen", "rank_mean=[i, j], mean_views={k: at_most(t)}, sequential=%s" % seq, [("rank", None, ">", "i", "j"), ("mean", "t", "<", "k", None)])
        a("rank_pair" + s, "scen", "rank_mean=[i, j], mean_views={(i, j): at_most(t)}, sequential=%s" % seq, [("rank", None, ">", "i", "j"), ("relative", "t", "<", "i", "j")])
        hi = {"vol": "vol_views={j: at_most(u)}", "var": "var_views={j: at_most(u)}", "skew": "skew_views={j: at_most(u)}", "corr": "corr_views={(j, k): at_most(u)}"}
        for kd, tx in hi.items():
            a("mean_and_%s%s" % (kd, s), "scen", "mean_views={i: at_least(t)}, %s, sequential=%s" % (tx, seq), [("mean", "t", ">", "i", None), (kd, "u", "<", "j", "k")], new={kd})
        a("all" + s, "scen", "mean_views={i: at_least(t)}, vol_views={j: at_most(u)}, var_views={k: at_least(v)}, skew_views={i: at_most(w)}, corr_views={(i, j): at_least(z)}, sequential=%s" % seq,
          [("mean", "t", ">", "i", None), ("vol", "u", "<", "j", None), ("var", "v", ">", "k", None), ("skew", "w", "<", "i", None), ("corr", "z", ">", "i", "j")], new={"vol", "var", "skew", "corr"})
        a("mean_quantile" + s, "scen", "mean_views={i: at_least(t)}, quantile_views={j: (level, at_most(u))}, sequential=%s" % seq, [("mean", "t", ">", "i", None), ("quantile", "u", "<", "j", None)], chain=("t", "u"))
        a("vol_quantile" + s, "scen", "vol_views={i: at_least(t)}, quantile_views={j: (level, at_most(u))}, sequential=%s" % seq, [("vol", "t", ">", "i", None), ("quantile", "u", "<", "j", None)], chain=("t", "u"))
        for n, tx in (("cvar", "{i: (u, g)}"), ("cvar_default", "{i: u}")):
            st = [(n, "u", "=", "i", None), ("tail", "g", "=", "i", None) if n == "cvar" else ("tail_default", None, "=", "i", None)]
            a(n + s, "scen", "cvar_views=%s, sequential=%s" % (tx, seq), st, cvar=True)
            a("mean_" + n + s, "scen", "mean_views={j: at_least(t)}, cvar_views=%s, sequential=%s" % (tx, seq), [("mean", "t", ">", "j", None)] + st, cvar=True, chain=("t", "u"))
        ui, gi, tj, gj = ("cvar", "u", "=", "i", None), ("tail", "g", "=", "i", None), ("cvar", "t", "=", "j", None), ("tail", "g", "=", "j", None)
        a("two_cvar" + s, "scen", "cvar_views={i: (u, g), j: (t, g)}, sequential=%s" % seq, [ui, gi, tj, gj], cvar=True, chain=("u", "t"))
        a("quantile_cvar" + s, "scen", "quantile_views={j: (level, at_most(t))}, cvar_views={i: (u, g)}, sequential=%s" % seq, [("quantile", "t", "<", "j", None), ui, gi], cvar=True, chain=("t", "u"))
    return out


def namer(prior):
    data = {"R"} if prior != "mom" else {"mu", "cov"}

    def drivers(v):
        s = sources(v)
        return bool(s & data) and s <= data

    def probs(v):
        return sources(v) <= {"p"}

    def one(idx):
        s = strings(idx) & ASSETS
        return next(iter(s)) if len(s) == 1 else None

    def centred(d, w, right):
        """'~' when the centre of a squared deviation is a mean under other probabilities than the weights"""
        ws = {y for q in subterms(d[2], {"MatMult"}) for y in term(q)[1:]}
        if not ws or not drivers(d[1]):
            return right
        return right if {y for q in ws for y in flat_phi(q)} & flat_phi(w) else right + "~"

    def moment(v):
        """'m' / 'v' (prior mean or variance per asset), 'M' / 'V' (updated by earlier views), None"""
        t = term(v)
        if t[0] == "MatMult":
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                u = term(a)
                base = a if not u or u[0] != "T" else u[1]
                q = "m" if probs(b) else "M"
                if drivers(base) and not drivers(b):
                    w = term(base)
                    if w and w[0] == "Pow" and const(w[2]) == 2:
                        d = term(w[1])
                        return centred(d, b, {"m": "v", "M": "V"}[q]) if d and d[0] == "Sub" else None
                    return q if not w or w[0] not in ("Pow", "Mult", "Sub") else None
                w = term(base)
                if w and w[0] == "Pow" and const(w[2]) == 2 and sources(base) & data and term(w[1]) and term(w[1])[0] == "Sub":
                    return centred(term(w[1]), b, "v" if probs(b) else "V")
        if t[0] == "diag":
            c = term(t[1])
            if c and c[0] in ("cov", "numpy.cov"):
                return "v" if sources(t[1]) <= data | {"p"} else "V"
        return None

    def name(v, t):
        if t[0] == "src":
            return t[1]
        if t[0] == "numpy.ones":
            return k(1)
        if t[0] in ("LtE", "Lt", "Gt", "GtE") and len(t) == 3:
            a, b = t[1], t[2]
            op = t[0]
            ga, gb = col(a), col(b)
            if gb and term(a) == ("src", "level"):
                ga, a, b = gb, b, a
                op = {"LtE": "GtE", "Lt": "Gt", "Gt": "Lt", "GtE": "LtE"}[op]
            if ga and term(b) == ("src", "level"):
                at = atom(("P:" if op in ("LtE", "Gt") else "P<:") + ga)
                return at if op in ("LtE", "Lt") else padd(k(1), at, -1)
            return None
        c = col(v)
        if c:
            return "x:" + c
        c = tail(t)
        if c:
            return c
        if t[0] == "get" and len(t) == 3:
            a = one(t[2])
            if a and term(t[2])[0] != "ix":
                m = moment(t[1])
                if m:
                    return m + ":" + a
        return None

    def order(v):
        """the asset whose scenarios an ascending argsort orders"""
        t = term(v)
        return col(t[1]) if t and t[0] == "argsort" and len(t) == 2 else None

    def tail(t):
        """zeros with the lowest scenarios of one asset set to 1 (T) or to the asset's scenarios (T x), in the original order"""
        if t[0] != "get" or len(t) != 3:
            return None
        back, u = term(t[2]), term(t[1])
        if not back or back[0] != "argsort" or len(back) != 2 or not u or u[0] != "upd" or len(u) != 4:
            return None
        a, z, sl = order(back[1]), term(u[1]), term(u[3])
        if not a and order(t[2]) and z and z[0] == "numpy.zeros":
            return "T?:" + order(t[2])      # brought back with the order itself instead of its inverse
        if not a or not z or z[0] != "numpy.zeros" or not sl or sl[0] != "slice":
            return None
        low, high = term(sl[1])[:2] == ("k", "None"), term(sl[2])[:2] == ("k", "None")
        if low == high:
            return None
        at = atom(("T:" if low else "T>:") + a)
        if const(u[2]) is not None:
            return pmul(k(const(u[2])), at)
        w = term(u[2])
        if w and w[0] == "get" and w[2] == u[3]:
            y = term(w[1])
            if y and y[0] == "get" and order(y[2]) and col(y[1]):
                return pmul(at, x(col(y[1]))) if order(y[2]) == a else None
        return None

    def col(v):
        t = term(v)
        if t and t[0] == "get" and len(t) == 3:
            ix = term(t[2])
            if ix and ix[0] == "ix" and len(ix) == 3 and term(ix[1]) and term(ix[1])[0] == "slice" and drivers(t[1]):
                return one(ix[2])
        return None
    return name


def tail_ends(v):
    """(ordering, end) of each slice set to something in a row of zeros"""
    out = set()
    t = term(v)
    u = term(t[1]) if t and t[0] == "get" else None
    while u and u[0] == "upd" and len(u) == 4:
        sl = term(u[3])
        if sl and sl[0] == "slice" and len(sl) >= 3:
            out.add((t[2], (sl[1], sl[2])))
        u = term(u[1])
    return out


def polys(v, N):
    """normal forms of the stacked rows / entries of a matrix argument; None when not decided"""
    if v is None or v.is_("None"):
        return set()
    if v.seq is not None:
        ls = set()
        for e in v.seq:
            y = leaves(e.vid)
            if y is None:
                return None
            ls |= y
    else:
        ls = leaves(v.vid)
    if ls is None:
        return None
    out = set()
    for l in ls:
        p = N(l)
        if opaque(p):
            return None
        out.add(p.key())
    return out


def pairs(a, b, N):
    """(row, right-hand side) pairs of a constraint block, by position; None when the order is not known"""
    rs = []
    for v in (a, b):
        if v is None or v.is_("None"):
            return None
        o = [y.vid for y in v.seq] if v.seq is not None else ordered(v.vid)
        if not o:
            return None
        ps = [N(y) for y in o]
        if any(opaque(p) for p in ps):
            return None
        rs.append([p.key() for p in ps])
    return set(zip(*rs)) if len(rs[0]) == len(rs[1]) else None


def shows(ks):
    return "{" + ", ".join(sorted(Poly(dict(x)).show() for x in ks)) + "}"


def calls_of(P, f, r_opts=None):
    ep = P.public().get("entropy_pooling")
    if ep is None:
        raise AnalysisBroken("entropy_pooling vanished")
    calls = []

    def hook(I, s, func, args, kw):
        b = I.bind(func, list(args), dict(kw), s, None)
        if b:
            calls.append({a: I.N(v, s) for a, v in b.items()})
        return None
    r = run_entry(P, f, scen.make(f), hooks={ep[1].full: hook}, opts=dict({"sites": True}, **(r_opts or {})))
    return r, calls


def at(P, name, rule, what, program):
    """a finding about a public function or class"""
    x = P.public().get(name)
    if x is None:
        raise AnalysisBroken("%s vanished" % name)
    m = x[1].mod
    return Finding(rule, "%s:%s" % (rel(P, m.path), name), what, x[1].node.lineno, (program,), rel(P, m.path))


def results(r):
    """the posterior probabilities, means and covariances returned by a program, one list of (state, value) each"""
    out = {}
    for st, v in r.outs:
        q = v.seq if v.seq is not None and len(v.seq) == 2 else None
        m = q[1].seq if q and q[1].seq is not None and len(q[1].seq) == 2 else None
        for what, y in zip(("probabilities", "means", "covariances"), (q[0], *m) if m else (v, v, v)):
            out.setdefault(what, []).append((st, y))
    return out.items()


def moments(P, it):
    """the reported posterior means and covariances are those of the scenarios under the posterior probabilities"""
    name, text, sp = it
    f = scen.load(P, PRE + text.replace("NAME", name, 1), "_p10m_" + name)[name]
    r = run_entry(P, f, scen.make(f), opts={"sites": True})
    n = {"programs": 1, "pooling_problems": 0, "obligations": 0, "row_sets_compared": 0, "row_sets_undecided": 0}
    fs = []
    say = lambda rule, what: fs.append(at(P, "FlexibleViewsProcessor", rule, "%s: %s" % (sp["text"], what), name))
    for st, v in r.outs:
        if v.seq is None or len(v.seq) != 2 or v.seq[1].seq is None or len(v.seq[1].seq) != 2:
            n["row_sets_undecided"] += 2
            continue
        q, mu, cov = [r.I.N(y, st).vid for y in (v.seq[0], *v.seq[1].seq)]
        qs, covs = flat_phi(q), flat_phi(cov)

        def name_(w, t):
            if w in qs:
                return "q"
            if t == ("src", "R"):
                return "R"
            return None
        N = Norm(name_)
        for m in flat_phi(mu):
            if term(m)[0] == "phi":
                continue
            m = N(m)
            if opaque(m):
                n["row_sets_undecided"] += 1
                continue
            n["row_sets_compared"] += 1
            n["obligations"] += 1
            R, w = atom("R"), atom("q")
            if m.key() not in (N.matmul(N.transpose(R), w).key(), N.matmul(N.transpose(w), R).key(), N.matmul(w, R).key()):
                say("posterior-moments", "the posterior means are %s, not the means of the scenarios under the posterior probabilities" % m.show())
        for t in map(term, covs):
            if t[0] == "phi":
                continue
            if t[0] != "cov":
                n["row_sets_undecided"] += 1
                continue
            n["row_sets_compared"] += 1
            n["obligations"] += 1
            aw = N(t[2]) if len(t) == 5 else None
            if aw is None or not opaque(aw) and aw.key() != atom("q").key():
                say("posterior-moments", "the posterior covariances are not weighted by the posterior probabilities")
            elif opaque(aw):
                n["row_sets_undecided"] += 1
            elif t[4] not in ((("bias", True),), (("ddof", 0),), (("bias", True), ("ddof", 0))) and "?" not in dict(t[4]).values():
                say("posterior-moments", "the posterior covariances are rescaled for a sample size: not the second moments under the posterior probabilities")
    return {"findings": fs, "n": n, "level": r.level, "visited": r.I.visited, "name": name}


def flat_phi(v):
    """a value and, where paths join, the alternatives it may be"""
    out, todo = set(), [v]
    while todo:
        y = todo.pop()
        if y not in out:
            out.add(y)
            t = term(y)
            if t and t[0] == "phi":
                todo += [z for z in t[1:] if isinstance(z, int)]
    return out


def job(P, it):
    name, text, sp = it
    f = scen.load(P, PRE + text.replace("NAME", name, 1), "_p10_" + name)[name]
    r, calls = calls_of(P, f)
    n = {"programs": 1, "pooling_problems": len(calls), "obligations": 0, "row_sets_compared": 0, "row_sets_undecided": 0}
    fs = []
    say = lambda rule, what: fs.append(at(P, "FlexibleViewsProcessor", rule, "%s: %s" % (sp["text"], what), name))
    Z = V()
    g = lambda c, a: c.get(a) or Z
    if not r.outs:
        raise AnalysisBroken("program %s has no normal result" % name)
    tg = [v for v in sp["views"] if v[1]]
    for kd, t, d, *_ in tg:
        n["obligations"] += 1
        side = "b" if d == "=" else "h"
        row = "A" if d == "=" else "G"
        into = [c for c in calls if t in g(c, "b").may | g(c, "h").may]
        lost = False
        for what, vs in results(r):
            if not any(t in r.I.deep(v, st)[0] for st, v in vs):
                say("view-dropped", "the %s view does not reach the posterior %s" % (kd, what))
                lost = True
            elif not sp.get("cvar") and not all(t in r.I.deep(v, st)[1] for st, v in vs):     # the tail search keeps the best of several solutions: may-dependence only
                say("view-dropped", "the %s view does not reach the posterior %s on every path" % (kd, what))
                lost = True
        if lost:
            continue
        if not into:
            continue        # pooled by other means: not decided here
        if not any(t in g(c, side).must for c in into):
            say("view-direction", "the %s view must be %s of the pooling problem" % (kd, "an equality" if d == "=" else "an inequality"))
            continue
        for c in into:
            got = g(c, side).pol.get(t)
            want = {"=": "+", "<": "+", ">": "-"}[d]
            if t in g(c, side).may and got in ("+", "-") and got != want and not sp.get("cvar"):
                say("view-direction", "the target of the %s view enters %s with the wrong sign" % (kd, "the equalities" if d == "=" else "G q <= h"))
            if d != "=" and t in g(c, "b").may and t not in {v[1] for v in sp["views"] if v[2] == "="} and kd in ("mean", "relative", "quantile"):
                say("view-direction", "the %s bound is also imposed as an equality" % kd)
    # a sequence of pooling problems: later ones start from the result of earlier ones
    if sp.get("chain"):
        first, second = sp["chain"]
        for c in calls:
            if second in g(c, "b").must | g(c, "h").must:
                n["obligations"] += 1
                if first not in g(c, "p").may | g(c, "b").may | g(c, "h").may:
                    say("view-forgotten", "pooling for the later view does not start from the posterior of the earlier one")
    # rows and right-hand sides as formulas
    N = Norm(namer(sp["prior"]))
    if True:
        seen = {"eq": set(), "in": set()}
        undecided = not calls
        new = sp.get("new", set())
        for c in calls:
            ps = {a: polys(c.get(a), N) for a in "AbGh"}
            n["row_sets_compared"] += sum(x is not None for x in ps.values())
            n["row_sets_undecided"] += sum(x is None for x in ps.values())
            exp_eq = {k(1).key()}, {k(1).key()}
            rows_eq, rhs_eq, rows_in, rhs_in = set(), set(), set(), set()
            for kd, t, d, i, j in sp["views"]:
                row, rhs = spec(kd, t, i, j, kd in new)
                s = neg if d == ">" else (lambda p: p)
                (rows_eq if d == "=" else rows_in).add(s(row).key())
                (rhs_eq if d == "=" else rhs_in).add(s(rhs).key())
            for a, want, extra in (("A", rows_eq, exp_eq[0]), ("b", rhs_eq, exp_eq[1]), ("G", rows_in, set()), ("h", rhs_in, set())):
                if ps[a] is None:
                    undecided = True
                    continue
                n["obligations"] += 1
                bad = ps[a] - want - extra
                if bad:
                    say("view-formula", "%s holds %s, the views stated are %s" % ({"A": "the equality matrix", "b": "the equality target", "G": "the inequality matrix", "h": "the inequality limit"}[a], shows(bad), shows(want)))
                if extra - ps[a]:
                    say("view-formula", "the probabilities are not constrained to sum to one")
                seen["eq" if a in "Ab" else "in"] |= {(a, x) for x in ps[a] & want}
            for a, o, d in (("A", "b", "="), ("G", "h", "<>")):
                pr = pairs(c.get(a), c.get(o), N)
                if pr is None or ps[a] is None or ps[o] is None:
                    continue
                n["obligations"] += 1
                ok = {(k(1).key(), k(1).key())}
                for kd, t, dd, i, j in sp["views"]:
                    if dd in d:
                        row, rhs = spec(kd, t, i, j, kd in new)
                        ok.add(tuple((neg(y) if dd == ">" else y).key() for y in (row, rhs)))
                for row, rhs in pr - ok:
                    if row in {y for y, _ in ok} and rhs in {y for _, y in ok}:
                        say("view-formula", "%s is held to %s" % (shows([row]), shows([rhs])))
            ends = {}
            for y in (ordered(c["A"].vid) or ()) if c.get("A") is not None else ():
                for e in tail_ends(y):
                    ends.setdefault(e[0], set()).add(e[1])
            for a, es in ends.items():
                n["obligations"] += 1
                if len(es) > 1 and not any(term(y) and term(y)[0] == "phi" for e in es for y in e):
                    say("view-formula", "the rows about one tail are set over different numbers of scenarios")
        if not undecided and not fs:
            want = {("A", x) for x in rows_eq} | {("b", x) for x in rhs_eq} | {("G", x) for x in rows_in} | {("h", x) for x in rhs_in}
            if want - seen["eq"] - seen["in"]:
                say("view-dropped", "no pooling problem contains %s" % shows({x for _, x in want - seen["eq"] - seen["in"]}))
    return {"findings": fs, "n": n, "level": r.level, "visited": r.I.visited, "name": name}


# ------------------------------------------------------------------ views given as one number per asset
VECS = {kd: ("%s_views=[t, u, v]" % kd) for kd in ("mean", "vol", "var", "skew")}
REARRANGED = {"sorted", "reversed", "numpy.sort", "numpy.unique", "numpy.flip", "sort_values", "sort_index", "set"}


def rearranged(v):
    """is a list of labels a rearrangement of the asset labels? None when unknown"""
    t = term(v)
    if not t:
        return None
    if t[0] in REARRANGED:
        return True
    if t[0] in ("attr", "src"):
        return False
    if t[0] in ("N", "Ns", "list", "tolist", "numpy.asarray", "numpy.array", "phi", "copy", "tuple"):
        qs = {rearranged(y) for y in t[1:] if isinstance(y, int)}
        return True if qs == {True} else False if qs == {False} else None
    return None


def vec_job(P, it):
    """the k-th number of a list of views is the view about the k-th asset"""
    kd, text = it
    name = "vec_" + kd
    f = scen.load(P, PRE + "def %s(R: 'df+', p: 'arr', %s):\n    o = FlexibleViewsProcessor(R, p, %s)\n    return o.get_posterior_probabilities(), o.get_posterior()\n" % (name, ARGS, text), "_p10_" + name)[name]
    r, calls = calls_of(P, f)
    n = {"programs": 1, "pooling_problems": len(calls), "obligations": 0, "row_sets_compared": 0, "row_sets_undecided": 0}
    fs = []
    for c in calls:
        for v in (c.get("b"), c.get("h")):
            at_ = {"get", "zip"}
            for y in subterms(v.vid, at_) if v is not None and v.seq is None else [z for e in (v.seq if v is not None else ()) for z in subterms(e.vid, at_)]:
                t = term(y)
                if t[0] == "zip":
                    ix = ("ei", t[1]) if len(t) == 3 else None
                    t = ("zip", t[2])
                else:
                    ix = term(t[2]) if len(t) == 3 else None
                if ix and ix[0] == "ei" and len(ix) == 2 and sources(t[1]) == {"t", "u", "v"}:
                    q = rearranged(ix[1])
                    n["row_sets_undecided" if q is None else "obligations"] += 1
                    if q:
                        fs.append(at(P, "FlexibleViewsProcessor", "view-formula", "%s: the numbers are given to the assets in another order than the assets are in" % text, name))
    return {"findings": fs, "n": n, "level": r.level, "visited": r.I.visited, "name": name}


# ------------------------------------------------------------------ Black-Litterman
BL_ARGS = "pi: 'series', w: 'series', m: 'series', tau: 'pos', delta: 'pos', t: 'pos', u: 'pos', c: 'arr', O: 'arr', c1: 'pos', c2: 'pos'"


def bl_programs():
    out = []
    views = "mean_views={'i': t, ('j', 'k'): u}"
    priors = {"pi": "pi=pi", "market": "market_weights=w, risk_aversion=delta", "prior": "prior_mean=m"}
    omegas = {"default": "", "idzorek": ", omega='idzorek', view_confidences=c", "idzorek_notau": ", omega='idzorek', view_confidences=c, idzorek_use_tau=False", "user": ", omega=O",
              "idzorek_dict": ", omega='idzorek', view_confidences={('j', 'k'): c2, 'i': c1}"}
    for pr, px in priors.items():
        for sk in ("df", "arr"):
            for om, ox in omegas.items():
                if sk == "arr" and om != "default" or om == "idzorek_dict" and pr != "pi":
                    continue
                vw = views if sk == "df" else "mean_views={0: t, (1, 2): u}"
                args = BL_ARGS if sk == "df" else BL_ARGS.replace("series", "arr")
                out.append(("bl_%s_%s_%s" % (pr, sk, om), "def NAME(S: '%s', %s):\n    o = BlackLittermanProcessor(prior_cov=S, %s, tau=tau, %s%s)\n    return (*o.get_posterior(), o)\n" % (sk, args, px, vw, ox),
                            {"prior": pr, "omega": om, "label": sk == "df", "text": "Black-Litterman, %s, %s%s" % (px, views, ox)}))
    return out


def position(v):
    t = term(v)
    if const(v) is not None:
        return const(v)
    if t and t[0] == "index" and len(t) == 3 and sources(t[1]) == {"S"}:
        return const(t[2])
    if t and t[0] == "phi":
        ps = {position(y) for y in t[1:]}
        return ps.pop() if len(ps) == 1 else None
    return None


def unit_row(v, label):
    """zeros with entries set: the normal form sum(value * e:asset)"""
    t = term(v)
    if t and t[0] == "numpy.zeros":
        return Poly()
    if t and t[0] == "upd" and len(t) == 4:
        b, c = unit_row(t[1], label), const(t[2])
        a = None
        if label:
            s = strings(t[3]) & ASSETS
            a = next(iter(s)) if len(s) == 1 else None
        else:
            n = position(t[3])
            a = "ijk"[int(n)] if n in (0, 1, 2) else None
        if b is None or c is None or a is None or any(("e:" + a, 1) in m for m in b):
            return None
        return padd(b, pmul(k(c), atom("e:" + a)))
    if t and t[0] in ("phi", "N"):
        ps = [unit_row(y, label) for y in t[1:] if isinstance(y, int)]
        return ps[0] if ps and None not in ps and len({p.key() for p in ps}) == 1 else None
    return None


def bl_namer(sp, seen):
    hold = {}

    def name(v, t):
        N = hold["N"]
        if t[0] == "src":
            return {"S": "S", "pi": "pi", "w": "w", "m": "m", "tau": "tau", "delta": "d", "c": "c", "c1": "c", "c2": "c", "O": "O"}.get(t[1], t[1])
        if t[0] == "reindex" and len(t) == 3:
            return N(t[1]) or None
        if t[0] == "clip":
            return N(t[1])
        if t[0] == "numpy.zeros":
            return Poly()
        if t[0] == "el" and term(t[1]) == ("src", "c"):
            return "c"
        if t[0] == "get" and len(t) == 3:
            y, b = term(t[2]), N(t[1])
            if b is not None and b.key() == atom("P").key() and y and (y[0] == "slice" or y[0] == "ix"):
                return "p"
        if t[0] == "sum" and len(t) == 2 and N(t[1]) is not None and N(t[1]).key() == atom("w").key():
            return "sw"
        if t[0] == "sum" and len(t) == 2 and term(t[1])[0] in ("abs", "numpy.abs") and N(term(t[1])[1]) is not None and N(term(t[1])[1]).key() == atom("w").key():
            return "sum|w|"
        if t[0] in ("numpy.vstack", "Ns", "numpy.array", "numpy.stack", "numpy.asarray"):
            o = ordered(v)
            if o and len(o) == 2:
                rows = [unit_row(y, sp["label"]) for y in o]
                if None not in rows and all(rows):
                    seen.setdefault("P", set()).add(tuple(r.key() for r in rows))
                    return "P"
                tg = [term(y) for y in o]
                if all(y and y[0] == "src" and y[1] in ("t", "u") for y in tg):
                    seen.setdefault("Q", set()).add(tuple(y[1] for y in tg))
                    return "Q"
        if t[0] == "phi" and all(isinstance(y, int) and term(y)[0] == "src" and term(y)[1] in ("c1", "c2") for y in t[1:]):
            return "c"
        return None
    N = Norm(name, scalars={"tau", "d", "c", "sw", "sum|w|", "t", "u"}, sym={"S"})
    hold["N"] = N
    return N


def foreign(p):
    """is the posterior written with another inverse than the one of P tau S P' + Omega (an equivalent form this rule cannot compare)?"""
    def inv(a, inside):
        if not isinstance(a, tuple):
            return False
        if a[0] == "mm":
            return any(inv(y, inside) for m in a[1] for y, _ in m)
        if a[0] == "T":
            return inv(a[1], inside)
        if a[0] == "f":
            sub = [y for q in a[2:] if isinstance(q, frozenset) for m, _ in q for y, _ in m]
            if a[1] == "inv":
                return inside or not any("P" in str(y) for y in sub) or any(inv(y, True) for y in sub)
            return any(inv(y, inside) for y in sub)
        return False
    return opaque(p) or any(inv(a, False) for m in p for a, _ in m)


def chain(N, *xs):
    out = xs[0]
    for y in xs[1:]:
        out = N.matmul(out, y)
    return out


def bl_job(P, it):
    name, text, sp = it
    f = scen.load(P, PRE + text.replace("NAME", name, 1), "_p10_" + name)[name]
    r = run_entry(P, f, scen.make(f), opts={"sites": True})
    n = {"programs": 1, "pooling_problems": 0, "obligations": 0, "row_sets_compared": 0, "row_sets_undecided": 0}
    fs = []
    say = lambda rule, what: fs.append(at(P, "BlackLittermanProcessor", rule, "%s: %s" % (sp["text"], what), name))
    if not r.outs:
        raise AnalysisBroken("program %s has no normal result" % name)
    for st, v in r.outs:
        if v.seq is None or len(v.seq) != 3:
            n["row_sets_undecided"] += 1
            continue
        seen = {}
        N = bl_namer(sp, seen)
        mean, cov = [N.cases(r.I.N(y, st).vid) for y in v.seq[:2]]
        for _, o in r.I.objs(st, v.seq[2]):
            for y in (o.attrs or {}).values():
                q = [term(z) for z in ordered(r.I.N(y, st).vid) or ()]
                if len(q) == 2 and all(z and z[0] == "src" and z[1] in ("c1", "c2") for z in q):
                    seen.setdefault("C", set()).add(tuple(z[1] for z in q))
        S, tau, Pm, Q = atom("S"), atom("tau"), atom("P"), atom("Q")
        pi = {"pi": atom("pi"), "prior": atom("m"), "market": pmul(pmul(atom("d"), ppow(atom("sw"), Fraction(-1))), N.matmul(S, atom("w")))}[sp["prior"]]
        tS = pmul(tau, S)
        PT = N.transpose(Pm)
        var = chain(N, Pm, tS, PT)
        if sp["omega"] == "default":
            om = N.diag(N.diag(var))
        elif sp["omega"].startswith("idzorek"):
            p = atom("p")
            base = S if sp["omega"] == "idzorek_notau" else tS
            vi = chain(N, p, base, N.transpose(p))
            om = N.diag(pmul(padd(ppow(atom("c"), Fraction(-1)), k(1), -1), vi))
        else:
            om = None
        oms = [om, Poly()] if om is not None else [atom("O"), atom(("f", "diag", atom("O").key())), Poly()]
        want_m, want_c, least = {pi.key()}, {S.key()}, [set(), set()]
        for i, o in enumerate(oms):
            inv = atom(("f", "inv", padd(var, o).key()))
            pm = padd(pi, chain(N, tS, PT, inv, padd(Q, N.matmul(Pm, pi), -1)))
            mid = chain(N, tS, PT, inv, Pm, tS)
            raw = padd(padd(S, tS), mid, -1)
            pc = pmul(k(HALF), padd(raw, N.transpose(raw)))
            want_m.add(pm.key())
            want_c |= {pc.key(), raw.key()}
            if i < len(oms) - 1:
                least[0].add(pm.key())
                least[1] |= {pc.key(), raw.key()}
        for what, got, want, lst in (("mean", mean, want_m, least[0]), ("covariance", cov, want_c, least[1])):
            if got is None:
                n["row_sets_undecided"] += 1
                continue
            got = [q for q in got if not foreign(q)] if any(not foreign(q) for q in got) else None
            if got is None:
                n["row_sets_undecided"] += 1
                continue
            n["row_sets_compared"] += 1
            n["obligations"] += 1
            bad = [q for q in got if q.key() not in want]
            for q in bad:
                say("posterior-formula", "the posterior %s is %s" % (what, q.show()))
            if not bad and not lst & {q.key() for q in got}:
                say("view-dropped", "the posterior %s does not use the views" % what)
        for a, want, what in (("P", (padd(Poly(), atom("e:i")).key(), padd(atom("e:j"), atom("e:k"), -1).key()), "the rows of the view matrix"), ("Q", ("t", "u"), "the view targets"), ("C", ("c1", "c2"), "the view confidences")):
            for g in seen.get(a, ()):
                n["obligations"] += 1
                if g != want:
                    say("view-formula", "%s are %s, the views stated are %s" % (what, *[", ".join(Poly(dict(q)).show() if a == "P" else q for q in z) for z in (g, want)]))
    return {"findings": fs, "n": n, "level": r.level, "visited": r.I.visited, "name": name}


# ------------------------------------------------------------------ the pooling problem itself
EP = {"ep_full": ("p: 'arr', A: 'arr', b: 'arr', G: 'arr', h: 'arr'", "p, A, b, G, h"), "ep_eq": ("p: 'arr', A: 'arr', b: 'arr'", "p, A, b"),
      "ep_lbfgs": ("p: 'arr', A: 'arr', b: 'arr', G: 'arr', h: 'arr'", "p, A, b, G, h, method='L-BFGS-B'"), "ep_kw": ("p: 'arr', A: 'arr', b: 'arr', G: 'arr', h: 'arr'", "h=h, G=G, b=b, A=A, p=p")}
STACK = {"numpy.vstack", "numpy.concatenate", "numpy.hstack", "numpy.append", "numpy.r_", "numpy.row_stack", "numpy.block"}


def parts(v, depth=0):
    """the inputs a stacked matrix or vector is put together from, in order; None when unknown"""
    t = term(v)
    if not t or depth > 20:
        return None
    if t[0] == "src":
        return [t[1]]
    if t[0] in STACK:
        ch = [y for y in t[1:] if isinstance(y, int)]
        o = ordered(ch[0]) if ch else None
        if o is None and len(ch) > 1:
            o = ch
        ps = [parts(y, depth + 1) for y in o or ()]
        return [y for q in ps for y in q] if ps and None not in ps else None
    if t[0] in ("N", "Ns") or t[0] in WRAP or t[0] in ("squeeze", "numpy.squeeze"):
        f = term(t[1]) if isinstance(t[1], int) else None
        return parts(t[1], depth + 1) if f and f[0] not in ("list", "tup") else None
    if t[0] == "phi":
        ps = [parts(y, depth + 1) for y in t[1:]]
        return ps[0] if None not in ps and all(q == ps[0] for q in ps) else None
    return None


def ep_namer(lam):
    """p0: the prior (log p0 below), L: the left-hand sides, r: the right-hand sides, lam: the multipliers, X: exp(log p0 - L' lam) up to a constant factor"""
    hold = {"exp": set()}

    def name(v, t):
        N = hold["N"]
        if v in lam or t[0] == "solx":
            return "lam"
        q = parts(v)
        if q and set(q) <= {"A", "G"}:
            return "L"
        if q and set(q) <= {"b", "h"}:
            return "r"
        if t == ("src", "p"):
            return "p"
        if t[0] == "log" and len(t) == 2:
            return "logp" if sources(t[1]) == {"p"} else None
        if t[0] == "clip" or t[0] in ("squeeze", "numpy.squeeze", "numpy.atleast_1d", "float"):
            return N(t[1])
        if t[0] == "get" and len(t) == 3 and term(t[2]) and term(t[2])[0] == "ix":
            ks = [term(y) for y in term(t[2])[1:]]
            if all(y and (y[0] == "slice" or y[:2] == ("k", "None")) for y in ks):
                return N(t[1])          # a vector turned into a column
        if t[0] == "exp" and len(t) == 2:
            e = N(t[1])
            if e is None or opaque(e):
                return None
            hold["exp"].add(frozenset((m, c) for m, c in e.items() if m))
            return "X"
        if t[0] == "sum" and len(t) == 2:
            e = N(t[1])
            if e is not None and e.key() == atom("X").key():
                return "sumX"
        return None
    N = Norm(name, scalars={"sumX"})
    hold["N"] = N
    return N, hold


def ep_job(P, it):
    name, (sig, args) = it
    f = scen.load(P, PRE + "def %s(%s):\n    return entropy_pooling(%s)\n" % (name, sig, args), "_p10_" + name)[name]
    r = run_entry(P, f, scen.make(f), opts={"sites": True})
    n = {"programs": 1, "pooling_problems": 0, "obligations": 0, "row_sets_compared": 0, "row_sets_undecided": 0}
    fs = []
    say = lambda rule, what: fs.append(at(P, "entropy_pooling", rule, "entropy_pooling(%s): %s" % (args, what), name))
    full = name != "ep_eq"
    if not r.outs:
        raise AnalysisBroken("program %s has no normal result" % name)

    def need(ok, rule, what):
        n["obligations"] += 1
        if not ok:
            say(rule, what)
    N, hold = ep_namer(set())
    expo = chain(N, N.transpose(atom("L")), atom("lam"))
    want_exp = frozenset(padd(atom("logp"), expo, -1).items())
    done = set()
    for e in r.events:
        if e["kind"] == "libcall" and e["name"] == "scipy.optimize.Bounds":
            b = list(e["args"]) + [None, None]
            kw = e.get("kw") or {}
            for v, side in ((kw.get("lb", b[0]), "lower"), (kw.get("ub", b[1]), "upper")):
                bl = next((t[1] for t in v.tags if type(t) is tuple and t[0] == "blk"), None) if v is not None else None
                vals = [show_const(y) for y in bl] if bl else None
                if not vals or None in vals:
                    continue
                want = (["-inf", "0"] if full else ["-inf"]) if side == "lower" else ["inf"]
                got = [y for i, y in enumerate(vals) if not i or vals[i - 1] != y]
                need(got == want, "multiplier-bounds", "the %s bounds of the multipliers are %s; equalities are unbounded and inequalities non-negative, in the order of the constraints" % (side, got))
        if e["kind"] != "libcall" or e["name"] != "scipy.optimize.minimize":
            continue
        n["pooling_problems"] += 1
        kw = e.get("kw") or {}
        extra = kw.get("args") or (e["args"][2] if len(e["args"]) > 2 else None)
        if extra is None or extra.seq is None:
            continue
        L = [q for q in (parts(v.vid) for v in extra.seq) if q and set(q) <= {"A", "G"}]
        R = [q for q in (parts(v.vid) for v in extra.seq) if q and set(q) <= {"b", "h"}]
        for l in L:
            for q in R:
                need([{"A": "b", "G": "h"}[y] for y in l] == q, "constraint-order", "left-hand sides %s are stacked against right-hand sides %s" % (l, q))
                need(set(l) == ({"A", "G"} if full else {"A"}), "constraint-dropped", "the pooling problem holds only %s" % l)
        fns = [x for x in e["args"][0].fn if x[0] == "func" and x[2] is None] if e["args"] else []
        key = (tuple(v.vid for v in extra.seq), tuple(x[1].full for x in fns))
        if len(fns) != 1 or key in done:
            continue
        done.add(key)
        lam = V(ty=frozenset(["ndarray"]), vid=vn("src", "lam"))
        extra_v = [V(ty=frozenset(["ndarray"]), vid=v.vid, may=v.may, must=v.must) for v in extra.seq]
        obj = fns[0][1]
        names = [a.arg for a, _, _ in drive.params(obj)]
        if len(names) < 1 + len(extra_v):
            continue
        r2 = run_entry(P, obj, lambda st, I: (None, [], dict(zip(names, [lam] + extra_v))), opts={"sites": True})
        for st, v in r2.outs:
            if v.seq is None or len(v.seq) != 2:
                continue
            N2, h2 = ep_namer({lam.vid})
            val, grad = [N2(r2.I.N(y, st).vid) for y in v.seq]
            for ex in h2["exp"]:
                need(ex == want_exp, "dual-formula", "the dual is built on exp(%s), the pooling problem on exp(%s)" % (Poly(dict(ex)).show(), Poly(dict(want_exp)).show()))
            if opaque(val) or opaque(grad):
                n["row_sets_undecided"] += 1
                continue
            n["row_sets_compared"] += 1
            dots = [chain(N2, atom("lam"), atom("r")), chain(N2, atom("r"), atom("lam"))]
            wants = [padd(atom("sumX"), d) for d in dots]
            gw = padd(atom("r"), chain(N2, atom("L"), atom("X")), -1)
            cv = [c for w in wants for c in [ratio(val, w)] if c]
            need(bool(cv), "dual-formula", "the dual objective is %s, it must be %s" % (val.show(), wants[0].show()))
            cg = ratio(grad, gw)
            need(bool(cg), "dual-formula", "the gradient handed to the solver is %s, the gradient of the dual is %s" % (grad.show(), gw.show()))
            if cv and cg:
                need(cv[0] == cg and cg > 0, "dual-formula", "objective and gradient are scaled by %s and %s" % (cv[0], cg))
    for st, v in r.outs:
        N3, h3 = ep_namer(set())
        got = N3.cases(r.I.N(v, st).vid)
        if got is None or any(opaque(q) for q in got):
            n["row_sets_undecided"] += 1
            continue
        n["row_sets_compared"] += 1
        for q in got:
            need(q.key() == pmul(atom("X"), ppow(atom("sumX"), Fraction(-1))).key(), "posterior-formula", "the posterior is %s: not the exponential of the dual solution, scaled to sum to one" % q.show())
        for ex in h3["exp"]:
            need(ex == want_exp, "posterior-formula", "the posterior is exp(%s), the dual solution gives exp(%s)" % (Poly(dict(ex)).show(), Poly(dict(want_exp)).show()))
    return {"findings": fs, "n": n, "level": r.level, "visited": r.I.visited, "name": name}


def show_const(v):
    t = term(v)
    if t and t[0] == "k" and t[1] in ("int", "float"):
        return {"0.0": "0", "0": "0"}.get(str(t[2]), str(t[2]))
    return None


def ratio(a, b):
    """c with a = c b, None when there is none"""
    if not a or not b or set(a) != set(b):
        return None
    cs = {a[m] / b[m] for m in a}
    return cs.pop() if len(cs) == 1 else None


JOBS = {"views": job, "moments": moments, "bl": bl_job, "ep": ep_job, "vec": vec_job}


def one(P, it):
    return JOBS[it[0]](P, it[1])


def run(P, tier):
    vs = programs()
    ms = [it for it in vs if it[2]["prior"] in ("scen", "arr") and (tier == "thorough" or re.match(r"(\w+)_(at_least|between|arr)(_s)?$|all|mean_and|mean_quantile|two_", it[0]))]
    its = [("views", it) for it in vs] + [("moments", it) for it in ms] + [("bl", it) for it in bl_programs()] + [("ep", it) for it in EP.items()] + [("vec", it) for it in VECS.items()]
    fs, vis, tot, kinds = [], set(), {}, {}
    for it, d in zip(its, pmap(P, one, its, full=True)):
        if d is None:
            continue
        fs += d["findings"]
        vis |= set(d["visited"])
        for a, c in d["n"].items():
            tot[a] = tot.get(a, 0) + c
        kinds[it[0]] = kinds.get(it[0], 0) + d["n"]["obligations"]
    uniq = {(f.rule, f.detail): f for f in reversed(fs)}
    if tot["pooling_problems"] == 0 and not uniq:
        raise AnalysisBroken("no pooling problem was found")
    cov = dict(tot, obligations_per_part=kinds, functions_interpreted=len(vis))
    cov["explanation"] = ("%d client programs state views of every kind (mean, relative, ranking, volatility, variance, skewness, correlation, quantile, CVaR), in every written form, alone and combined, in sequential and simultaneous mode and on every kind of prior. At each call of entropy pooling the rows and right-hand sides "
                          "are read off the value numbers as polynomials over named quantities (scenario columns, prior or updated moments, targets) and compared with the documented constraint, pair by pair; each part of the posterior must depend on each target; posterior moments must be those of the scenarios under the posterior probabilities. "
                          "The pooling problem itself is compared with its documented dual (stacking order, multiplier bounds, objective, gradient, recovery of the posterior). %d Black-Litterman programs compare the posterior mean and covariance with the documented formula in normal form." % (len(vs), len(bl_programs())))
    cov["assumptions"] = ["forms the normaliser cannot name (counted as row_sets_undecided) are not compared", "clipping of exponents and of probabilities at zero is treated as the identity", "the CVaR search returns one of the pooled solutions it tried"]
    return list(uniq.values()), cov
