"""P04: every constraint the user states reaches every optimisation problem, in the right direction."""
from .common import *
from sa.values import *
from sa import scen
from sa.project import Func

PRE = '''
import numpy as np
from pyvallocation.portfolioapi import PortfolioWrapper, AssetsDistribution, TransactionCosts
from pyvallocation.utils.constraints import Constraints, build_G_h_A_b
from pyvallocation.optimization import MeanVariance, MeanCVaR, RobustOptimizer, RelaxedRiskParity
from pyvallocation.ensembles import make_portfolio_spec
'''
RHS = 'lo: "num", hi: "num", i: "int", j: "int", k: "num", gi: "any", glo: "num", ghi: "num", gr: "any", gh: "num", ar: "any", ab: "num", tw: "num"'
REST = 'relative_bounds=[(i, j, k)], group_constraints={"g": (gi, glo, ghi)}, additional_G_h=[(gr, gh)], additional_A_b=[(ar, ab)], total_weight=tw, long_only=False'
RESTD = '{"relative_bounds": [(i, j, k)], "group_constraints": {"g": (gi, glo, ghi)}, "additional_G_h": [(gr, gh)], "additional_A_b": [(ar, ab)], "total_weight": tw, "long_only": False, "bounds": %s}'
FORMS = {"pair": "(lo, hi)", "mapping": "{i: (lo, hi)}", "sequence": "[(lo, hi)]"}
UP = {"lo": "-", "hi": "+", "k": "+", "glo": "-", "ghi": "+", "gh": "+"}      # direction of each right-hand side in  G w <= h
EQ = {"tw": "+", "ab": "+"}
DIST = "AssetsDistribution(mu=mu, cov=cov, scenarios=R, probabilities=p)"
DATA = 'mu: "arr", cov: "arr", R: "arr", p: "arr"'


def methods(P):
    """public PortfolioWrapper methods that solve an optimisation problem (found from the call graph, not by name)"""
    r = P.public().get("PortfolioWrapper")
    if r is None:
        raise AnalysisBroken("PortfolioWrapper vanished")
    c = r[1]
    out = []
    for n in sorted({m for k in P.mro(c) for m in k.methods if not m.startswith("_")}):
        f = P.find_method(c, n)
        if set(f.decos) & {"classmethod", "staticmethod", "property"} or f.node.args.kwarg is not None:
            continue
        if "constraints" not in [a.arg for a, d, k in drive.params(f)]:
            continue
        out.append((n, f))
    return out


def callargs(f):
    return ["%s=x_%s" % (a.arg, a.arg) for a, d, k in drive.params(f)[1:] if d is None and a.arg not in ("constraints", "costs")]


def scenarios(P):
    """[(name, text, spec)]"""
    out = []
    ms = methods(P)
    if len(ms) < 6:
        raise AnalysisBroken("only %d optimising methods found on PortfolioWrapper" % len(ms))
    for m, f in ms:
        req = [a.arg for a, d, k in drive.params(f)[1:] if d is None and a.arg not in ("constraints", "costs")]
        xs = "".join(', x_%s: "num"' % a for a in req)
        ca = ", ".join("%s=x_%s" % (a, a) for a in req)
        for form, b in FORMS.items():
            out.append(("w_%s_%s" % (m, form), "def NAME(%s, %s%s):\n    w = PortfolioWrapper(%s, constraints=Constraints(bounds=%s, %s))\n    return w.%s(%s)\n" % (DATA, RHS, xs, DIST, b, REST, m, ca),
                        {"route": "%s with constraints given to the wrapper (%s bounds)" % (m, form)}))
        out.append(("c_%s" % m, "def NAME(%s, %s%s, nlo: \"num\", nhi: \"num\", nt: \"num\"):\n    w = PortfolioWrapper(%s, long_only=False, bounds=(nlo, nhi), total_weight=nt)\n    return w.%s(%s)\n" % (
            DATA, RHS, xs, DIST, m, ", ".join(filter(None, [ca, "constraints=Constraints(bounds=(lo, hi), %s)" % REST]))),
            {"route": "%s with constraints given to the call" % m, "forbid": {"nlo", "nhi", "nt"}}))
        out.append(("d_%s" % m, "def NAME(%s, %s%s, nlo: \"num\", nhi: \"num\", nt: \"num\"):\n    w = PortfolioWrapper(%s, long_only=False, bounds=(nlo, nhi), total_weight=nt)\n    return w.%s(%s)\n" % (
            DATA, RHS, xs, DIST, m, ", ".join(filter(None, [ca, "constraints=%s" % (RESTD % "{i: (lo, hi)}")]))),
            {"route": "%s with a constraint dictionary given to the call" % m, "forbid": {"nlo", "nhi", "nt"}}))
        out.append(("t_%s" % m, "def NAME(%s, %s%s, iw: \"arr\", mi: \"arr\", pc: \"arr\"):\n    w = PortfolioWrapper(%s, constraints=Constraints(bounds=(lo, hi), %s), costs=TransactionCosts(initial_weights=iw, market_impact_costs=mi, proportional_costs=pc))\n    return w.%s(%s)\n" % (
            DATA, RHS, xs, DIST, REST, m, ca), {"route": "%s with transaction costs" % m}))
        if "return_target" in req:
            out[-1][2]["target"] = out[-2][2]["target"] = out[-3][2]["target"] = "x_return_target"
            for o in out:
                if o[0].startswith("w_" + m):
                    o[2]["target"] = "x_return_target"
        # shortcuts and defaults
        out.append(("s_%s" % m, "def NAME(%s, lo: \"num\", hi: \"num\", tw: \"num\"%s):\n    w = PortfolioWrapper(%s, long_only=False, bounds=(lo, hi), total_weight=tw)\n    return w.%s(%s)\n" % (DATA, xs, DIST, m, ca),
                    {"route": "%s with the long_only/bounds/total_weight shortcuts" % m, "only": {"lo", "hi", "tw"}}))
        out.append(("z_%s" % m, "def NAME(%s%s):\n    w = PortfolioWrapper(%s)\n    return w.%s(%s)\n" % (DATA, xs, DIST, m, ca), {"route": "%s with default constraints" % m, "default": True}))
    # constructors
    for ctor, args, extra in (("from_moments", "mu, cov", ""), ("from_scenarios", "R, probabilities=p", ""), ("from_prices", "R", ""), ("from_invariants", "R", ""), ("from_robust_posterior", "post", ', post: "any"')):
        r = P.find_method(P.public()["PortfolioWrapper"][1], ctor)
        if r is None:
            raise AnalysisBroken("PortfolioWrapper.%s vanished" % ctor)
        out.append(("k_" + ctor, "def NAME(%s, %s%s):\n    w = PortfolioWrapper.%s(%s, constraints=Constraints(bounds=(lo, hi), %s))\n    return w.cvar_frontier()\n" % (DATA, RHS, extra, ctor, args, REST), {"route": "PortfolioWrapper.%s(constraints=...)" % ctor}))
        out.append(("l_" + ctor, "def NAME(%s, lo: \"num\", hi: \"num\", tw: \"num\"%s):\n    w = PortfolioWrapper.%s(%s, long_only=False, bounds=(lo, hi), total_weight=tw)\n    return w.cvar_frontier()\n" % (DATA, extra, ctor, args),
                    {"route": "PortfolioWrapper.%s(long_only/bounds/total_weight)" % ctor, "only": {"lo", "hi", "tw"}}))
    # ensemble specifications
    for opt in ("mean_variance", "cvar", "rrp", "robust"):
        for lab, c in (("obj", "Constraints(bounds=(lo, hi), %s)" % REST), ("dict", RESTD % "(lo, hi)")):
            out.append(("e_%s_%s" % (opt, lab), "def NAME(%s, %s):\n    s = make_portfolio_spec('x', distribution=%s, optimiser=%r, optimiser_kwargs={'constraints': %s})\n    return s.frontier_factory()\n" % (DATA, RHS, DIST, opt, c),
                        {"route": "make_portfolio_spec(optimiser=%r) with constraints in optimiser_kwargs" % opt}))
    # direct optimisers
    G = "G, h, A, b = build_G_h_A_b(2, bounds=(lo, hi), %s)" % REST
    for nm, call in (("mv_target", "MeanVariance(mu, cov, G, h, A, b).efficient_portfolio(x_return_target)"), ("mv_sharpe", "MeanVariance(mu, cov, G, h, A, b).max_sharpe(rf)"),
                     ("mv_frontier", "MeanVariance(mu, cov, G, h, A, b).efficient_frontier(5)"), ("mc_frontier", "MeanCVaR(R, p, 0.05, G, h, A, b).efficient_frontier(5)"),
                     ("mc_target", "MeanCVaR(R, p, 0.05, G, h, A, b).efficient_portfolio(x_return_target)"), ("ro_lambda", "RobustOptimizer(mu, cov, G, h, A, b).solve_lambda_variant(rf)"),
                     ("ro_gamma", "RobustOptimizer(mu, cov, G, h, A, b).solve_gamma_variant(rf, rf)"), ("rrp", "RelaxedRiskParity(mu, cov, G, h, A, b).solve(lambda_reg=rf, return_target=x_return_target)"),
                     ("mc_cost", "MeanCVaR(R, p, 0.05, G, h, A, b, initial_weights=iw, proportional_costs=iw).efficient_frontier(5)"), ("ro_cost", "RobustOptimizer(mu, cov, G, h, A, b, initial_weights=iw, proportional_costs=iw).solve_lambda_variant(rf)")):
        spec = {"route": call.split("(")[0] + "." + call.split(").")[-1].split("(")[0], "maybe_eq": nm == "mv_sharpe"}
        if "return_target" in call and nm != "rrp":
            spec["target"] = "x_return_target"
        out.append(("o_" + nm, 'def NAME(%s, %s, rf: "num", x_return_target: "num", iw: "arr"):\n    %s\n    return %s\n' % (DATA, RHS, G, call), spec))
    return out


POS = {"qp": {"G": 2, "h": 3, "A": 4, "b": 5}, "lp": {"G": 1, "h": 2, "A": 3, "b": 4}, "conelp": {"G": 1, "h": 2, "A": 4, "b": 5}, "coneqp": {"G": 2, "h": 3, "A": 5, "b": 6}, "socp": {}, "sdp": {}}


def parts(ev, I):
    nm = ev["name"].split(".")[-1]
    pos = [a for a in ev["args"] if isinstance(a, V)]
    out = {}
    if nm not in POS or not POS[nm] or not ev["name"].startswith("cvxopt"):
        return None
    for k, i in POS[nm].items():
        v = ev["kw"].get(k) or (pos[i] if i < len(pos) else None)
        out[k] = I.N(v, ev["state"]) if v is not None else None
    return out


def job(P, item):
    name, text, spec = item
    fs = []
    f = scen.load(P, PRE + text.replace("NAME", name, 1), "_p04_" + name)[name]
    r = run_entry(P, f, scen.make(f))
    have = {a.arg for a, d, k in drive.params(f)}
    up = {s: d for s, d in UP.items() if s in have and ("only" not in spec or s in spec["only"])}
    eq = {s: d for s, d in EQ.items() if s in have and ("only" not in spec or s in spec["only"])}
    mats = {s for s in ("gr",) if s in have and s in up or s in have and "only" not in spec and s == "gr"}
    eqm = {s for s in ("ar",) if s in have and "only" not in spec}
    n = {"solver_problems": 0, "obligations": 0, "scenarios": 1, "no_solver": 0}
    label = spec["route"]
    tgt = False
    eqseen, eqev = set(), None
    anysol = False
    for ev in r.events:
        if ev["kind"] != "solver":
            continue
        anysol = True
        p = parts(ev, r.I)
        if p is None:
            continue
        n["solver_problems"] += 1
        Z = V()
        G, h, A, b = (p[x] or Z for x in "GhAb")
        ineq = h.must | G.must
        if spec.get("maybe_eq"):       # rows the normalisation implies may be left out one by one: judged over all problems of the scenario
            eqseen |= A.may | b.may
            equ = frozenset(set(eq) | eqm)
            eqev = ev
        else:
            equ = b.must | A.must
        for s, d in up.items():
            n["obligations"] += 1
            if s not in ineq:
                fs.append(finding(P, "constraint-dropped", ev, "%s: the %s does not reach the %s problem on every path" % (label, WHAT[s], ev["name"].split(".")[-1]), name))
            elif s in h.pol and h.pol[s] not in (d, "?") or s in h.pol and h.pol[s] == "?" and s not in G.pol:
                fs.append(finding(P, "constraint-direction", ev, "%s: the %s enters the right-hand side with the wrong sign" % (label, WHAT[s]), name))
            elif s not in h.pol and s in G.pol and G.pol[s] == d:
                fs.append(finding(P, "constraint-direction", ev, "%s: the %s enters the inequalities with the wrong sign" % (label, WHAT[s]), name))
        for s in mats:
            n["obligations"] += 1
            if s not in G.must:
                fs.append(finding(P, "constraint-dropped", ev, "%s: the %s does not reach the %s problem on every path" % (label, WHAT[s], ev["name"].split(".")[-1]), name))
            elif G.pol.get(s) == "-":
                fs.append(finding(P, "constraint-direction", ev, "%s: the %s enters negated" % (label, WHAT[s]), name))
        for s in set(eq) | eqm:
            n["obligations"] += 1
            if s not in equ:
                fs.append(finding(P, "constraint-dropped", ev, "%s: the %s does not reach the %s problem on every path" % (label, WHAT[s], ev["name"].split(".")[-1]), name))
            elif s in eq and b.pol.get(s) == "-" and not spec.get("maybe_eq"):
                fs.append(finding(P, "constraint-direction", ev, "%s: the %s enters the equalities negated" % (label, WHAT[s]), name))
        for x in spec.get("forbid", ()):
            n["obligations"] += 1
            if x in G.may | h.may | A.may | b.may:
                fs.append(finding(P, "override-ignored", ev, "%s: the wrapper's own constraints are still used although the call supplies others" % label, name))
        if spec.get("default"):
            n["obligations"] += 1
            if p["G"] is None or p["G"].is_("None") or p["A"] is None or p["A"].is_("None") or p["b"].is_("None"):
                fs.append(finding(P, "constraint-dropped", ev, "%s: solved without the default long-only, fully invested constraints" % label, name))
        if "target" in spec and spec["target"] in h.may:
            tgt = True
            if h.pol.get(spec["target"]) != "-":
                fs.append(finding(P, "constraint-direction", ev, "%s: the return target must enter as -target in G w <= h" % label, name))
    if spec.get("maybe_eq") and eqev is not None:
        for s in set(eq) | eqm:
            if s not in eqseen:
                fs.append(finding(P, "constraint-dropped", eqev, "%s: the %s reaches no %s problem" % (label, WHAT[s], eqev["name"].split(".")[-1]), name))
    if "target" in spec and not tgt and anysol:
        fs.append(Finding("constraint-dropped", label, "the requested return target reaches no optimisation problem", 0, (name,)))
    if not anysol:
        n["no_solver"] = 1
        raise AnalysisBroken("scenario %s reaches no solver call" % name)
    return {"findings": fs, "n": n, "level": r.level, "visited": r.I.visited}


WHAT = {"lo": "lower bound", "hi": "upper bound", "k": "relative bound", "glo": "group lower limit", "ghi": "group upper limit", "gh": "additional inequality's right-hand side", "gr": "additional inequality's row",
        "ar": "additional equality's row", "ab": "additional equality's right-hand side", "tw": "total weight"}

# ------------------------------------------------------------------ rows of the constraint matrices
ROWS = [
    ("lower_pair", "bounds=(lo, None), long_only=False, total_weight=None", ("eye", -1), "lo", "-"),
    ("upper_pair", "bounds=(None, hi), long_only=False, total_weight=None", ("eye", 1), "hi", "+"),
    ("lower_map", "bounds={i: (lo, None)}, long_only=False, total_weight=None", {"i": -1}, "lo", "-"),
    ("upper_map", "bounds={i: (None, hi)}, long_only=False, total_weight=None", {"i": 1}, "hi", "+"),
    ("relative", "relative_bounds=[(i, j, k)], long_only=False, total_weight=None", {"i": 1, "j": -1}, "k", "+"),
    ("long_only", "long_only=True, total_weight=None", ("eye", -1), None, None),
]


def row_of(vid, names, depth=0):
    """content of a constraint row from its value number: ('eye', s) | ('ones', s) | {index source: value} | None (unknown)"""
    t = term(vid)
    if not t or depth > 12:
        return None
    if t[0] in ("numpy.eye", "numpy.identity"):
        return ("eye", 1)
    if t[0] == "numpy.ones":
        return ("ones", 1)
    if t[0] == "numpy.zeros":
        return {}
    if t[0] == "neg":
        x = row_of(t[1], names, depth + 1)
        if isinstance(x, tuple):
            return (x[0], -x[1])
        if isinstance(x, dict):
            return {k: -v for k, v in x.items()}
    if t[0] == "get":
        b = row_of(t[1], names, depth + 1)
        k = names.get(t[2])
        if isinstance(b, tuple) and b[0] == "eye" and k:
            return {k: b[1]}
    if t[0] in ("Add", "Sub"):
        x, y = row_of(t[1], names, depth + 1), row_of(t[2], names, depth + 1)
        if isinstance(x, dict) and isinstance(y, dict):
            o = dict(x)
            for k, v in y.items():
                o[k] = o.get(k, 0) + (v if t[0] == "Add" else -v)
            return o
    if t[0] == "upd":
        b = row_of(t[1], names, depth + 1)
        c = term(t[2])
        k = names.get(t[3])
        if isinstance(b, dict) and k and c and c[0] == "k":
            try:
                o = dict(b)
                o[k] = float(c[2])
                return o
            except ValueError:
                return None
    return None


def rows_job(P, item):
    name, args, want, src_, pol = item
    text = PRE + 'def %s(lo: "num", hi: "num", i: "int", j: "int", k: "num", n: "int"):\n    return build_G_h_A_b(n, %s)\n' % (name, args)
    f = scen.load(P, text, "_p04r_" + name)[name]
    r = run_entry(P, f, scen.make(f))
    names = {vn("src", x): x for x in ("i", "j")}
    fs, n = [], {"row_obligations": 0, "rows_undecided": 0}
    if not r.outs:
        raise AnalysisBroken("no normal return for %s" % name)
    for st, v in r.outs:
        if v.seq is None or len(v.seq) != 4:
            raise AnalysisBroken("build_G_h_A_b no longer returns four values")
        G, h = v.seq[0], v.seq[1]
        if G.is_("None"):
            if not (src_ is None):
                fs.append(Finding("constraint-dropped", "pyvallocation/utils/constraints.py:build_G_h_A_b", "%s: no inequality row is built" % name, 0, (name,), "pyvallocation/utils/constraints.py"))
            continue
        Gn = r.I.N(G, st)
        n["row_obligations"] += 1
        if Gn.seq is None or len(Gn.seq) != 1:
            n["rows_undecided"] += 1
            continue
        got = row_of(Gn.seq[0].vid, names)
        if got is None:
            n["rows_undecided"] += 1
            continue
        if isinstance(got, dict):
            got = {k: x for k, x in got.items() if x != 0}
        if got != want:
            fs.append(Finding("constraint-row", "pyvallocation/utils/constraints.py:build_G_h_A_b", "%s constraint builds the row %s instead of %s" % (name, got, want), 0, (name,), "pyvallocation/utils/constraints.py"))
        hn = r.I.N(h, st)
        if src_ and hn.pol.get(src_) not in (pol, None, "?"):
            fs.append(Finding("constraint-direction", "pyvallocation/utils/constraints.py:build_G_h_A_b", "%s constraint has the wrong sign on its right-hand side" % name, 0, (name,), "pyvallocation/utils/constraints.py"))
    return {"findings": fs, "n": n, "level": r.level, "visited": r.I.visited}


def run(P, tier):
    sc = scenarios(P)
    fs, tot, levels = [], {}, {}
    for rs in (pmap(P, job, sc), pmap(P, rows_job, ROWS)):
        for r in rs:
            fs += r["findings"]
            for k, v in r["n"].items():
                tot[k] = tot.get(k, 0) + v
            levels[str(r["level"])] = levels.get(str(r["level"]), 0) + 1
    cov = dict(tot)
    cov["precision_levels"] = levels
    cov["routes"] = sorted({s[2]["route"] for s in sc})
    cov["explanation"] = ("Client programs that state every kind of constraint through every public route (%d scenarios: wrapper constructor and class-method constructors, per-call Constraints object or dictionary, shortcuts, defaults, with costs, "
                          "ensemble specifications, direct optimiser use) are interpreted abstractly with symbolic bounds. At each of the %d abstract solver problems reached, every stated limit must be a must-dependency of the inequality or equality data "
                          "and its monotone direction must be that of G w <= h, A w = b (%d obligations). Rows of the constraint builder are compared with their specification by value number (%d decided, %d not decided)."
                          % (tot["scenarios"], tot["solver_problems"], tot["obligations"], tot["row_obligations"] - tot["rows_undecided"], tot["rows_undecided"]))
    cov["assumptions"] = ["arrays stacked from at least one row are non-empty", "each symbolic limit is a number different from None and index arguments name existing assets"]
    return fs, cov
