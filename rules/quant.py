"""Client programs over symbolic quantities with units and signs; the interpreted degree (power with which a result scales in each unit) and
monotone direction of every numeric component.  Units: u = size of returns, h = horizon, w = size of positions, p = scale of probabilities,
m = money, q = price level."""
import json, os, re
from .common import *
from sa.values import *
from sa import scen
from .p12 import S, PRE as PRE0

PRE = PRE0 + '''
from pyvallocation.utils.performance import performance_report, scenario_pnl, horizon_report, drawdown_quantile
from pyvallocation.discrete_allocation import discretize_weights, allocate_greedy, allocate_mip, DiscreteAllocationInput
from pyvallocation.ensembles import average_exposures, exposure_stacking, stack_portfolios, average_frontiers
from pyvallocation.utils.weights import normalize_weights
from pyvallocation.utils.projection import project_mean_covariance, log2simple, simple2log, project_scenarios, simulate_paths
from pyvallocation.probabilities import generate_uniform_probabilities, generate_exp_decay_probabilities, generate_gaussian_kernel_probabilities, silverman_bandwidth, compute_effective_number_scenarios, compute_effective_number_scenarios_hhi, resolve_probabilities, normalize_probability_vector
from pyvallocation.utils.validation import ensure_psd_matrix
from pyvallocation.utils.constraints import Constraints
from pyvallocation import moments as M
from pyvallocation.utils import functions as F
from pyvallocation.stress import exp_decay_stress, kernel_focus_stress, entropy_pooling_stress
from pyvallocation.views import entropy_pooling
'''
P0 = "p:arr+"
MU, COV, R, W, P_ = "mu:arr^u1", "cov:arr^u2", "R:arr^u1", "w:arr^w1", "p:arr^p1+"


def programs():
    o = []

    def a(name, params, body):
        o.append((name, S(name, params, body)[1].replace("NAME", name, 1)))
    # portfolio risk functions
    a("variance", W + " " + COV, "return F.portfolio_variance(w, cov)")
    a("volatility", W + " " + COV, "return F.portfolio_volatility(w, cov)")
    for fn in ("portfolio_var", "portfolio_cvar"):
        a(fn, W + " " + R + " " + P0 + " c:num+", "return F.%s(w, R, p, confidence=c)" % fn)
        a(fn + "_dm", W + " " + R + " " + P0 + " c:num+", "return F.%s(w, R, p, confidence=c, demean=True)" % fn)
        a(fn + "_long", "w:arr^w1+ " + R + " " + P0 + " c:num+", "return F.%s(w, R, p, confidence=c)" % fn)
    a("report", W + " " + R + " " + P_ + " c:num+", "return performance_report(w, R, probabilities=p, confidence=c)")
    a("report_long", "w:arr^w1+ " + R + " " + P_ + " c:num+", "return performance_report(w, R, probabilities=p, confidence=c)")
    a("stress_long", "w:arr^w1+ " + R + " " + P_ + " c:num+", "return stress_test(w, R, probabilities=p, confidence=c)")
    a("pnl_long", "w:arr^w1+ " + R, "return scenario_pnl(w, R)")
    a("lin_long", "w:arr^w1+ " + R + " S:arr", "return stress_test(w, R, transform=linear_map(scale=S), confidence=0.9)")
    a("horizon", W + " X:arr^u1 " + P0 + " f:fn", "return horizon_report(w, X, p=p, reprice=f)")
    a("dd", "w:arr^w1+ X:arr^u1 c:num+ f:fn", "return drawdown_quantile(w, X, 10, confidence=c, reprice=f)")
    a("pnl", W + " " + R, "return scenario_pnl(w, R)")
    a("stress", W + " " + R + " p:arr^p1+ q:arr^r1+ c:num+", "return stress_test(w, R, probabilities=p, stressed_probabilities=q, confidence=c)")
    # estimators
    a("est", R + " " + P0, "return M.estimate_sample_moments(R, p)")
    for me in ("sample", "jorion", "james_stein", "huber", "median_of_means"):
        a("m_" + me, R, "return M.estimate_moments(R, mean_estimator=%r)[0]" % me)
    for ce in ("sample", "ledoit_wolf", "oas", "nls", "poet", "tyler", "ewma"):
        a("c_" + ce, R, "return M.estimate_moments(R, cov_estimator=%r)[1]" % ce)
    a("jorion", MU + " " + COV + " T:int+", "return M.shrink_mean_jorion(mu, cov, T)")
    a("james_stein", MU + " " + COV + " T:int+", "return M.shrink_mean_james_stein(mu, cov, T)")
    a("ledoit", R + " " + COV, "return M.shrink_covariance_ledoit_wolf(R, cov)")
    a("ledoit_cc", R + " " + COV, "return M.shrink_covariance_ledoit_wolf(R, cov, target='constant_correlation')")
    for fn, args in (("shrink_covariance_oas", "R"), ("shrink_covariance_nls", "R"), ("factor_covariance_poet", "R, k=2"), ("robust_covariance_tyler", "R"), ("covariance_ewma", "R, span=20"), ("robust_mean_huber", "R"), ("robust_mean_median_of_means", "R")):
        a("e_" + fn, R, "return M.%s(%s)" % (fn, args))
    # projection to a horizon
    a("proj", MU + " " + COV + " h:num^h1+", "return project_mean_covariance(mu, cov, h)")
    a("from_post", "post:any h:num^h1+", "if h == 1.0:\n    raise ValueError()\nreturn PortfolioWrapper.from_robust_posterior(post, annualization_factor=h)")
    # Bayesian
    N = "pm:arr^u1 ps:arr^u2 t0:int+ nu0:int+ sm:arr^u1 ss:arr^u2 n:int+ q:num+ h:num^h1+"
    for nm, g in (("mu", "get_mu_ce()"), ("smu", "get_S_mu()"), ("sig", "get_sigma_ce()"), ("rmu", "cred_radius_mu(q)"), ("rsig", "cred_radius_sigma_factor(q)")):
        a("niw_" + nm, N, "o = NIWPosterior(pm, ps, t0, nu0)\no.update(sm, ss, n)\nreturn o.%s" % g)
    for nm, g in (("unc", "mean_uncertainty_cov_log(annualization_factor=h)"), ("sig1", "sigma1"), ("simp", "mean_uncertainty_cov_simple(annualization_factor=h, exact=False)")):
        a("rbp_" + nm, N, "o = RobustBayesPosterior.from_niw(prior_mu=pm, prior_sigma=ps, t0=t0, nu0=nu0, sample_mu=sm, sample_sigma=ss, n_obs=n)\nreturn o.%s" % g)
    # Black-Litterman
    for nm, kw, ps in (("mean", "prior_mean=mu, mean_views={0: v}", MU + " v:num^u1"), ("pi_idz", "pi=mu, mean_views={0: v}, view_confidences=c, omega='idzorek'", MU + " v:num^u1 c:num+"),
                       ("mkt", "market_weights=mw, risk_aversion=ra, mean_views={0: v}", "mw:arr^w1+ ra:pos^u-1+ v:num^u1"), ("rel", "pi=mu, mean_views={(0, 1): v}", MU + " v:num^u1"),
                       ("om", "pi=mu, mean_views={0: v}, omega=om", MU + " v:num^u1 om:arr^u2")):
        a("bl_" + nm, COV + " tau:pos+ " + ps, "return BlackLittermanProcessor(prior_cov=cov, tau=tau, %s).get_posterior()" % kw)
    # frontier tables
    WM, WS = "w = PortfolioWrapper.from_moments(mu, cov)\n", "w = PortfolioWrapper.from_scenarios(R, probabilities=p)\n"
    a("f_var", MU + " " + COV, WM + "return w.variance_frontier(5)")
    a("f_cvar", R + " " + P_, WS + "return w.cvar_frontier(5)")
    a("f_rob", MU + " " + COV, WM + "return w.robust_lambda_frontier(5)")
    a("minv", MU + " " + COV + " t:num^u1", WM + "return w.min_variance_at_return(t)")
    a("minc", R + " " + P_ + " t:num^u1", WS + "return w.min_cvar_at_return(t)")
    # probabilities
    a("resolve", P_ + " T:int", "return resolve_probabilities(p, T)")
    a("ens", P_, "return compute_effective_number_scenarios(p)")
    a("avg", "X:arr^w1 g:arr^p1+", "return average_exposures(X, g)")
    a("nw", "g:arr^p1+ n:int", "return normalize_weights(g, n)")
    a("dist", R + " " + P_, "d = AssetsDistribution(scenarios=R, probabilities=p)\nreturn d.mu, d.cov, d.probabilities")
    a("ep", "p:arr^p1+ A:arr b:arr G:arr h:arr", "return entropy_pooling(p, A, b, G, h)")
    a("kern", "v:arr^u1 h:num^u1+ x:num^u1", "return generate_gaussian_kernel_probabilities(v, None, h, x)")
    a("silv", "v:arr^u1", "return silverman_bandwidth(v)")
    PRB = "p:arr^p1+"
    a("fv", R + " " + P_ + " v:any", "o = FlexibleViewsProcessor(prior_risk_drivers=R, prior_probabilities=p, mean_views=v)\nreturn o.get_posterior_probabilities(), o.get_posterior()")
    a("proj_sc", R + " " + P_ + " s:int", "return project_scenarios(R, 3, p, 100, seed=s)")
    a("paths", R + " " + P_ + " s:int", "return simulate_paths(R, 3, n_paths=50, p=p, seed=s)")
    a("hor_p", R + " " + P_ + " w:arr s:int f:fn", "return horizon_report(w, R, p=p, reprice=f, seed=s)")
    a("dd_p", R + " " + P_ + " w:arr s:int f:fn", "return drawdown_quantile(w, R, 5, p=p, reprice=f, seed=s)")
    a("inv", "R:df^u1 w:arr f:fn c:num+", "return stress_invariants(R, w, f, confidence=c)")
    a("spec", R + " " + P_, "s = make_portfolio_spec('a', distribution_factory=lambda: AssetsDistribution(scenarios=R, probabilities=p), optimiser='cvar', selector='tangency')\nreturn s.frontier_factory()")
    for nm, ps in (("s", "p:series^p1+"), ("a", P_)):
        for opt in ("mean_variance", "cvar"):
            a("spec_%s_%s" % (nm, opt[:2]), "X:df^u1 " + ps, "s = make_portfolio_spec('a', returns=X, probabilities=p, optimiser=%r, use_scenarios=%r)\nreturn s.frontier_factory()" % (opt, opt == "cvar"))
            a("sel_%s_%s" % (nm, opt[:2]), "X:df^u1 " + ps, "s = make_portfolio_spec('a', returns=X, probabilities=p, optimiser=%r, use_scenarios=%r)\nreturn s.selector(s.frontier_factory())" % (opt, opt == "cvar"))
    a("inv_p", "X:df^u1 " + P_ + " s:int", "return PortfolioWrapper.from_invariants(X, horizon=3, p=p, seed=s).cvar_frontier(5)")
    a("inv_a", "X:arr^u1 " + P_ + " s:int", "return PortfolioWrapper.from_invariants(X, horizon=3, p=p, seed=s).cvar_frontier(5)")
    a("inv_d", "X:df^u1 " + P_ + " s:int f:fn", "return PortfolioWrapper.from_invariants(X, horizon=3, p=p, seed=s, reprice={'a': f}).cvar_frontier(5)")
    a("est_m", "R:df^u1 " + P0, "return M.estimate_moments(R, p)")
    a("est_s", "R:df^u1 p:series^p1+", "return M.estimate_moments(R, p)")
    a("stk", "X:arr g:arr^p1+", "return average_exposures(X, weights=g)")
    a("hhi", P_, "return compute_effective_number_scenarios_hhi(p)")
    a("npv", P_, "return normalize_probability_vector(p)")
    a("psd", "v:arr^u1", "return ensure_psd_matrix(v)")
    a("kern0", "v:arr^u1", "return generate_gaussian_kernel_probabilities(v)")
    a("decay", "T:int+ hl:num+", "return generate_exp_decay_probabilities(T, hl)")
    # kernel and decay weights (an exponential has a scale of its own: "s")
    a("prob_decay", "T:int hl:num+", "return generate_exp_decay_probabilities(T, hl)")
    a("prob_kern", "v:arr h:num+ x:num", "return generate_gaussian_kernel_probabilities(v, None, h, x)")
    a("prob_kern0", "v:arr ref:arr", "return generate_gaussian_kernel_probabilities(v, ref)")
    a("prob_ep", "p:arr^p1+ A:arr b:arr G:arr h:arr", "return entropy_pooling(p, A, b, G, h)")
    a("prob_ep0", "p:arr^p1+ A:arr b:arr", "return entropy_pooling(p, A, b)")
    a("prob_stress_d", R + " w:arr " + P_ + " hl:num+", "return exp_decay_stress(w, R, half_life=hl, probabilities=p)")
    a("prob_stress_k", R + " w:arr " + P_ + " v:arr", "return kernel_focus_stress(w, R, focus_series=v, probabilities=p)")
    a("prob_fv", R + " " + P_ + " v:any", "o = FlexibleViewsProcessor(prior_risk_drivers=R, prior_probabilities=p, mean_views=v)\nreturn o.get_posterior_probabilities()")
    a("prob_fvs", R + " " + P_ + " v:any", "o = FlexibleViewsProcessor(prior_risk_drivers=R, prior_probabilities=p, mean_views=v, sequential=True)\nreturn o.get_posterior_probabilities()")
    # discrete allocation
    for m in ("greedy", "milp"):
        a("disc_" + m, "w:series^w1 p:series^m1q-1+ v:num^m1+", "return discretize_weights(w, p, v, method=%r)" % m)
    return o


def numbers(r):
    """{component path: [(V, state)]} of every result"""
    I = r.I
    acc = {}

    def walk(path, v, st, seen, depth):
        if v.is_("None"):
            return
        if not (v.ty is not None and v.ty <= {"tuple", "obj", "dict", "str", "bool", "None"}):
            acc.setdefault(path, []).append((I.N(v, st), st))
        if depth >= 3:
            return
        if v.seq is not None and v.ty is not None and v.ty <= {"tuple", "list"}:
            for i, x in enumerate(v.seq):
                walk("%s[%d]" % (path, i), x, st, seen, depth + 1)
        for rid, ob in I.objs(st, v):
            if rid in seen:
                continue
            for k, x in (ob.attrs or {}).items():
                if not k.startswith("_"):
                    walk("%s.%s" % (path, k), x, st, seen | {rid}, depth + 1)
            for k, x in (ob.keys or {}).items():
                walk("%s[%r]" % (path, k[1] if isinstance(k, tuple) and len(k) == 2 else k), x, st, seen | {rid}, depth + 1)
    for st, v in r.outs:
        walk("", v, st, frozenset(), 0)
    if r.outs:
        for ev in r.events:
            if ev["kind"] == "libcall" and ev["name"] in ("pandas.Series", "pandas.DataFrame") and ev["args"] and isinstance(ev["args"][0], V):
                for rid, ob in I.objs(ev["state"], ev["args"][0]):
                    for k, x in (ob.keys or {}).items():
                        if isinstance(k, str):
                            acc.setdefault("{%s}" % k, []).append((I.N(x, ev["state"]), ev["state"]))
            elif ev["kind"] == "fkey":
                acc.setdefault("{%s}" % ev["pattern"], []).append((I.N(ev["value"], ev["state"]), ev["state"]))
    for ev in r.events:     # resampling weights handed to a random generator
        if ev["kind"] == "draw" and "p" in ev.get("kw", {}):
            acc.setdefault("draw(p)", []).append((I.N(ev["kw"]["p"], ev["state"]), ev["state"]))
    return acc


def measure(P, it):
    name, text = it
    f = scen.load(P, PRE + text, "_q_" + name)[name]
    units = {}
    st = State({}, {}, frozenset())
    for n, v in scen.make(f)(st, None)[2].items():
        for k in v.deg:
            if k.startswith("$"):
                units.setdefault(k, set()).add(n)
    if name.startswith("prob_"):
        units["$s"] = set()
    r = run_entry(P, f, scen.make(f), opts={"client": True, "units": units, "valueflow": True, "expunit": name.startswith("prob_")})
    return r, units, f


def degree(v, u, users):
    """the power with which v scales in unit u: a Fraction, "T" (none), or None (unknown)"""
    if u in v.deg:
        return v.deg[u]
    return Fraction(0) if not (v.may & users) else None


SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "quant.json")
# degrees the analysis cannot establish on the reviewed tree but that the documented quantity has: only a definite other degree is reported
THEORY = {"m_huber": {"": {"$u": 1}}, "e_robust_mean_huber": {"": {"$u": 1}}, "c_nls": {"": {"$u": 2}}, "e_shrink_covariance_nls": {"": {"$u": 2}},
          "c_tyler": {"": {"$u": 2}}, "e_robust_covariance_tyler": {"": {"$u": 2}}}


def job(P, it):
    """-> (name, {component: {"deg": {unit: [known degrees]}, "pol": {param: [known directions]}, "sign": [known signs]}}, mixes, anchor, size)"""
    r, units, f = measure(P, it)
    o = {}
    for k, vs in numbers(r).items():
        c = o.setdefault(k, {"deg": {}, "pol": {}, "sign": set(), "n": len(vs)})
        for v, st in vs:
            for u, n in units.items():
                d = degree(v, u, n)
                if d is not None and d != "T":
                    c["deg"].setdefault(u, set()).add(str(d))
            for p, q in v.pol.items():
                c["pol"].setdefault(p, set()).add(q)
            c["sign"].add(v.sign)
    mix = {}
    for ev in r.events:
        if ev["kind"] == "unitmix":
            op = {"Add": "sum", "Sub": "sum", "max": "bound", "min": "bound", "clip": "bound"}.get(ev["op"], "compare" if ev["op"] in CMP else ev["op"])
            d = [str(x) for x in sorted((ev["a"], ev["b"]))]
            mix.setdefault("%s %s %s %s" % (ev["unit"], op, *d), (construct(P, ev), rel(P, ev["file"]), ev["line"], tuple(ev["stack"])))
    g = target(P, it[1])
    return it[0], o, mix, len(r.outs), sorted(getattr(r.I, "visited", ())), (rel(P, g.mod.path) + ":" + g.qual if g else "program " + it[0], rel(P, g.mod.path) if g else "", g.node.lineno if g else 0), [raised(P, x) for x in r.raises]


def raised(P, x):
    st, exc, func, line = x[:4]
    return ("%s:%s" % (rel(P, func.mod.path), func.qual) if hasattr(func, "mod") else str(func), line, str(exc))


CMP = ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq")
NAMES = {}


def target(P, text):
    """the public function a program exercises (the last package name it calls)"""
    if not NAMES:
        for f in P.all_funcs():
            if not f.name.startswith("_") and not f.mod.name.split(".")[-1].startswith("_"):
                NAMES.setdefault(f.name, f)
            elif f.name == "__init__" and f.cls is not None:
                NAMES.setdefault(getattr(f.cls, "name", f.cls), f)
    last = None
    for w in re.findall(r"(\w+)\(", text.split("\n", 1)[1]):
        last = NAMES.get(w, last)
    return last


def spec_of(res):
    o = {}
    for name, comps, mix, *_ in res:
        e = o[name] = {}
        for k, c in sorted(comps.items()):
            x = {}
            d = {u: next(iter(v)) for u, v in c["deg"].items() if len(v) == 1}
            d.update({u: str(v) for u, v in THEORY.get(name, {}).get(k, {}).items()})
            if d:
                x["deg"] = d
            p = {q: next(iter(v)) for q, v in c["pol"].items() if len(v) == 1 and v <= {"+", "-"}}
            if p:
                x["pol"] = p
            if len(c["sign"]) == 1 and None not in c["sign"]:
                x["sign"] = next(iter(c["sign"]))
            if x:
                e[k] = x
        if mix:
            e["mix"] = sorted(mix)
    return o


def decide(P, units, rule, say, lenient=()):
    """compare every component's degrees in the given units with the reviewed ones; -> findings, coverage"""
    spec = json.load(open(SPEC))
    its = programs()
    R = pmap(P, job, its)
    fs, vis = [], set()
    n = {"quantity_programs": len(its), "programs_returning": 0, "obligations": 0, "obligations_undecided": 0, "operations_mixing_units": 0}
    for name, comps, mix, outs, visited, at, rs in R:
        vis |= set(visited)
        sp = spec.get(name, {})
        if not outs:
            us = {u for k, e in sp.items() if k != "mix" for u in e.get("deg", {})} & units
            if us and rs and us & {"$p", "$r"}:      # every path raises: values that were accepted are now rejected
                f, l, why = rs[0]
                fs.append(Finding(rule, f, "program %s: every path ends in an exception (%s): values that do not sum to one are rejected" % (name, why), l, ("program " + name,), f.split(":")[0]))
            continue
        n["programs_returning"] += 1
        for k, e in sp.items():
            if k == "mix" or k not in comps:
                continue
            for u, want in e.get("deg", {}).items():
                if u not in units or k.startswith("{ENS") and u == "$s":
                    continue
                c = comps[k]
                got = c["deg"].get(u, set())
                if not got:
                    n["obligations_undecided"] += 1
                    continue
                n["obligations"] += 1
                bad = sorted(got - {want})
                if bad and not (want in got and (u in lenient or any(m.startswith(u + " ") for m in mix))):
                    fs.append(Finding(rule, at[0], say(name, k, u, want, "/".join(bad)), at[2], ("program " + name,), at[1]))
        for m, (cons, file, line, stack) in mix.items():
            u = m.split()[0]
            if u not in units:
                continue
            n["operations_mixing_units"] += 1
            if " tolerance " in m:
                fs.append(Finding("loose-total", cons, "program %s: a total of probabilities is accepted as one within a tolerance that is not a matter of rounding" % name, line, ("program " + name,) + stack, file))
            elif m not in sp.get("mix", ()) and u in ("$u", "$w", "$h", "$m", "$q"):
                _, op, x, y = m.split()
                fs.append(Finding("quantities-of-different-units", cons, "program %s: %s of quantities that scale with powers %s and %s of the %s: the result depends on the unit chosen" % (name, op, x, y, NOUN[u]), line, ("program " + name,) + stack, file))
    if n["obligations"] < 20:
        raise AnalysisBroken("only %d scaling obligations could be decided" % n["obligations"])
    n["functions_interpreted"] = len(vis)
    return fs, n


NOUN = {"$u": "size of returns", "$w": "size of positions", "$h": "horizon", "$m": "currency unit", "$q": "price level", "$p": "scale of the probabilities", "$r": "scale of the stressed probabilities", "$s": "scale of the kernel"}

if __name__ == "__main__":
    import sys, json
    sys.setrecursionlimit(20000)
    P = Project()
    sp = spec_of(pmap(P, job, programs()))
    if "--write" in sys.argv:
        json.dump(sp, open(SPEC, "w"), indent=1, sort_keys=True)
    print(sum(len(v) for v in sp.values()), "components")
