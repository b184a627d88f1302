"""P12: every argument takes effect.  Dependence (explicit and implicit flow) of every component of every public result on every
argument, compared with the reviewed obligations in specs/args.json (regenerate with `python3 -m rules.p12 --write`, then review)."""
import json, os, re, sys
from .common import *
from sa.values import *
from sa import scen

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "args.json")
MAXDEPTH = 3
PRE = '''
import numpy as np
import pandas as pd
from pyvallocation.portfolioapi import PortfolioWrapper, AssetsDistribution, TransactionCosts, PortfolioFrontier
from pyvallocation.optimization import MeanVariance, MeanCVaR, RobustOptimizer, RelaxedRiskParity
from pyvallocation.ensembles import make_portfolio_spec, assemble_portfolio_ensemble
from pyvallocation.views import BlackLittermanProcessor, FlexibleViewsProcessor
from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior
from pyvallocation.stress import linear_map, stress_test, stress_invariants
from pyvallocation.utils.projection import make_repricing_fn, compose_repricers, reprice_exp, project_scenarios
'''


def S(name, params, body):
    """a client program: name, 'a:kind b:kind' parameters, body"""
    ps = ", ".join('%s: "%s"' % tuple(p.split(":")) for p in params.split())
    return name, "def NAME(%s):\n%s\n" % (ps, "\n".join("    " + l for l in body.strip().split("\n")))


MOM = "mu:arr cov:arr"
SCN = "R:arr p:arr"
DM = "AssetsDistribution(mu=mu, cov=cov)"
DS = "AssetsDistribution(scenarios=R, probabilities=p)"
GH = "G:arr h:arr A:arr b:arr"


def scenarios():
    o = []
    a = o.append
    # optimisers
    for nm, ctor, cp in (("mv", "MeanVariance(mu, cov, G, h, A, b)", MOM), ("mvc", "MeanVariance(mu, cov, G, h, A, b, initial_weights=iw, market_impact_costs=mic)", MOM + " iw:arr mic:arr"),
                         ("mc", "MeanCVaR(R, p, alpha, G, h, A, b)", SCN + " alpha:num"), ("mcc", "MeanCVaR(R, p, alpha, G, h, A, b, initial_weights=iw, proportional_costs=pc)", SCN + " alpha:num iw:arr pc:arr")):
        a(S(nm + "_target", cp + " " + GH + " t:num", "return %s.efficient_portfolio(t)" % ctor))
        a(S(nm + "_frontier", cp + " " + GH + " n:int", "return %s.efficient_frontier(n)" % ctor))
    a(S("mv_sharpe", MOM + " " + GH + " rf:num", "return MeanVariance(mu, cov, G, h, A, b).max_sharpe(rf)"))
    for nm, ctor, cp in (("ro", "RobustOptimizer(mu, cov, G, h, A, b)", MOM), ("roc", "RobustOptimizer(mu, cov, G, h, A, b, initial_weights=iw, proportional_costs=pc)", MOM + " iw:arr pc:arr")):
        a(S(nm + "_lambda", cp + " " + GH + " lam:num", "return %s.solve_lambda_variant(lam)" % ctor))
        a(S(nm + "_gamma", cp + " " + GH + " gm:num gs:num", "return %s.solve_gamma_variant(gm, gs)" % ctor))
        a(S(nm + "_frontier", cp + " " + GH + " lams:arr", "return %s.efficient_frontier(lams)" % ctor))
    a(S("rrp", MOM + " " + GH + " rb:arr lam:num t:num mt:num", "return RelaxedRiskParity(mu, cov, G, h, A, b, risk_budgets=rb).solve(lambda_reg=lam, return_target=t, min_target=mt)"))
    # wrapper
    for nm, dist, dp in (("m", DM, MOM), ("s", DS, SCN)):
        w = "w = PortfolioWrapper(%s)\n" % dist
        a(S("w_var_" + nm, dp + " n:int", w + "return w.variance_frontier(n)"))
        a(S("w_cvar_" + nm, dp + " n:int alpha:num seed:int", w + "return w.cvar_frontier(n, alpha, seed)"))
        a(S("w_rob_" + nm, dp + " n:int ml:num rc:arr", w + "return w.robust_lambda_frontier(n, ml, return_cov=rc)"))
        a(S("w_robl_" + nm, dp + " lams:arr", w + "return w.robust_lambda_frontier(lambdas=lams)"))
        a(S("w_minv_" + nm, dp + " t:num", w + "return w.min_variance_at_return(t)"))
        a(S("w_minc_" + nm, dp + " t:num alpha:num seed:int", w + "return w.min_cvar_at_return(t, alpha, seed)"))
        a(S("w_gam_" + nm, dp + " gm:num gs:num", w + "return w.solve_robust_gamma_portfolio(gm, gs)"))
        a(S("w_rrpm_" + nm, dp + " lam:num tm:num rb:arr", w + "return w.relaxed_risk_parity_portfolio_with_diagnostics(lambda_reg=lam, target_multiplier=tm, risk_budgets=rb)"))
        a(S("w_rrpt_" + nm, dp + " lam:num t:num rb:arr", w + "return w.relaxed_risk_parity_portfolio(lambda_reg=lam, return_target=t, risk_budgets=rb)"))
        a(S("w_rrpf_" + nm, dp + " n:int mm:num lam:num inc:bool rb:arr", w + "return w.relaxed_risk_parity_frontier(n, mm, lambda_reg=lam, include_risk_parity=inc, risk_budgets=rb)"))
        a(S("w_rrpl_" + nm, dp + " tms:arr lam:num", w + "return w.relaxed_risk_parity_frontier(lambda_reg=lam, target_multipliers=tms)"))
    C = "iw:arr mic:arr pc:arr"
    TC = "TransactionCosts(initial_weights=iw, market_impact_costs=mic, proportional_costs=pc)"
    for route, pre, kw in (("w", "w = PortfolioWrapper(%s, costs=%s)\n", ""), ("c", "w = PortfolioWrapper(%s)\n", ", costs=%s" % TC)):
        def w(d):
            return pre % ((d, TC) if route == "w" else d)
        a(S("cost%s_var" % route, MOM + " n:int " + C, w(DM) + "return w.variance_frontier(n%s)" % kw))
        a(S("cost%s_minv" % route, MOM + " t:num " + C, w(DM) + "return w.min_variance_at_return(t%s)" % kw))
        a(S("cost%s_cvar" % route, SCN + " n:int " + C, w(DS) + "return w.cvar_frontier(n%s)" % kw))
        a(S("cost%s_minc" % route, SCN + " t:num " + C, w(DS) + "return w.min_cvar_at_return(t%s)" % kw))
        a(S("cost%s_rob" % route, MOM + " n:int " + C, w(DM) + "return w.robust_lambda_frontier(n%s)" % kw))
        a(S("cost%s_gam" % route, MOM + " gm:num gs:num " + C, w(DM) + "return w.solve_robust_gamma_portfolio(gm, gs%s)" % kw))
    for nm, ctor, cp in (("from_moments", "from_moments(mu, cov)", MOM), ("from_moments_log", "from_moments(mu, cov, return_type='log')", MOM), ("from_scenarios", "from_scenarios(R, probabilities=p)", SCN),
                         ("from_scenarios_log", "from_scenarios(R, probabilities=p, return_type='log')", SCN), ("from_robust_posterior", "from_robust_posterior(post, annualization_factor=af)", "post:any af:num"), ("from_prices", "from_prices(X)", "X:df"),
                         ("from_invariants", "from_invariants(X, horizon=hz, n_simulations=ns, p=p, reprice=rp, seed=seed)", "X:df hz:int ns:int p:arr rp:fn seed:int"),
                         ("from_invariants_arr", "from_invariants(X, horizon=hz, n_simulations=ns, p=p, seed=seed)", "X:arr hz:int ns:int p:arr seed:int"),
                         ("from_invariants_dict", "from_invariants(X, horizon=hz, n_simulations=ns, p=p, reprice={'a': rp}, seed=seed)", "X:df hz:int ns:int p:arr rp:fn seed:int")):
        a(S("k_" + nm, cp, "w = PortfolioWrapper.%s\nreturn w.variance_frontier()" % ctor))
        if nm == "from_robust_posterior":
            a(S("k_rob_" + nm, cp, "w = PortfolioWrapper.%s\nreturn w.robust_lambda_frontier()" % ctor))
            a(S("k_gam_" + nm, cp + " gm:num gs:num", "w = PortfolioWrapper.%s\nreturn w.solve_robust_gamma_portfolio(gm, gs)" % ctor))
    # Bayesian updating
    for nm, g in (("mu", "get_mu_ce()"), ("smu", "get_S_mu()"), ("sig", "get_sigma_ce()"), ("rmu", "cred_radius_mu(q)"), ("rsig", "cred_radius_sigma_factor(q)")):
        a(S("niw_" + nm, "pm:arr ps:arr t0:int nu0:int sm:arr ss:arr n:int q:num", "o = NIWPosterior(pm, ps, t0, nu0)\no.update(sm, ss, n)\nreturn o.%s" % g))
    for nm, g in (("unc", "mean_uncertainty_cov_log(annualization_factor=af)"), ("sig1", "sigma1"), ("rmu", "cred_radius_mu(q)"), ("rsig", "cred_radius_sigma_factor(q)"), ("simp", "mean_uncertainty_cov_simple(annualization_factor=af, exact=False)"), ("simpx", "mean_uncertainty_cov_simple(annualization_factor=af, exact=True)")):
        a(S("rbp_" + nm, "pm:arr ps:arr t0:int nu0:int sm:arr ss:arr n:int q:num af:num", "o = RobustBayesPosterior.from_niw(prior_mu=pm, prior_sigma=ps, t0=t0, nu0=nu0, sample_mu=sm, sample_sigma=ss, n_obs=n)\nreturn o.%s" % g))
    # Black-Litterman
    for nm, kw, ps in (("mean_idz", "prior_mean=pm, mean_views={0: v}, view_confidences=c, omega='idzorek'", "pm:arr v:num c:num"),
                       ("pi_idz", "pi=pm, mean_views={0: v}, view_confidences=c, omega='idzorek', idzorek_use_tau=iu", "pm:arr v:num c:num iu:bool"),
                       ("mkt_om", "market_weights=mw, risk_aversion=ra, mean_views={0: v, 1: v2}, omega=om", "mw:arr ra:pos v:num v2:num om:arr"),
                       ("mkt_def", "market_weights=mw, risk_aversion=ra, mean_views={0: v}", "mw:arr ra:pos v:num"),
                       ("rel", "pi=pm, mean_views={(0, 1): v}", "pm:arr v:num")):
        a(S("bl_" + nm, "cov:arr tau:pos " + ps, "return BlackLittermanProcessor(prior_cov=cov, tau=tau, %s).get_posterior()" % kw))
    # closures
    a(S("lin_map", "ms:arr sc:num mx:arr X:arr", "return linear_map(mean_shift=ms, scale=sc, matrix=mx)(X)"))
    a(S("lin_stress", "ms:arr sc:num mx:arr X:arr w:arr p:arr q:num", "return stress_test(w, X, probabilities=p, transform=linear_map(mean_shift=ms, scale=sc, matrix=mx), confidence=q)"))
    a(S("mk_reprice", "f:fn cur:arr X:arr", "return make_repricing_fn(f, cur)(X)"))
    a(S("mk_project", "f:fn X:arr hz:int p:arr ns:int seed:int", "return project_scenarios(X, investment_horizon=hz, p=p, n_simulations=ns, reprice=f, seed=seed)"))
    a(S("compose", "f:fn g:fn X:arr", "r, n = compose_repricers({'a': f, 'b': g}, ['a', 'b'])\nreturn r(X)"))
    # ensembles
    sel = "o = make_portfolio_spec('x', %s)\nf = o.frontier_factory()\nreturn f, o.selector(f)"
    a(S("spec_returns", "X:df p:arr pre:fn af:num", sel % "returns=X, probabilities=p, preprocess=pre, projection={'annualization_factor': af}"))
    a(S("spec_scen", "X:df p:arr", sel % "returns=X, probabilities=p, use_scenarios=True, optimiser='cvar', optimiser_kwargs={'num_portfolios': 7}"))
    a(S("spec_tf", "X:df tf:fn", sel % "returns=X, projection={'transform': tf}"))
    a(S("spec_dist", MOM + " n:int", sel % ("distribution=%s, optimiser_kwargs={'num_portfolios': n}, selector='max_return'" % DM)))
    a(S("spec_fac", MOM + " rf:num", sel % ("distribution_factory=lambda: %s, selector='tangency', selector_kwargs={'risk_free_rate': rf}" % DM)))
    a(S("spec_cvar", SCN + " n:int alpha:num", sel % ("distribution=%s, optimiser='cvar', optimiser_kwargs={'num_portfolios': n, 'alpha': alpha}, selector='min_risk'" % DS)))
    a(S("spec_rt", MOM + " mr:num", sel % ("distribution=%s, selector='risk_target', selector_kwargs={'max_risk': mr}" % DM)))
    a(S("spec_rm", MOM + " mr:num", sel % ("distribution=%s, selector='risk_match', selector_kwargs={'target_risk': mr}" % DM)))
    a(S("spec_rp", MOM + " q:num", sel % ("distribution=%s, selector='risk_percentile', selector_kwargs={'percentile': q}" % DM)))
    a(S("spec_col", MOM + " j:int", sel % ("distribution=%s, selector='column', selector_kwargs={'index': j}" % DM)))
    a(S("spec_rrp", MOM + " n:int lam:num", sel % ("distribution=%s, optimiser='rrp', optimiser_kwargs={'num_portfolios': n, 'lambda_reg': lam}, selector='max_return'" % DM)))
    a(S("spec_rob", MOM + " n:int lam:num", sel % ("distribution=%s, optimiser='robust', optimiser_kwargs={'num_portfolios': n, 'max_lambda': lam}, selector='max_return'" % DM)))
    return o


def components(r):
    """{component path: (may over all results, must over all results)}; private attributes are implementation details and left out"""
    I = r.I
    acc = {}

    def put(path, v, st):
        a, b = I.deep(v, st)
        acc[path] = (acc[path][0] | a, acc[path][1] & b) if path in acc else (a, b)

    def walk(path, v, st, seen, depth):
        if v.is_("None"):
            return
        put(path, v, st)
        if depth >= MAXDEPTH:
            return
        if v.seq is not None:
            for i, x in enumerate(v.seq):
                walk("%s[%d]" % (path, i), x, st, seen, depth + 1)
        for rid, o in I.objs(st, v):
            if rid in seen:
                continue
            for k, x in (o.attrs or {}).items():
                if not k.startswith("_"):
                    walk("%s.%s" % (path, k), x, st, seen | {rid}, depth + 1)
            for k, x in (o.keys or {}).items():
                walk("%s[%r]" % (path, k[1] if isinstance(k, tuple) and len(k) == 2 else k), x, st, seen | {rid}, depth + 1)
            if o.seq is not None:
                for i, x in enumerate(o.seq):
                    walk("%s[%d]" % (path, i), x, st, seen | {rid}, depth + 1)
            if o.elem is not None and o.kind in ("list", "dict"):
                walk(path + "[*]", o.elem, st, seen | {rid}, depth + 1)
    for st, v in r.outs:
        walk("", v, st, frozenset(), 0)
        if r.selfv is not None:
            walk("self", r.selfv, st, frozenset(), 0)
    if r.outs:      # cells of the labelled tables and series the call builds, by label
        for ev in r.events:
            if ev["kind"] == "libcall" and ev["name"] in ("pandas.Series", "pandas.DataFrame") and ev["args"] and isinstance(ev["args"][0], V):
                for rid, o in I.objs(ev["state"], ev["args"][0]):
                    for k, x in (o.keys or {}).items():
                        if isinstance(k, str):
                            put("{%s}" % k, x, ev["state"])
            elif ev["kind"] == "fkey":
                put("{%s}" % ev["pattern"], ev["value"], ev["state"])
    return acc


def all_given(f, c, give):
    """arguments in the caller's regions; give: every parameter supplied (never None)"""
    def mk(st, I):
        sv, args, kw = drive.gargs(f, c, st, I.P)
        kinds = {a.arg: drive.ann_types(a, d) for a, d, k in drive.params(f)}
        for n in list(kw) if give else ():
            t = kinds.get(n)
            kw[n] = src(n, ty=t - {"None"}) if t and t - {"None"} else kw[n].but(nty=kw[n].nty | {"None"})
        return sv, args, kw
    return mk


START = {"relaxed_risk_parity_frontier": 2, "w_rrpf_m": 2, "w_rrpf_s": 2, "spec_rrp": 1}      # precision levels known not to terminate within budget are not tried


def measure(P, f, mk, start=0):
    keep = {}

    def mk2(st, I):
        sv, args, kw = mk(st, I)
        keep["self"] = sv if f.name in ("__init__", "__post_init__") else None
        return sv, args, kw
    r = run_entry(P, f, mk2, start)
    r.selfv = keep.get("self")
    return components(r), set(r.I.choice), r


def wanted(label, c, f, params, P):
    """the sources obligations are about: parameters, and the declared fields of the object a method is called on"""
    s = set(params)
    if c is not None and f.name not in ("__init__",) and not (set(f.decos) & {"classmethod", "staticmethod"}):
        s |= {"self." + n for n, a, d, k in P.dc_fields(c) if not n.startswith("_")}
    return s


def skip(label, c, f, P):
    """methods of objects with hidden state are covered by the client programs instead"""
    if label == "FlexibleViewsProcessor.__init__":
        return True      # decided view by view in P10
    return c is not None and f.name not in ("__init__", "__post_init__") and not P.dc_fields(c) and not (set(f.decos) & {"classmethod", "staticmethod"})


def job(P, it):
    """{label, comps: {path: (may, must)}, choice, ...} for a public function or a client program"""
    if it[0] == "scen":
        _, name, text = it
        f = scen.load(P, PRE + text.replace("NAME", name, 1), "_p12_" + name)[name]
        label, c = "program " + name, None
        comps, choice, r = measure(P, f, scen.make(f), START.get(name, 0))
    else:
        label, f, c = it
        comps, choice, r = measure(P, f, all_given(f, c, True))
    ps = [a.arg for a, _, k in drive.params(f) if a.arg not in ("self", "cls")]
    w = wanted(label, c, f, ps, P)
    comps = {k: (a & w, b & w) for k, (a, b) in comps.items()}
    whole = set().union(*[a for a, b in comps.values()] or [set()])
    if it[0] != "scen" and (set(ps) - whole - choice or not r.outs):
        c2, ch2, r2 = measure(P, f, all_given(f, c, False))      # parameters that exclude one another: leave any of them out
        for k, (a, b) in c2.items():
            comps[k] = ((comps[k][0] | (a & w)), comps[k][1]) if k in comps else (a & w, set())
        choice |= ch2
        r.outs = r.outs or r2.outs
    return {"label": label, "params": ps, "comps": comps, "choice": sorted(choice & w), "outs": len(r.outs), "file": f.mod.path, "fn": f.full, "line": f.node.lineno, "level": r.level,
            "source": None if it[0] == "scen" else f.full, "visited": sorted(r.I.visited) if hasattr(r.I, "visited") else []}


def items(P):
    its = [("scen", n, t) for n, t in scenarios()] + [(l, f, c) for l, f, c in all_entries(P) if not skip(l, c, f, P)]
    return its


def run(P, tier):
    spec = json.load(open(SPEC))
    R = pmap(P, job, items(P))
    fs = []
    n = {"entries_and_programs": len(R), "components": 0, "obligations_component": 0, "obligations_result": 0, "without_result": 0, "labels_gone": 0}
    seen = {d["label"] for d in R}
    n["labels_gone"] = len(set(spec) - seen)
    vis = set()
    for d in R:
        vis |= set(d["visited"])
        sp = spec.get(d["label"])
        if sp is None:
            continue
        if not d["outs"]:
            n["without_result"] += 1
            continue
        whole = set().union(*[a for a, b in d["comps"].values()] or [set()])
        cons = "%s" % d["label"]
        n["components"] += len(d["comps"])
        where = rel(P, d["file"])
        for p in sp["data"]:
            if p not in d["params"] and not p.startswith("self."):
                continue
            n["obligations_result"] += 1
            if p not in whole and p not in d["choice"]:
                fs.append(Finding("argument-without-effect", cons, "no value or choice in the result of %s depends on `%s`" % (d["label"], p), d["line"], (d["fn"],), where))
        for p in sp["choice"]:
            if p not in d["params"] and not p.startswith("self."):
                continue
            n["obligations_result"] += 1
            if p not in whole and p not in d["choice"]:
                fs.append(Finding("argument-without-effect", cons, "`%s` is never consulted by a decision of %s" % (p, d["label"]), d["line"], (d["fn"],), where))
        for k, req in sp["comps"].items():
            if k not in d["comps"]:
                continue
            may = d["comps"][k][0]
            for p in req:
                if p not in d["params"] and not p.startswith("self."):
                    continue
                n["obligations_component"] += 1
                if p not in may and p in whole | set(d["choice"]):
                    fs.append(Finding("argument-missing-from-part", cons, "result%s of %s does not depend on `%s`" % (k or "", d["label"], p), d["line"], (d["fn"],), where))
    if n["obligations_result"] < 250:
        raise AnalysisBroken("only %d argument obligations could be checked (expected at least 250)" % n["obligations_result"])
    cov = dict(n)
    cov["functions_interpreted"] = len(vis)
    cov["explanation"] = ("every public function and %d client programs (constructor + method chains) interpreted with every argument symbolic; for every component of the result the set of arguments "
                          "it depends on (data flow through values, containers, solver problems and closures; choices = conditions both of whose sides continue) is compared with the reviewed obligations in specs/args.json") % len(scenarios())
    return fs, cov


def build():
    P = Project()
    R = pmap(P, job, items(P))
    out = {}
    for d in R:
        whole = set().union(*[a for a, b in d["comps"].values()] or [set()])
        comps = {}
        prog = d["label"].startswith("program")
        for k, (a, b) in d["comps"].items():
            req = sorted(a if (prog or k.startswith("{")) and d["level"] == 0 else b)
            if req and k and "asset_names" not in k:
                comps[k] = req
        out[d["label"]] = {"data": sorted(whole), "choice": sorted(x for x in set(d["choice"]) - whole if not prog or x in ("iu", "inc", "n")), "comps": comps}
        miss = set(d["params"]) - whole - set(d["choice"])
        if miss or not d["outs"]:
            print("%s: outs=%d level=%d no effect: %s" % (d["label"], d["outs"], d["level"], sorted(miss)))
    return out


if __name__ == "__main__":
    o = build()
    txt = "{\n" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(v)) for k, v in sorted(o.items())) + "\n}\n"
    if "--write" in sys.argv:
        open(SPEC, "w").write(txt)
    else:
        print(txt)
