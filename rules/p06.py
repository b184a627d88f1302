"""P06: labels are matched, never positions.  Client programs whose labelled inputs each carry a label order of their own are interpreted; every
value carries the label orders of its axes, and combining values position by position whose orders are not known to be equal is a violation."""
from .common import *
from sa.values import *
from sa import scen
from sa.lib import aligned
from .p12 import S, PRE as PRE0

PRE = PRE0 + '''
from pyvallocation.utils.performance import performance_report, scenario_pnl, horizon_report, drawdown_quantile
from pyvallocation.discrete_allocation import discretize_weights, allocate_greedy, allocate_mip, DiscreteAllocationInput
from pyvallocation.ensembles import average_exposures, exposure_stacking, stack_portfolios, average_frontiers, exposure_stack_frontiers
from pyvallocation.utils.weights import normalize_weights, ensure_samples_matrix
from pyvallocation.utils.projection import project_mean_covariance, log2simple, simple2log, convert_scenarios_compound_to_simple, convert_scenarios_simple_to_compound
from pyvallocation import moments as M
from pyvallocation.utils import functions as F
from pyvallocation.stress import exp_decay_stress, kernel_focus_stress, entropy_pooling_stress
'''


def programs():
    """(name, text, classes of labels the result must still carry)"""
    o = []

    def a(name, params, body, out=""):
        o.append((name,) + (S(name, params, body)[1].replace("NAME", name, 1), out))
    # weights against scenarios
    for nm, w in (("s", "series"), ("d", "dict"), ("w", "wdf")):
        a("stress_" + nm, "w:%s@w R:df@R" % w, "return stress_test(w, R)")
        a("stress_p_" + nm, "w:%s@w R:df@R p:arr q:arr f:fn" % w, "return stress_test(w, R, probabilities=p, stressed_probabilities=q, transform=f)")
        a("inv_" + nm, "w:%s@w R:df@R" % w, "return stress_invariants(R, w, reprice_exp)")
        a("inv_v_" + nm, "w:%s@w R:df@R v:num" % w, "return stress_invariants(R, w, reprice_exp, stress_views={'a': v})")
        a("decay_" + nm, "w:%s@w R:df@R" % w, "return exp_decay_stress(w, R, half_life=5)")
        a("focus_" + nm, "w:%s@w R:df@R x:arr" % w, "return kernel_focus_stress(w, R, focus_series=x)")
        a("ep_" + nm, "w:%s@w R:df@R q:arr" % w, "return entropy_pooling_stress(w, R, posterior_probabilities=q)")
    a("pnl_d", "w:dict@w R:df@R", "return scenario_pnl(w, R)")
    for nm, w in (("s", "series"), ("w", "wdf")):
        a("pnl_" + nm, "w:%s@w R:df@R" % w, "return scenario_pnl(w, R)")
        a("var_" + nm, "w:%s@w R:df@R p:arr" % w, "return F.portfolio_var(w, R, p), F.portfolio_cvar(w, R, p, demean=True)")
        a("vol_" + nm, "w:%s@w cov:cov@c" % w, "return F.portfolio_variance(w, cov), F.portfolio_volatility(w, cov)")
        a("report_" + nm, "w:%s@w R:df@R" % w, "return performance_report(w, R)")
        a("horizon_" + nm, "w:%s@w R:df@R" % w, "return horizon_report(w, R)")
        a("dd_" + nm, "w:%s@w R:df@R" % w, "return drawdown_quantile(w, R, 5)")
    # distributions and optimisers
    M2 = "mu:series@m cov:cov@c"
    for nm, call, ps in (("var", "variance_frontier(5)", ""), ("cvar", "cvar_frontier(5)", ""), ("minv", "min_variance_at_return(t)", " t:num"), ("minc", "min_cvar_at_return(t)", " t:num"), ("rob", "robust_lambda_frontier(5)", ""),
                         ("rrp", "relaxed_risk_parity_portfolio(target_multiplier=t)", " t:num"), ("gam", "solve_robust_gamma_portfolio(g, h)", " g:num h:num"), ("rrpf", "relaxed_risk_parity_frontier(4)", "")):
        single = nm in ("minv", "minc", "rrp", "gam")
        tail = "x = w.%s\n" % call
        for src, ctor, cp in (("m", "from_moments(mu, cov)", M2), ("s", "from_scenarios(R)", "R:df@R"), ("sp", "from_scenarios(R, probabilities=p)", "R:df@R p:arr")):
            if src == "sp" and nm not in ("cvar", "minc"):
                continue
            a("w_%s_%s" % (nm, src), cp + ps, "w = PortfolioWrapper.%s\n%sreturn %s" % (ctor, tail, "x[0]" if single else "x.min_risk()[0]"), "asset")
    C = "TransactionCosts(initial_weights=iw, market_impact_costs=mic, proportional_costs=pc)"
    CP = " iw:series@iw mic:series@mic pc:series@pc"
    for nm, ctor, cp, call in (("var", "from_moments(mu, cov", M2, "variance_frontier(5"), ("cvar", "from_scenarios(R", "R:df@R", "cvar_frontier(5"), ("minv", "from_moments(mu, cov", M2, "min_variance_at_return(0.1"),
                               ("minc", "from_scenarios(R", "R:df@R", "min_cvar_at_return(0.1"), ("rob", "from_moments(mu, cov", M2, "robust_lambda_frontier(5"), ("gam", "from_moments(mu, cov", M2, "solve_robust_gamma_portfolio(0.1, 0.2")):
        a("costw_" + nm, cp + CP, "w = PortfolioWrapper.%s, costs=%s)\nreturn w.%s)" % (ctor, C, call))
        a("costc_" + nm, cp + CP, "w = PortfolioWrapper.%s)\nreturn w.%s, costs=%s)" % (ctor, call, C))
    a("prices", "X:df@X", "return PortfolioWrapper.from_prices(X).variance_frontier(5).min_risk()[0]", "asset")
    a("invariants", "X:df@X seed:int", "return PortfolioWrapper.from_invariants(X, horizon=4, reprice=reprice_exp, seed=seed).cvar_frontier(5).min_risk()[0]", "asset")
    a("posterior", "pm:series@pm ps:cov@ps sm:series@sm ss:cov@ss", "o = RobustBayesPosterior.from_niw(prior_mu=pm, prior_sigma=ps, t0=5, nu0=9, sample_mu=sm, sample_sigma=ss, n_obs=20)\nreturn PortfolioWrapper.from_robust_posterior(o).robust_lambda_frontier(4).min_risk()[0]", "asset")
    a("retcov", M2 + " rc:cov@rc", "return PortfolioWrapper.from_moments(mu, cov).robust_lambda_frontier(5, return_cov=rc)")
    a("dist", M2 + " R:df@R", "return AssetsDistribution(mu=mu, cov=cov, scenarios=R)")
    # frontier queries
    F0 = "f = PortfolioWrapper.from_moments(mu, cov).variance_frontier(5)\n"
    for nm, call in (("minr", "min_risk()[0]"), ("maxr", "max_return()[0]"), ("tan", "tangency(x)[0]"), ("atr", "at_risk(x)[0]"), ("atret", "at_return(x)[0]"), ("pct", "at_percentile(x)[0]"), ("frame", "to_frame()"), ("samples", "to_samples()"), ("closest", "closest_risk(x)[0]")):
        a("f_" + nm, M2 + " x:num", F0 + "return f." + call, "asset")
    a("f_discrete", M2 + " pr:series@pr ls:series@ls", F0 + "return f.as_discrete_allocation(0, latest_prices=pr, total_value=100.0, lot_sizes=ls)")
    # ensembles
    a("avg", "w:wdf@w s:sser@s", "return average_exposures(w, s)", "asset")
    a("avg0", "w:wdf@w", "return average_exposures(w)", "asset")
    a("stk", "w:wdf@w", "return exposure_stacking(w, L=2)", "asset")
    a("mix", "a:series@a b:series@b c:wdf@c", "return stack_portfolios([a, b, c], L=2)", "asset")
    FF = "f = PortfolioWrapper.from_moments(mu, cov).variance_frontier(5)\ng = PortfolioWrapper.from_moments(m2, c2).variance_frontier(5)\n"
    FP = M2 + " m2:series@m2 c2:cov@c2"
    a("avgf", FP, FF + "return average_frontiers([f, g])", "asset")
    a("stkf", FP, FF + "return exposure_stack_frontiers([f, g], 2)", "asset")
    SP = "s = make_portfolio_spec('x', distribution=AssetsDistribution(mu=mu, cov=cov))\nt = make_portfolio_spec('y', distribution=AssetsDistribution(mu=m2, cov=c2))\n"
    a("ens_sel", FP, SP + "return assemble_portfolio_ensemble([s, t], ensemble='average').average", "asset")
    a("ens_fro", FP, SP + "return assemble_portfolio_ensemble([s, t], ensemble='average', combine='frontier').average", "asset")
    a("spec_p", "X:df@X p:pser@p", "o = make_portfolio_spec('x', returns=X, probabilities=p)\nf = o.frontier_factory()\nreturn o.selector(f)", "asset")
    a("spec_ps", "X:df@X p:pser@p", "o = make_portfolio_spec('x', returns=X, probabilities=p, use_scenarios=True, optimiser='cvar')\nf = o.frontier_factory()\nreturn o.selector(f)", "asset")
    # views and Bayesian updating
    for nm, kw, ps in (("mean", "prior_mean=mu", "mu:series@m"), ("pi", "pi=mu", "mu:series@m"), ("mkt", "market_weights=mu, risk_aversion=2.5", "mu:series@m"), ("both", "market_weights=mw, risk_aversion=2.5, prior_mean=mu", "mu:series@m mw:series@mw")):
        a("bl_" + nm, ps + " cov:cov@c v:num", "return BlackLittermanProcessor(prior_cov=cov, %s, mean_views={0: v}).get_posterior()" % kw)
    a("fv_mom", M2 + " v:num", "o = FlexibleViewsProcessor(prior_mean=mu, prior_cov=cov, mean_views={0: v}, num_scenarios=100, random_state=1)\nreturn o.get_posterior()")
    a("fv_scn", "R:df@R v:num", "o = FlexibleViewsProcessor(prior_risk_drivers=R, mean_views={0: v})\nreturn o.get_posterior()")
    a("fv_vals", "R:df@R v:dict@v", "o = FlexibleViewsProcessor(prior_risk_drivers=R, mean_views=v)\nreturn o.get_posterior()")
    a("niw", "mu:series@m cov:cov@c sm:series@s sc:cov@t", "o = NIWPosterior(mu, cov, 5, 7)\no.update(sm, sc, 9)\nreturn o.get_mu_ce(), o.get_sigma_ce(), o.get_S_mu()")
    a("niw1", "mu:series@m cov:cov@c sm:series@s sc:cov@t", "o = NIWPosterior(mu, cov, 5, 7)\no.update(sm, sc, 9)\nreturn o.get_mu_ce()", "asset")
    a("rbp", "pm:series@pm ps:cov@ps sm:series@sm ss:cov@ss", "o = RobustBayesPosterior.from_niw(prior_mu=pm, prior_sigma=ps, t0=5, nu0=9, sample_mu=sm, sample_sigma=ss, n_obs=20)\nreturn o.mean_uncertainty_cov_simple(), o.mean_uncertainty_cov_log(), o.sigma1")
    SQ = "mu:series@m cov:sq@c"
    a("sq_dist", SQ, "return AssetsDistribution(mu=mu, cov=cov)")
    a("sq_dist0", "mu:arr cov:sq@c", "return AssetsDistribution(mu=mu, cov=cov)")
    a("sq_mom", SQ, "return PortfolioWrapper.from_moments(mu, cov)")
    a("sq_rob", SQ + " rc:sq@rc", "return PortfolioWrapper.from_moments(mu, cov).robust_lambda_frontier(5, return_cov=rc)")
    # estimators
    a("est", "R:df@R p:arr", "return M.estimate_sample_moments(R, p)[0]", "asset")
    a("est2", "R:df@R p:arr", "return M.estimate_sample_moments(R, p)[1]", "asset")
    a("jor", M2, "return M.shrink_mean_jorion(mu, cov, 60)", "asset")
    a("jst", M2, "return M.shrink_mean_james_stein(mu, cov, 60)", "asset")
    a("lw", "R:df@R S:cov@S", "return M.shrink_covariance_ledoit_wolf(R, S)", "asset")
    for fn, args in (("shrink_covariance_oas", "R"), ("shrink_covariance_nls", "R"), ("factor_covariance_poet", "R, k=2"), ("robust_covariance_tyler", "R"), ("covariance_ewma", "R, span=20"), ("robust_mean_huber", "R"), ("robust_mean_median_of_means", "R")):
        a("e_" + fn, "R:df@R", "return M.%s(%s)" % (fn, args), "asset")
    for me in ("sample", "jorion", "james_stein", "huber", "median_of_means"):
        a("em_" + me, "R:df@R", "return M.estimate_moments(R, mean_estimator=%r)[0]" % me, "asset")
    for ce in ("sample", "ledoit_wolf", "oas", "nls", "poet", "tyler", "ewma"):
        a("ec_" + ce, "R:df@R", "return M.estimate_moments(R, cov_estimator=%r)[1]" % ce, "asset")
    # projection
    a("proj", M2, "return project_mean_covariance(mu, cov, 12)[0]", "asset")
    a("l2s", M2, "return log2simple(mu, cov)[0]", "asset")
    a("s2l", M2, "return simple2log(mu, cov)[1]", "asset")
    a("simul", "R:df@R p:arr", "return project_scenarios(R, investment_horizon=3, p=p, seed=1)", "asset")
    a("c2s", "R:df@R", "return convert_scenarios_compound_to_simple(R)", "asset")
    # discrete allocation
    for m in ("greedy", "milp"):
        a("disc_" + m, "w:series@w p:series@p ls:series@l", "return discretize_weights(w, p, 100.0, lot_sizes=ls, method=%r)" % m)
        a("discd_" + m, "w:dict@w p:dict@p ls:dict@l", "return discretize_weights(w, p, 100.0, lot_sizes=ls, method=%r)" % m)
    return o


def job(P, it):
    name, text, out = it
    f = scen.load(P, PRE + text, "_p06_" + name)[name]
    r = run_entry(P, f, scen.make(f), opts={"client": True})
    fs = []
    for ev in r.events:
        if ev["kind"] != "misalign" or ev["cls"] not in CLS:
            continue
        if r.outs and all(aligned(st, set(ev["a"]), set(ev["b"])) for st, v in r.outs):
            continue        # the result is only returned when the orders were found equal
        fs.append(finding(P, "labels-by-position", ev, "%s: values whose %s labels follow %s are combined (%s) position by position with values that follow %s"
                          % (name, KIND[ev["cls"]], origin(ev["a"]), ev["op"], origin(ev["b"])), name))
    I = r.I
    for ev in r.events:
        if ev["kind"] == "square" and r.outs and not all(aligned(st, set(ev["rows"]), {ev["cols"]}) for st, v in r.outs):
            fs.append(finding(P, "columns-by-position", ev, "%s: a labelled covariance is used as a plain array although its columns may follow another order than its rows" % name, name))
    for ev in r.events:
        if ev["kind"] != "reindex" or ev["fill"] or not r.outs:
            continue
        old, new = (frozenset(x.split("#")[0] for x in ev[k] if x.split(":")[0] in CLS) for k in ("old", "new"))
        if not new:
            continue
        c = {x.split(":")[0] for x in new}
        old = frozenset(x for x in old if x.split(":")[0] in c)
        if not old or old & new or any(vid == ev["vid"] or may & ev["may"] and ax & ev["new"] for vid, may, ax in I.nanchk):
            continue
        if any((a & old and b & new) or (a & new and b & old) for a, b in I.labchk):
            continue
        fs.append(finding(P, "reindex-leaves-gaps", ev, "%s: labels are rearranged from %s to %s without a check that none is missing: an unmatched label silently becomes NaN" % (name, origin(old), origin(new)), name))
    if out and r.outs:
        for st, v in r.outs:
            if v.ty is not None and not v.ty & {"Series", "DataFrame", "obj", "other", "None"}:
                fs.append(Finding("labels-dropped", rel(P, f.mod.path) + ":" + name, "program %s: labelled inputs give an unlabelled result (%s)" % (name, "/".join(sorted(v.ty))), 0, (name,), text.strip()))
    return {"name": name, "f": fs, "outs": len(r.outs), "combined": sum(ev["kind"] == "alignchk" for ev in r.events), "reindex": sum(ev["kind"] == "reindex" for ev in r.events),
            "visited": sorted(getattr(r.I, "visited", [])), "level": r.level}


CLS = ("asset", "port", "scen")
KIND = {"asset": "asset", "port": "portfolio", "scen": "scenario"}


def origin(l):
    return " / ".join("`%s`%s" % (x.split(":", 1)[1].split("#")[0], " after sorting" if "#" in x else "") for x in l)


def run(P, tier):
    its = programs()
    R = pmap(P, job, its)
    fs, vis = [], set()
    for d in R:
        fs += d["f"]
        vis |= set(d["visited"])
    n = sum(d["combined"] for d in R)
    done = sum(d["outs"] > 0 for d in R)
    if done < len(its) // 2:
        raise AnalysisBroken("only %d of %d label programs return" % (done, len(its)))
    return fs, {"label_programs": len(its), "programs_returning": done, "label_sensitive_operations": n, "reindex_operations": sum(d["reindex"] for d in R), "functions_interpreted": len(vis),
                "explanation": "%d client programs whose labelled inputs each follow a label order of their own are interpreted on every path; each arithmetic, stacking, labelling, selection and zip of two ordered values is checked: their orders are the same, were compared equal on the path (or are before the result is returned), or one was rearranged to the other through its labels" % len(its),
                "assumptions": ["labelled inputs of one call hold the same labels in different orders", "unlabelled arrays follow the documented positional order"]}
