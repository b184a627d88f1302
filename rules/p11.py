"""P11: moments, conversions and risk numbers follow their documented formulas (entry by entry, in index notation)."""
import re
import time
from .common import *
from sa import scen
from sa.index import SECONDS, Index, show, term
from sa.terms import Poly, atom, k
from sa.blocks import ONE as D1

N_, T_, M_ = atom("N"), atom("T"), atom("M")
SHAPES = {"mu": ("N",), "m0": ("N",), "m1": ("N",), "d": ("N",), "x": ("T",), "S": ("N", "N"), "Z": ("N", "N"), "S0": ("N", "N"), "S1": ("N", "N"), "R": ("T", "N"), "Y": ("T", "N"), "w": ("N",), "W": ("N", "M"), "p": ("T",), "q": ("T",), "u": ("N",), "E": ("M",), "K": ("T", "M"),
          "f": (), "a": (), "h": (), "t0": (), "n0": (), "n": (), "c": (), "v": (), "y0": ("N",), "th": ("N",), "de": ("N",), "ga": ("N",), "tau": (), "B": ("M", "N")}
DIMS = {"N": (N_,), "NM": (N_, M_), "M": (M_,), "T": (T_,), "TM": (T_, M_), "TN": (T_, N_), "NN": (N_, N_), "": ()}

PRE = """
import numpy as np
import pandas as pd
from pyvallocation.utils.projection import log2simple, simple2log, project_mean_covariance, convert_scenarios_compound_to_simple, convert_scenarios_simple_to_compound, reprice_exp, reprice_taylor, make_repricing_fn, compose_repricers
from pyvallocation.utils.functions import portfolio_variance, portfolio_volatility, portfolio_cvar, portfolio_var
from pyvallocation.utils.performance import performance_report, scenario_pnl
from pyvallocation.utils.weights import normalize_weights
from pyvallocation.utils.validation import ensure_psd_matrix
from pyvallocation.bayesian import NIWPosterior, RobustBayesPosterior, chi2_quantile
from pyvallocation.moments import estimate_sample_moments, shrink_mean_jorion, shrink_mean_james_stein, covariance_ewma, shrink_covariance_oas
from pyvallocation.probabilities import silverman_bandwidth, generate_uniform_probabilities, generate_exp_decay_probabilities, generate_gaussian_kernel_probabilities, compute_effective_number_scenarios, compute_effective_number_scenarios_hhi
from pyvallocation.ensembles import average_exposures
from pyvallocation.discrete_allocation import discretize_weights
from pyvallocation.stress import linear_map, stress_test, exp_decay_stress, kernel_focus_stress, entropy_pooling_stress
from pyvallocation.portfolioapi import AssetsDistribution, PortfolioWrapper
from pyvallocation.views import BlackLittermanProcessor
"""

# (name, what it is about, parameters, body returning alternately the result and its formula, shapes of opaque leading results)
def programs():
    out = []

    def add(name, cls, text, hint=()):
        out.append((name, cls, text, hint))

    for mk, sk in (("arr", "arr"), ("series", "df")):
        z = "" if mk == "arr" else "_labels"
        add("log2simple" + z, "log2simple", 'def NAME(mu: "%s", S: "%s"):\n    m, C = log2simple(mu, S)\n    e = np.exp(np.asarray(mu) + np.diag(np.asarray(S)) / 2)\n    return m, e - 1, C, np.outer(e, e) * (np.exp(np.asarray(S)) - 1)' % (mk, sk))
        add("simple2log" + z, "simple2log", 'def NAME(mu: "%s", S: "%s"):\n    m, C = simple2log(mu, S)\n    g = 1 + np.asarray(mu)\n    L = np.log(1 + np.asarray(S) / np.outer(g, g))\n    return m, np.log(g) - np.diag(L) / 2, C, L' % (mk, sk))
        add("project" + z, "project_mean_covariance", 'def NAME(mu: "%s", S: "%s", f: "num"):\n    m, C = project_mean_covariance(mu, S, f)\n    return m, f * np.asarray(mu), C, f * np.asarray(S)' % (mk, sk))
        add("variance" + z, "portfolio_variance", 'def NAME(w: "%s", S: "%s"):\n    return portfolio_variance(w, S), np.asarray(w) @ np.asarray(S) @ np.asarray(w)' % (mk, sk))
        add("volatility" + z, "portfolio_volatility", 'def NAME(w: "%s", S: "%s"):\n    return portfolio_volatility(w, S), np.sqrt(np.asarray(w) @ np.asarray(S) @ np.asarray(w))' % (mk, sk))
    add("variances", "portfolio_variance", 'def NAME(W: "arr", S: "arr"):\n    return portfolio_variance(W, S), np.einsum("im,ij,jm->m", W, S, W)')
    add("volatilities", "portfolio_volatility", 'def NAME(W: "arr", S: "arr"):\n    return portfolio_volatility(W, S), np.sqrt(np.einsum("im,ij,jm->m", W, S, W))')
    for mk in ("arr", "df"):
        z = "" if mk == "arr" else "_labels"
        add("to_simple" + z, "convert_scenarios_compound_to_simple", 'def NAME(R: "%s"):\n    return convert_scenarios_compound_to_simple(R), np.exp(np.asarray(R)) - 1' % mk)
        add("to_compound" + z, "convert_scenarios_simple_to_compound", 'def NAME(R: "%s"):\n    return convert_scenarios_simple_to_compound(R), np.log(1 + np.asarray(R))' % mk)
        add("there_and_back" + z, "convert_scenarios_simple_to_compound", 'def NAME(R: "%s"):\n    return convert_scenarios_compound_to_simple(convert_scenarios_simple_to_compound(R)), np.asarray(R)' % mk)
        add("exp_pricing" + z, "reprice_exp", 'def NAME(Y: "%s"):\n    return reprice_exp(Y), np.exp(np.asarray(Y)) - 1' % mk)
    add("taylor", "reprice_taylor", 'def NAME(Y: "arr", th: "arr", de: "arr", ga: "arr", tau: "pos"):\n    return reprice_taylor(Y, theta=th, delta=de, gamma=ga, tau=tau), th * tau + de * Y + ga * Y * Y / 2, reprice_taylor(Y, delta=de), de * Y, reprice_taylor(Y, gamma=ga), ga * Y ** 2 / 2, reprice_taylor(Y, theta=th, tau=tau) + Y, Y + tau * th')
    add("full_pricing", "make_repricing_fn", 'def NAME(Y: "arr", y0: "arr", c: "num"):\n    g = make_repricing_fn(lambda y: np.exp(-c * y), y0)\n    return g(Y), np.exp(-c * (y0 + Y)) - np.exp(-c * y0)')
    add("mixed_pricing", "compose_repricers", 'def NAME(Y: "arr", c: "num"):\n    g, names = compose_repricers({"x": lambda y: np.exp(y) - 1, "z": ("x", lambda y: c * y), "y": lambda y: y * y}, ["y", "x"])\n    r = g(Y)\n    return r[:, 0], np.exp(Y[:, 1]) - 1, r[:, 1], c * Y[:, 1], r[:, 2], Y[:, 0] ** 2')
    # ---------------------------------------------------------------- tail risk: the shortfall at the reported quantile
    for q, pa in (("", "p"), ("_uniform", "None")):
        P_ = "p" if pa == "p" else "np.full(R.shape[0], 1 / R.shape[0])"
        for d in (False, True):
            z = q + ("_demeaned" if d else "")
            for w, x in (("w", "(R @ w).reshape(-1, 1)"), ("W", "R @ W")):
                add("cvar" + ("s" if w == "W" else "") + z, "portfolio_cvar", 'def NAME(%s: "arr", R: "arr", p: "arr", a: "pos"):\n    q = %s\n    x = %s\n%s    v = -portfolio_var(%s, R, %s, a, demean=%s)\n    l = 1.0 * (x < v)\n    q = q.reshape(-1, 1)\n    return portfolio_cvar(%s, R, %s, a, demean=%s), -(np.sum(q * x * l, axis=0) + v * ((1 - a) - np.sum(q * l, axis=0))) / (1 - a)' % (w, P_, x, "    x = x - q @ x\n" if d else "", w, pa, d, w, pa, d))
            add("var" + z, "portfolio_var", 'def NAME(w: "arr", R: "arr", p: "arr", a: "pos"):\n    q = %s.reshape(-1, 1)\n    x = (R @ w).reshape(-1, 1)\n%s    o = np.argsort(x, axis=0)\n    c = np.cumsum(np.take_along_axis(q, o, axis=0), axis=0)\n    return portfolio_var(w, R, %s, a, demean=%s), -np.take_along_axis(np.take_along_axis(x, o, axis=0), (c >= 1 - a).argmax(axis=0)[np.newaxis, :], axis=0)' % (P_, "    x = x - np.sum(q * x)\n" if d else "", pa, d))
    # ---------------------------------------------------------------- sample moments and scenario probabilities
    for mk, pk in (("arr", "arr"), ("df", "arr")):
        z = "" if mk == "arr" else "_labels"
        add("sample" + z, "estimate_sample_moments", 'def NAME(R: "%s", p: "%s"):\n    m, C = estimate_sample_moments(R, p)\n    X = np.asarray(R)\n    return m, p @ X, C, np.einsum("t,ti,tj->ij", p, X, X) - np.outer(p @ X, p @ X)' % (mk, pk))
        add("report" + z, "performance_report", 'def NAME(w: "arr", R: "%s", p: "arr", a: "pos"):\n    r = performance_report(w, R, probabilities=p, confidence=a)\n    x = np.asarray(R) @ w\n    return r["mean"], p @ x, r["stdev"], np.sqrt(p @ x ** 2 - (p @ x) ** 2), r["ENS"], compute_effective_number_scenarios(p)' % mk)
        add("pnl" + z, "scenario_pnl", 'def NAME(w: "arr", R: "%s"):\n    return scenario_pnl(w, R), np.asarray(R) @ w' % mk)
    add("uniform", "generate_uniform_probabilities", 'def NAME(R: "arr"):\n    T = R.shape[0]\n    return generate_uniform_probabilities(T), np.full(T, 1 / T)')
    add("roundtrip", "simple2log", 'def NAME(mu: "arr", S: "arr"):\n    m, C = simple2log(*log2simple(mu, S))\n    return m, mu, C, S')
    add("roundtrip_back", "log2simple", 'def NAME(mu: "arr", S: "arr"):\n    m, C = log2simple(*simple2log(mu, S))\n    return m, mu, C, S')
    add("decay", "generate_exp_decay_probabilities", 'def NAME(R: "arr", h: "pos"):\n    T = R.shape[0]\n    q = 2.0 ** (-(T - np.arange(1, T + 1)) / h)\n    return generate_exp_decay_probabilities(T, h), q / np.sum(q)')
    add("kernel", "generate_gaussian_kernel_probabilities", 'def NAME(x: "arr", h: "pos", c: "num"):\n    q = np.exp(-(x - c) ** 2 / (2 * h ** 2))\n    return generate_gaussian_kernel_probabilities(x, None, h, c), q / np.sum(q)')
    add("bandwidth", "silverman_bandwidth", 'def NAME(x: "arr"):\n    T = x.shape[0]\n    v = np.sum((x - np.mean(x)) ** 2) / (T - 1)\n    return silverman_bandwidth(x), 1.06 * np.sqrt(v) * T ** (-0.2)')
    add("ens", "compute_effective_number_scenarios", 'def NAME(p: "arr"):\n    m = p > 0\n    return compute_effective_number_scenarios(p), np.exp(-np.sum(p[m] * np.log(p[m])))')
    add("hhi", "compute_effective_number_scenarios_hhi", 'def NAME(p: "arr"):\n    return compute_effective_number_scenarios_hhi(p), 1 / np.sum(p ** 2)')
    # ---------------------------------------------------------------- shrinkage of the mean
    add("jorion", "shrink_mean_jorion", 'def NAME(mu: "arr", S: "arr", n: "int"):\n    N = mu.size\n    Q = np.linalg.inv(S + 1e-8 * np.eye(N))\n    o = np.ones(N)\n    d = mu - (o @ Q @ mu) / (o @ Q @ o)\n    return shrink_mean_jorion(mu, S, n), mu - np.clip((N + 2) / (N + 2 + n * (d @ Q @ d)), 0.0, 1.0) * d')
    add("james_stein", "shrink_mean_james_stein", 'def NAME(mu: "arr", S: "arr", n: "int"):\n    N = mu.size\n    g = np.full(N, mu.mean())\n    Q = np.linalg.pinv(S, rcond=1e-12)\n    k = n * ((mu - g) @ Q @ (mu - g))\n    r = shrink_mean_james_stein(mu, S, n)\n    return r, g + np.maximum(0.0, 1 - (N - 2) / k) * (mu - g), r, g', ("0|1",))
    add("james_stein_target", "shrink_mean_james_stein", 'def NAME(mu: "arr", S: "arr", n: "int", d: "arr"):\n    N = mu.size\n    Q = np.linalg.pinv(S, rcond=1e-12)\n    k = n * ((mu - d) @ Q @ (mu - d))\n    r = shrink_mean_james_stein(mu, S, n, target=d)\n    return r, d + np.maximum(0.0, 1 - (N - 2) / k) * (mu - d), r, d', ("0|1",))
    for how, call, x in (("", "R", "R"), ("_centred", "R, assume_centered=False", "R - R.mean(axis=0)")):
        add("oas" + how, "shrink_covariance_oas", 'def NAME(R: "arr"):\n    T, N = R.shape\n    X = %s\n    C = (X.T @ X) / T\n    m = np.trace(C) / N\n    b = np.mean(C ** 2)\n    g = np.minimum(((1 - 2 / N) * b + m ** 2) / ((T + 1 - 2 / N) * (b - m ** 2 / N)), 1.0)\n    r = shrink_covariance_oas(%s)\n    return r, (1 - g) * C + g * m * np.eye(N), r, m * np.eye(N)' % (x, call), ("0|1",))
    add("ewma", "covariance_ewma", 'def NAME(y0: "arr", th: "arr", de: "arr", h: "pos"):\n    l = 1 - 2 / (h + 1)\n    return covariance_ewma([y0, th, de], span=h, min_periods=1), l * l * np.outer(y0, y0) + l * (1 - l) * np.outer(th, th) + (1 - l) * np.outer(de, de)')
    # ---------------------------------------------------------------- Normal-Inverse-Wishart posterior
    for mk, sk in (("arr", "arr"), ("series", "df")):
        z = "" if mk == "arr" else "_labels"
        sig = 'm0: "%s", S0: "%s", t0: "int", n0: "int", m1: "%s", S1: "%s", n: "int"' % (mk, sk, mk, sk)
        val = "    M0, M1, C0, C1 = np.asarray(m0), np.asarray(m1), np.asarray(S0), np.asarray(S1)\n    N = M0.size\n    T1 = t0 + n\n    v1 = n0 + n\n    mu1 = (t0 * M0 + n * M1) / T1\n    d = M0 - M1\n    s1 = (n0 * C0 + n * C1 + np.outer(d, d) / (1 / n + 1 / t0)) / v1\n"
        add("niw" + z, "NIWPosterior.update", 'def NAME(%s):\n%s    u = NIWPosterior(m0, S0, t0, n0).update(m1, S1, n)\n    return u.T1, T1, u.mu1, mu1, u.nu1, v1, u.sigma1, s1' % (sig, val))
        add("niw_ce" + z, "NIWPosterior", 'def NAME(%s):\n%s    u = NIWPosterior(m0, S0, t0, n0)\n    u.update(m1, S1, n)\n    return u.get_mu_ce(), mu1, u.get_S_mu(), v1 / (T1 * (v1 - 2)) * s1, u.get_sigma_ce(), v1 / (v1 + N + 1) * s1' % (sig, val))
        add("niw_radius" + z, "NIWPosterior", 'def NAME(%s, a: "pos"):\n%s    u = NIWPosterior(m0, S0, t0, n0)\n    u.update(m1, S1, n)\n    q = chi2_quantile(a, N)\n    c = chi2_quantile(a, N * (N + 1) // 2)\n    return q, c, u.cred_radius_mu(a), np.sqrt(q / T1 * v1 / (v1 - 2)), u.cred_radius_sigma_factor(a), v1 / (v1 + N + 1) + np.sqrt(2 * v1 ** 2 * c / (v1 + N + 1) ** 3)' % (sig, val), ("", ""))
        bun = "    b = RobustBayesPosterior.from_niw(prior_mu=m0, prior_sigma=S0, t0=t0, nu0=n0, sample_mu=m1, sample_sigma=S1, n_obs=n)\n"
        add("bundle" + z, "RobustBayesPosterior.from_niw", 'def NAME(%s):\n%s%s    return b.mu, mu1, b.sigma, v1 / (v1 + N + 1) * s1, b.s_mu, v1 / (T1 * (v1 - 2)) * s1, b.sigma1, s1' % (sig, val, bun))
        add("bundle_radius" + z, "RobustBayesPosterior", 'def NAME(%s, a: "pos"):\n%s%s    q = chi2_quantile(a, N)\n    c = chi2_quantile(a, N * (N + 1) // 2)\n    return q, c, b.cred_radius_mu(a), np.sqrt(q / T1 * v1 / (v1 - 2)), b.cred_radius_sigma_factor(a), v1 / (v1 + N + 1) + np.sqrt(2 * v1 ** 2 * c / (v1 + N + 1) ** 3)' % (sig, val, bun), ("", ""))
        add("bundle_scaled" + z, "RobustBayesPosterior", 'def NAME(mu: "%s", S: "%s", S1: "%s", f: "pos"):\n    b = RobustBayesPosterior(mu, S, S1)\n    g = np.exp(f * np.asarray(mu))\n    e = np.exp(f * np.asarray(mu) + f * np.diag(np.asarray(S)) / 2)\n    C = np.asarray(S1)\n    return b.mean_uncertainty_cov_log(annualization_factor=f), f * f * C, b.mean_uncertainty_cov_simple(annualization_factor=f), f * f * C * np.outer(g, g), b.mean_uncertainty_cov_simple(annualization_factor=f, exact=True), f * f * C * np.outer(e, e)' % (mk, sk, sk))
    # ---------------------------------------------------------------- Black-Litterman posterior
    for mk, sk in (("arr", "arr"), ("series", "df")):
        z = "" if mk == "arr" else "_labels"
        add("bl_equilibrium" + z, "BlackLittermanProcessor", 'def NAME(w: "%s", S: "%s", h: "pos"):\n    m, _ = BlackLittermanProcessor(prior_cov=S, market_weights=w, risk_aversion=h).get_posterior()\n    u = np.asarray(w)\n    return m, h * (np.asarray(S) @ u) / np.sum(u)' % (mk, sk))
    for how, key, row in (("", "0", "e[0] = 1.0"), ("_relative", "(0, 1)", "e[0], e[1] = 1.0, -1.0")):
        add("bl_view" + how, "BlackLittermanProcessor", 'def NAME(mu: "arr", S: "arr", h: "pos", c: "num", v: "pos"):\n    m, C = BlackLittermanProcessor(prior_cov=S, pi=mu, tau=h, mean_views={%s: c}, omega=[v]).get_posterior()\n    e = np.zeros(mu.size)\n    %s\n    k = h * (e @ S @ e) + v\n    return m, mu + h * (S @ e) * (c - e @ mu) / k, C, S + h * S - h * h * np.outer(S @ e, S @ e) / k' % (key, row))
    add("bl_default", "BlackLittermanProcessor", 'def NAME(mu: "arr", S: "arr", h: "pos", c: "num"):\n    m, C = BlackLittermanProcessor(prior_cov=S, prior_mean=mu, tau=h, mean_views={0: c}).get_posterior()\n    e = np.zeros(mu.size)\n    e[0] = 1.0\n    k = 2 * h * (e @ S @ e)\n    return m, mu + h * (S @ e) * (c - e @ mu) / k, C, S + h * S - h * h * np.outer(S @ e, S @ e) / k')
    # ---------------------------------------------------------------- stress tables
    for mk, wk in (("arr", "arr"), ("df", "arr")):
        z = "" if mk == "arr" else "_labels"
        for how, args, call, x, q in (("", "", "probabilities=p", "np.asarray(R)", "p"), ("_probs", ', q: "arr"', "probabilities=p, stressed_probabilities=q", "np.asarray(R)", "q"), ("_map", ', c: "num"', "probabilities=p, transform=linear_map(scale=c)", "c * np.asarray(R)", "p")):
            both = [("nom", "np.asarray(R)", "p")] + ([("stress", x, q)] if how else [])
            ret = ", ".join('r["return_%s"], %s @ (%s @ w), r["stdev_%s"], np.sqrt(%s @ (%s @ w) ** 2 - (%s @ (%s @ w)) ** 2), r["ENS_%s"], np.exp(-np.sum(%s * np.log(%s)))' % (t, b, a, t, b, a, b, a, t, b, b) for t, a, b in both)
            add("stress" + how + z, "stress_test", 'def NAME(w: "%s", R: "%s", p: "arr", a: "pos"%s):\n    r = stress_test(w, R, %s, confidence=a)\n    w = np.asarray(w)\n    return %s' % (wk, mk, args, call, ret))
    add("stress_tail", "stress_test", 'def NAME(w: "arr", R: "arr", p: "arr", q: "arr"):\n    r = stress_test(w, R, probabilities=p, stressed_probabilities=q, confidence=0.9)\n    return r["CVaR90_nom"], portfolio_cvar(w, R, p, 0.9), r["CVaR90_stress"], portfolio_cvar(w, R, q, 0.9), r["VaR90_nom"], portfolio_var(w, R, p, 0.9), r["VaR90_stress"], portfolio_var(w, R, q, 0.9)')
    add("report_tail", "performance_report", 'def NAME(w: "arr", R: "arr", p: "arr"):\n    r = performance_report(w, R, probabilities=p, confidence=0.9)\n    return r["CVaR90"], portfolio_cvar(w, R, p, 0.9), r["VaR90"], portfolio_var(w, R, p, 0.9)')
    add("stress_kl", "stress_test", 'def NAME(w: "arr", R: "arr", p: "arr", q: "arr", a: "pos"):\n    r = stress_test(w, R, probabilities=p, stressed_probabilities=q, confidence=a)\n    b, c = np.clip(q, 1e-16, None), np.clip(p, 1e-16, None)\n    return r["KL_q_p"], np.sum(b * np.log(b / c))')
    for how, args, call, q in (("decay", 'h: "pos"', "exp_decay_stress(w, R, probabilities=p, half_life=h, confidence=a)", "generate_exp_decay_probabilities(R.shape[0], h)"), ("kernel", 'x: "arr", h: "pos", c: "num"', "kernel_focus_stress(w, R, focus_series=x, bandwidth=h, target=c, probabilities=p, confidence=a)", "generate_gaussian_kernel_probabilities(x, h=h, x_T=c)"), ("pooling", 'q: "arr"', "entropy_pooling_stress(w, R, posterior_probabilities=q, probabilities=p, confidence=a)", "q")):
        add("stress_by_" + how, {"decay": "exp_decay_stress", "kernel": "kernel_focus_stress", "pooling": "entropy_pooling_stress"}[how], 'def NAME(w: "arr", R: "arr", p: "arr", a: "pos", %s):\n    r = %s\n    z = %s\n    return r["return_nom"], p @ (R @ w), r["return_stress"], z @ (R @ w), r["stdev_stress"], np.sqrt(z @ (R @ w) ** 2 - (z @ (R @ w)) ** 2)' % (args, call, q))
    # ---------------------------------------------------------------- distributions and frontiers
    for mk, sk, rk in (("arr", "arr", "arr"), ("series", "df", "df")):
        z = "" if mk == "arr" else "_labels"
        add("dist" + z, "AssetsDistribution", 'def NAME(R: "%s", p: "arr"):\n    d = AssetsDistribution(scenarios=R, probabilities=p)\n    X = np.asarray(R)\n    return d.mu, p @ X, d.cov, np.einsum("t,ti,tj->ij", p, X, X) - np.outer(p @ X, p @ X), d.scenarios, X, d.probabilities, p' % rk)
        add("dist_given" + z, "AssetsDistribution", 'def NAME(mu: "%s", S: "%s"):\n    d = AssetsDistribution(mu=mu, cov=S)\n    return d.mu, np.asarray(mu), d.cov, np.asarray(S)' % (mk, sk))
        add("dist_prices" + z, "PortfolioWrapper.from_prices", 'def NAME(Y: "%s"):\n    d = PortfolioWrapper.from_prices(Y).dist\n    X = np.asarray(Y)\n    return d.scenarios, X[1:] / X[:-1] - 1' % rk)
        add("dist_log" + z, "PortfolioWrapper.from_scenarios", 'def NAME(R: "%s", p: "arr"):\n    d = PortfolioWrapper.from_scenarios(R, probabilities=p, return_type="log").dist\n    X = np.exp(np.asarray(R)) - 1\n    return d.scenarios, X, d.mu, p @ X' % rk)
        add("dist_logmoments" + z, "PortfolioWrapper.from_moments", 'def NAME(mu: "%s", S: "%s"):\n    d = PortfolioWrapper.from_moments(mu, S, return_type="log").dist\n    m, C = log2simple(np.asarray(mu), np.asarray(S))\n    return d.mu, m, d.cov, C' % (mk, sk))
        add("frontier" + z, "PortfolioWrapper.variance_frontier", 'def NAME(mu: "%s", S: "%s", n: "int"):\n    f = PortfolioWrapper(AssetsDistribution(mu=mu, cov=S)).variance_frontier(n)\n    W = f.weights\n    return W, f.returns, np.asarray(mu) @ W, f.risks, np.sqrt(np.einsum("im,ij,jm->m", W, np.asarray(S), W))' % (mk, sk), ("NM",))
        add("frontier_robust" + z, "PortfolioWrapper.from_robust_posterior", 'def NAME(mu: "%s", S: "%s", S1: "%s", n: "int", h: "pos"):\n    w = PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu, S, S1), annualization_factor=h)\n    f = w.variance_frontier(n)\n    W, m, C, U = f.weights, w.dist.mu, w.dist.cov, w._uncertainty_cov\n    a, B = log2simple(h * np.asarray(mu), h * np.asarray(S))\n    return W, m, h * np.asarray(mu), C, h * np.asarray(S), U, h ** 2 * np.asarray(S1), f.returns, a @ W, f.risks, np.sqrt(np.einsum("im,ij,jm->m", W, B, W))' % (mk, sk, sk), ("NM",))
        add("lambda_frontier" + z, "PortfolioWrapper.robust_lambda_frontier", 'def NAME(mu: "%s", S: "%s", S1: "%s", n: "int"):\n    f = PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu, S, S1)).robust_lambda_frontier(n)\n    W = f.weights\n    a, B = log2simple(np.asarray(mu), np.asarray(S))\n    return W, f.returns, a @ W, f.alternate_risks["Volatility"], np.sqrt(np.einsum("im,ij,jm->m", W, B, W))' % (mk, sk, sk), ("NM",))
        add("robust_at_return" + z, "PortfolioWrapper.min_variance_at_return", 'def NAME(mu: "%s", S: "%s", S1: "%s", c: "num"):\n    w, r, v = PortfolioWrapper.from_robust_posterior(RobustBayesPosterior(mu, S, S1)).min_variance_at_return(c)\n    w = np.asarray(w)\n    a, B = log2simple(np.asarray(mu), np.asarray(S))\n    return w, r, a @ w, v, np.sqrt(w @ B @ w)' % (mk, sk, sk), ("N",))
    add("overlay", "PortfolioWrapper.variance_frontier", 'def NAME(R: "arr", p: "arr", n: "int"):\n    f = PortfolioWrapper(AssetsDistribution(scenarios=R, probabilities=p)).variance_frontier(n)\n    W = f.weights\n    return W, f.alternate_risks["CVaR (95%)"], portfolio_cvar(W, R, p, 0.95), f.returns, (p @ R) @ W', ("NM",))
    add("at_return", "PortfolioWrapper.min_variance_at_return", 'def NAME(mu: "arr", S: "arr", c: "num"):\n    w, r, v = PortfolioWrapper(AssetsDistribution(mu=mu, cov=S)).min_variance_at_return(c)\n    w = np.asarray(w)\n    return w, r, mu @ w, v, np.sqrt(w @ S @ w)', ("N",))
    add("cvar_at_return", "PortfolioWrapper.min_cvar_at_return", 'def NAME(R: "arr", p: "arr", c: "num", a: "pos"):\n    w, r, v = PortfolioWrapper(AssetsDistribution(scenarios=R, probabilities=p)).min_cvar_at_return(c, a)\n    w = np.asarray(w)\n    return w, r, (p @ R) @ w, v, portfolio_cvar(w, R, p, 1.0 - a)', ("N",))
    add("cvar_frontier", "PortfolioWrapper.cvar_frontier", 'def NAME(R: "arr", p: "arr", a: "pos", n: "int"):\n    f = PortfolioWrapper(AssetsDistribution(scenarios=R, probabilities=p)).cvar_frontier(n, a, enforce_convexity=False)\n    W = f.weights\n    return W, f.returns, (p @ R) @ W, f.alternate_risks["Volatility"], np.sqrt(np.einsum("t,tm->m", p, (R @ W) ** 2) - (p @ R @ W) ** 2)', ("NM",))
    add("parity", "PortfolioWrapper.relaxed_risk_parity_portfolio", 'def NAME(mu: "arr", S: "arr"):\n    w, r, v = PortfolioWrapper(AssetsDistribution(mu=mu, cov=S)).relaxed_risk_parity_portfolio()\n    w = np.asarray(w)\n    return w, r, mu @ w, v, np.sqrt(w @ S @ w)', ("N",))
    # ---------------------------------------------------------------- share allocations: what the result reports about the shares it names
    for m in ("milp", "greedy"):
        add("shares_" + m, "_build_result", 'def NAME(w: "series", y0: "series", c: "pos"):\n    r = discretize_weights(w, y0, c, method="%s")\n    a = np.asarray(r.achieved_weights)\n    return r.leftover_cash, c - c * np.sum(a), r.tracking_error, np.sum(np.abs(np.asarray(w) / np.sum(np.asarray(w)) - a))' % m, ("nothing zero",))
    # ---------------------------------------------------------------- exposures and stress maps
    add("average", "average_exposures", 'def NAME(W: "arr", E: "arr"):\n    return average_exposures(W), W.mean(axis=1), average_exposures(W, E), W @ E / np.sum(E)')
    add("linear", "linear_map", 'def NAME(R: "arr", c: "num", de: "arr"):\n    return linear_map(scale=c)(R), c * R, linear_map(mean_shift=de)(R), R + de, linear_map(scale=c, mean_shift=de)(R), c * R + de')
    add("linear_matrix", "linear_map", 'def NAME(R: "arr", Z: "arr", c: "num", de: "arr"):\n    return linear_map(matrix=Z)(R), np.einsum("ti,ji->tj", R, Z), linear_map(matrix=Z, scale=c, mean_shift=de)(R), c * np.einsum("ti,ji->tj", R, Z) + de')
    return out


def index():
    I = Index(SHAPES, sym={"S", "S0", "S1"}, unit={"p", "q"})
    for n, s in SHAPES.items():
        if not s:
            I.N.scalars.add(n)
    return I


NAMES = ["i", "j", "l"]


def rank():
    I = index()

    def f(v):
        try:
            s = I.shape(v)
        except Exception:       # depends on the path
            return None
        return None if s is None else len(s)

    def rows(v):
        its = I.rows_of(v)
        return len(its) if its else None
    return {"rank": f, "rows": rows}


def compare(I, r, st, pairs, hints):
    """(pairs agreeing, not known, [(position, got, want, special)], positions that agree, positions not known)"""
    good = lost = 0
    bad, sure, open_ = [], set(), set()
    for q, (g, w) in enumerate(pairs):
        res = []

        def one(same):
            I.ememo = {}
            sg, sw = I.shape(g), I.shape(w)
            if sw is None:
                return None
            if same and not (len(sw) == 2 and sw[0].key() == sw[1].key()):
                return True, "", ""
            ix = ["i"] * len(sw) if same else NAMES[:len(sw)]
            ig = tuple(ix)
            if sg is not None:
                big = [i for i, d in zip(ix, sw) if d.key() != D1.key()]
                if len([d for d in sg if d.key() != D1.key()]) != len(big):
                    return None
                it = iter(big)
                ig = tuple(0 if d.key() == D1.key() else next(it) for d in sg)
            a, b = I.at(g, ig), I.at(w, tuple(0 if d.key() == D1.key() else i for i, d in zip(ix, sw)))
            ok = I.same(a, b)
            if ok is False and I.agree_where(a, b, sorted(n for n in I.names_in(b) & set(SHAPES) - I.unit if not SHAPES[n] or n not in I.names_in(a))):
                ok = "special"
            if ok is False:
                z = I.pieces(a, b)
                ok = ok if not z else "guarded" if I.guards else ("piece", *sorted(z)[:1])
            return ok, show(a), show(b)
        res = I.each(lambda: one(False))
        if all(x is not None and x[0] for x in res):
            more = I.each(lambda: one(True))
            res = more if any(x is None or not x[0] for x in more) else res
        for x in res:
            if x is None or x[0] is None:
                lost += 1
                open_.add(q)
            elif x[0] is True:
                good += 1
                sure.add(q)
            else:
                bad.append((q, x[1], x[2], x[0]))
    return good, lost, bad, sure, open_


def fix(I, vids, hint):
    """the leading results stand for themselves: they are the unknowns the formulas are stated in (on every path, and before they are put into another order)"""
    for h in hint:
        x = vids.pop(0)
        deep = {}

        def depth(y):
            """how often y was put into order; None: differs from path to path"""
            if y not in deep:
                deep[y] = None
                if I.reordered(y) is not None:
                    d = depth(I.reordered(y))
                    deep[y] = None if d is None else d + 1
                elif term(y)[:1] == ("phi",):
                    ds = {depth(z) for z in term(y)[1:] if isinstance(z, int)}
                    deep[y] = ds.pop() if len(ds) == 1 else None
                else:
                    deep[y] = 0
            return deep[y]
        if depth(x) is None:
            I.fixed[x] = DIMS[h]
            continue
        rep = {}
        for y in sorted(deep, key=lambda y: (term(y)[:1] == ("phi",), y)):
            d = deep[y]
            if d is not None:
                rep.setdefault(d, y)
                if rep[d] != y:
                    I.alias[y] = rep[d]
        I.fixed[rep[0]] = DIMS[h]


def psd(P):
    """the covariances of the programs are positive semidefinite: the repair returns them"""
    return {fn.full: (lambda I, st, func, args, kw: args[0] if args else next(iter(kw.values()), None)) for m in P.mods.values() for fn in m.funcs.values() if fn.node.name == "ensure_psd_matrix"}


def job(P, it):
    name, cls, text, hint = it
    f = scen.load(P, PRE + text.replace("NAME", "c_" + name, 1), "_p11_" + name)["c_" + name]
    r = run_entry(P, f, scen.make(f), hooks=psd(P), opts={"sites": True, "index": True, **rank()})
    n = {"programs": 1, "formulas": 0, "formulas_agree": 0, "formulas_undecided": 0}
    fs, why = [], []
    if not r.outs and r.level == 0:
        fs.append(at(P, cls, "never-returns", "%s: no path returns" % name, name))
    end = time.process_time() + SECONDS
    seen, held, wrong, open_ = set(), set(), [], set()
    for st, v in r.outs:
        its = r.I.known_items(v, st)
        if its is None:
            n["formulas_undecided"] += 1
            continue
        vids = [r.I.N(x, st).vid for x in its]
        I = index()
        I.deadline = end
        I.nothing_zero = "nothing zero" in hint
        fix(I, vids, [h for h in hint if h in DIMS])
        ps = list(zip(vids[::2], vids[1::2]))
        g, l, bad, sure, more = compare(I, r, st, ps, hint)
        open_ |= more
        for h in hint:
            if "|" in h:        # general|boundary: the same result, as stated for a boundary case
                x, y = map(int, h.split("|"))
                at_edge = y in sure and not any(b[0] == y for b in bad)
                bad = [b if b[0] != x or not at_edge else b[:3] + ("special",) for b in bad if b[0] != y]
        held |= sure
        n["formulas"] += g + l + len(bad)
        n["formulas_agree"] += g
        n["formulas_undecided"] += l
        if l:
            why.append("%s: %s" % (name, getattr(I, "lost", "?")))
        wrong += bad
    for q, a, b, special in wrong:
        pieces = {b[3] for b in wrong if b[0] == q and b[3]}
        # on a path that handles a special value of an input, or one piece of a minimum or maximum: other paths have the rest of the formula
        if special and (special == "guarded" or q in held or q in open_ or len(pieces) > 1):
            n["formulas_at_special_values"] = n.get("formulas_at_special_values", 0) + 1
        elif q not in seen:
            seen.add(q)
            fs.append(at(P, cls, "formula-differs", "%s, result %d: the code computes %s, the documented formula is %s" % (name, q + 1, a[:500], b[:500]), name))
    return {"n": n, "f": fs, "visited": sorted(getattr(r.I, "visited", [])), "why": why}


def at(P, cls, rule, why, name):
    for m in P.mods.values():
        for fn in m.funcs.values():
            if fn.node.name == cls.split(".")[-1]:
                return finding(P, rule, {"file": m.path, "line": fn.node.lineno, "stack": (), "cms": ()}, why, name)
        for c in m.classes.values():
            ms = getattr(c, "methods", {})
            if c.name == cls.split(".")[0]:
                fn = ms.get(cls.split(".")[-1]) if isinstance(ms, dict) else None
                return finding(P, rule, {"file": m.path, "line": (fn or c).node.lineno, "stack": (), "cms": ()}, why, name)
    raise AnalysisBroken("no construct " + cls)


def run(P, tier):
    its = programs()
    fs, tot, vis, why = [], {}, set(), []
    for d in pmap(P, job, its):
        fs += d["f"]
        vis |= set(d["visited"])
        why += d["why"]
        for a, b in d["n"].items():
            tot[a] = tot.get(a, 0) + b
    if tot.get("formulas", 0) < len(its):
        raise AnalysisBroken("only %d formulas in %d programs" % (tot.get("formulas", 0), len(its)))
    return fs, {**tot, "undecided_because": sorted(set(why))[:20], "functions_interpreted": len(vis), "explanation": "%d client programs return results of the library next to the documented formula; both are value numbers of the same abstract interpretation (nothing is executed). The entry of each at symbolic indices is normalised to a polynomial over entries of the inputs with sums over bound indices, powers, exponentials and logarithms, and the two polynomials are compared on every path." % len(its),
        "assumptions": ["covariances are symmetric and probabilities sum to one", "forms the normaliser cannot name are counted as undecided and not compared"]}
