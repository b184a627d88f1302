"""P05: calls leave no lasting process-wide side effects, even when they fail."""
from .common import *
from sa.values import *

OKCALLS = {"matplotlib.use": "headless backend fallback when no display is available", "matplotlib.pyplot.switch_backend": "same"}
PRINT_OK = {"builtins.print"}   # console output is not lasting state
SCOPED = {"warnings.filterwarnings": ("warnings.catch_warnings",), "warnings.simplefilter": ("warnings.catch_warnings",), "warnings.resetwarnings": ("warnings.catch_warnings",),
          "numpy.seterr": ("numpy.errstate",), "numpy.set_printoptions": ("numpy.printoptions",), "pandas.set_option": ("pandas.option_context",),
          "matplotlib.rc": ("matplotlib.rc_context", "matplotlib.pyplot.rc_context"), "matplotlib.pyplot.rc": ("matplotlib.rc_context", "matplotlib.pyplot.rc_context"), "matplotlib.style.use": ("matplotlib.rc_context", "matplotlib.pyplot.rc_context", "matplotlib.style.context", "matplotlib.pyplot.style.context"),
          "matplotlib.pyplot.style.use": ("matplotlib.rc_context", "matplotlib.pyplot.rc_context", "matplotlib.style.context", "matplotlib.pyplot.style.context")}


def job(P, item):
    label, f, c = item
    r = run_entry(P, f, lambda st, I: drive.gargs(f, c, st, P), opts={"implicit": True})
    fs, nw, nc = [], 0, 0
    for ev in r.events:
        if ev["kind"] == "globalcall":
            nc += 1
            nm = ev["name"]
            if nm in OKCALLS or nm in PRINT_OK:
                continue
            if any(s in ev["cms"] for s in SCOPED.get(nm, ())):
                continue
            fs.append(finding(P, "process-wide-setting", ev, "%s changes process-wide state" % nm, label))
        elif ev["kind"] == "globalwrite":
            nw += 1
            if tracked(ev["target"], r):
                continue
            fs.append(finding(P, "process-wide-write", ev, "writes %s" % ev["target"], label))
        elif ev["kind"] == "mutate":
            rt = root(ev["reg"])
            if isinstance(rt, tuple) and rt[0] == "glob":
                fs.append(finding(P, "module-data-modified", ev, "%s on module-level data %s" % (ev["how"], rt[1]), label))
    nx = 0
    for how, sts in (("return", [s for s, _ in r.outs]), ("an exception", [x[0] for x in r.raises])):
        for st in sts:
            nx += 1
            for rid, o in st.heap.items():
                if isinstance(rid, tuple) and rid[0] == "libstate":
                    ver = (o.attrs or {}).get("ver")
                    if ver is None or ver.one() != ("initial",):
                        site = last_write(r, rid[1])
                        d = "%s is left changed after %s" % (rid[1], how)
                        fs.append(finding(P, "setting-not-restored", site, d, label) if site else Finding("setting-not-restored", f.full, d, 0, (label,)))
    return {"findings": fs, "n": {"global_writes_examined": nw, "global_calls_examined": nc, "exits_examined": nx}, "level": r.level, "visited": r.I.visited}


def tracked(target, r):
    """library option tables are followed through snapshot/restore instead of being reported at the write"""
    return any(("libstate", target) in x[0].heap for sts in (r.outs, r.raises) for x in sts)


def last_write(r, L):
    for ev in reversed(r.events):
        if ev["kind"] == "globalwrite" and ev["target"] == L:
            return ev
    return None


def run(P, tier):
    es = all_entries(P)
    fs, cov = collect(P, es, job)
    if cov["global_writes_examined"] < 1 or cov["exits_examined"] < 100:
        raise AnalysisBroken("process-wide writes vanished: %s" % cov)
    cov["explanation"] = ("Effect analysis with a versioned model of library-global option tables (cvxopt.solvers.options, rcParams, ...). Obligations on every public entry: no unscoped process-wide setting call (warning filters, numpy error state, pandas/matplotlib options, "
                          "random seeding, logging set-up, environment), no write to module-level data, and at every exit - normal return or any exception a solver call or user callback may raise - each option table again has the content it had on entry.")
    return fs, cov
