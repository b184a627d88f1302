"""P03: no numerical-solver answer escapes unless the solver reported success."""
from .common import *
from sa.values import *
from sa.interp import sol_id, sol_ok


def job(P, item):
    label, f, c = item
    r = generic_run(P, f, c)
    fs, sites = [], set()
    ids = {}
    for ev in r.events:
        if ev["kind"] == "solver":
            sites.add((construct(P, ev), ev["line"]))
            ids[sol_id(ev["rid"])] = ev
    n = 0
    for st, v in r.outs:
        n += 1
        may = r.I.deep(v, st)[0]
        if f.name in ("__init__", "__post_init__"):
            for rr, oo in st.heap.items():
                if isinstance(rr, tuple) and rr[0] == "self":
                    for x in (oo.attrs or {}).values():
                        may = may | r.I.deep(x, st)[0]
        for m in sorted(may):
            if m.startswith("badsol:"):
                ev = ids.get(m[3:])
                fs.append(finding(P, "unchecked-solver-result", ev, "result of %s is returned although its status was never checked" % ev["name"], label))
            if not m.startswith("sol:"):
                continue
            ev = ids.get(m)
            o = st.heap.get(ev["rid"])
            if o is not None and sol_ok(o):
                continue
            fs.append(finding(P, "unchecked-solver-result", ev, "result of %s is returned on a path where the solver may not have succeeded" % ev["name"], label))
    return {"findings": fs, "n": {"solver_results_at_returns": n, "_sites": 0}, "level": r.level, "visited": r.I.visited, "sites": sites}


def run(P, tier):
    es = all_entries(P)
    sites = set()
    fs, tot, levels, visited = [], 0, {}, set()
    for (label, f, c), r in zip(es, pmap(P, job, es, full=True)):
        if r is None:
            continue
        fs += r["findings"]
        sites |= r["sites"]
        tot += r["n"]["solver_results_at_returns"]
        visited |= set(r["visited"])
        levels[str(r["level"])] = levels.get(str(r["level"]), 0) + 1
    # every syntactic solver call in the package must have been reached by the interpreter
    import ast
    syn = set()
    for m in P.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call):
                nm = ast.unparse(x.func)
                if nm.split(".")[-1] in ("qp", "lp", "conelp", "coneqp", "socp", "minimize", "milp", "linprog", "sdp", "minimize_scalar"):
                    syn.add((rel(P, m.path), x.lineno))
    reached = {(k.split(":")[0], l) for k, l in sites}
    missed = syn - reached
    if len(sites) < 6:
        raise AnalysisBroken("only %d solver call sites reached" % len(sites))
    cov = {"entry_points": len(es), "solver_call_sites": sorted("%s:%d" % s for s in sites), "solver_results_at_returns": tot, "solver_sites_not_reached": sorted("%s:%d" % m for m in missed),
           "functions_interpreted": len(visited), "precision_levels": levels,
           "explanation": "Typestate analysis. Each solver call creates an abstract result whose status is unknown; comparisons with 'optimal' / tests of .success refine it on each path. Obligation at every return of every public entry: if the returned value "
                          "(or, for a constructor, the built object) may carry data of a solver result, that result's status must be known to be success on that path."}
    return fs, cov
