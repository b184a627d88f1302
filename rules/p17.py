"""P17: objects and the callables they hand out do not change by being used."""
from .common import *
from sa.values import *

BUILD = {"__init__", "__post_init__", "__setattr__", "__new__"}
# the one documented state transition: a conjugate update is performed once per posterior object (a second call raises)
TRANSITIONS = {("NIWPosterior", "update"): {"_posterior"}}


def job(P, item):
    label, f, c = item
    r = generic_run(P, f, c)
    fs, n, ncl = [], 0, 0
    method = c is not None and "staticmethod" not in f.decos and "classmethod" not in f.decos
    allowed = TRANSITIONS.get((c.name, f.name), set()) if c else set()
    for ev in r.events:
        if ev["kind"] == "mutate":
            rt = root(ev["reg"])
            if not isinstance(rt, tuple):
                continue
            n += 1
            if rt[0] == "glob":
                fs.append(finding(P, "shared-data-modified", ev, "%s on data shared between calls (%s)" % (ev["how"], rt[1]), label))
            elif rt[0] == "self" and method and f.name not in BUILD:
                if ev.get("attr") in allowed or rt[1][1:] in allowed:
                    continue
                what = "attribute `%s`" % ev["attr"] if ev.get("attr") else "data held in `self%s`" % (rt[1] if rt[1].startswith(".") else "")
                fs.append(finding(P, "query-changes-object", ev, "%s: %s changes %s" % (ev["how"], f.name, what), label))
    # callables handed out: use them once and look at what they modify
    for g, evs, pre in returned_callables(P, r, f):
        ncl += 1
        for ev in evs:
            if ev["kind"] == "mutate":
                rt = root(ev["reg"])
                if rt in pre or (isinstance(rt, tuple) and rt[0] in ("self", "glob")) or (isinstance(rt, tuple) and rt[0] == "in" and not str(rt[1]).startswith("arg_")):
                    fs.append(finding(P, "callable-keeps-state", ev, "%s: calling the returned `%s` changes data captured when it was created" % (ev["how"], g.name), label))
            elif ev["kind"] == "globalwrite" and not str(ev["target"]).startswith(("cvxopt.", "matplotlib.")):
                fs.append(finding(P, "callable-keeps-state", ev, "calling the returned `%s` writes %s" % (g.name, ev["target"]), label))
    return {"findings": fs, "n": {"mutations_examined": n, "returned_callables_run": ncl}, "level": r.level, "visited": r.I.visited}


def run(P, tier):
    es = all_entries(P)
    fs, cov = collect(P, es, job)
    if cov["returned_callables_run"] < 3:
        raise AnalysisBroken("no returned callables analysed")
    # caching decorators hand the same mutable object to every caller
    for f in P.all_funcs():
        m = f.mod
        if any(d.split(".")[-1] in ("lru_cache", "cache", "cached_property") for d in f.decos):
            fs.append(Finding("cached-result-shared", "%s:%s" % (rel(P, m.path), f.qual), "results of `%s` are cached and shared between calls" % f.name, f.node.lineno, (), rel(P, m.path)))
    cov["explanation"] = ("Effect analysis of object state. Every public method other than constructors (and the single documented NIW update) is interpreted on an object with arbitrary attributes: any attribute or container store that can reach the object is reported. "
                          "Callables that an entry returns or stores in its result (selectors, factories, repricers, transforms) are then invoked abstractly: they must not modify anything that existed before the invocation.")
    return fs, cov
