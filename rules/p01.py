"""P01: no public call modifies what the caller passed in (or the data an object was built from)."""
from .common import *

CANVAS = {"ax", "axes", "fig", "figure", "axis"}   # drawing surfaces: being drawn on is their purpose
BUILD = {"__init__", "__post_init__", "__setattr__"}


def job(P, item):
    label, f, c = item
    r = generic_run(P, f, c)
    fs, n = [], 0
    for ev in r.events:
        if ev["kind"] != "mutate":
            continue
        n += 1
        rt = root(ev["reg"])
        if not isinstance(rt, tuple):
            continue
        if rt[0] == "in" and rt[1] not in CANVAS:
            fs.append(finding(P, "caller-data-modified", ev, "%s on data passed in as `%s`" % (ev["how"], rt[1]), label))
        elif rt[0] == "self" and rt[1].startswith(".") and f.name not in BUILD and rt[1][1:] not in CANVAS:
            fs.append(finding(P, "stored-data-modified", ev, "%s on data held in `self%s`" % (ev["how"], rt[1]), label))
    ncl = 0
    for g, evs, pre in returned_callables(P, r, f):
        ncl += 1
        for ev in evs:
            rt = root(ev["reg"]) if ev["kind"] == "mutate" else None
            if isinstance(rt, tuple) and rt[0] == "in" and rt[1] not in CANVAS:
                fs.append(finding(P, "caller-data-modified", ev, "%s: calling the returned `%s` changes data passed in as `%s`" % (ev["how"], g.name, rt[1].replace("arg_", "", 1)), label))
    return {"findings": fs, "n": {"mutations_examined": n, "returned_callables_run": ncl}, "level": r.level, "visited": r.I.visited}


def run(P, tier):
    es = all_entries(P)
    fs, cov = collect(P, es, job)
    if cov["mutations_examined"] < 200:
        raise AnalysisBroken("only %d mutations seen: the effect analysis no longer reaches the code" % cov["mutations_examined"])
    cov["explanation"] = ("Alias and effect analysis. Every public function, method and constructor is abstractly interpreted with each argument in its own memory region; "
                          "library calls either keep the region (asarray, views, to_numpy, slices) or allocate a new one (copy, arithmetic, astype). Every in-place effect (item or attribute store, "
                          "augmented assignment on arrays, mutating method, out=) reached on any path is an obligation: its target must not be able to share memory with an argument, nor - outside constructors - with data an object was built from. "
                          "Callables that an entry returns are invoked once more on caller-owned arguments under the same rule. Plotting canvases (ax/fig) are exempt.")
    return fs, cov
