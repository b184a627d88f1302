"""P02: the same inputs and seed give the same numbers."""
from .common import *
from sa.values import *

SEEDS = {"seed", "random_state", "rng", "random_seed"}


def job(P, item):
    label, f, c = item
    seeds = [a.arg for a, d, k in drive.params(f) if a.arg in SEEDS]

    def make(st, I):
        sv, args, kw = drive.gargs(f, c, st, P)
        for s in seeds:
            v = src(s, ty="int")
            if s in kw:
                kw[s] = v
        return sv, args, kw
    r = run_entry(P, f, make)
    fs, nc, nd = [], 0, 0
    inputs = {a.arg for a, d, k in drive.params(f)}
    has_self = c is not None and f.name not in ("__init__", "__post_init__") and "staticmethod" not in f.decos

    def ok(v):
        if v is None or v.none() == "y":
            return False
        if seeds:
            return any(s in v.may for s in seeds)
        # no seed of its own: the stream must still come from something the caller controls
        return v.const is not None or any(m in inputs or (has_self and m.startswith("self.")) for m in v.may) and not any(m.startswith(("rng:", "ambient:")) for m in v.may)
    for ev in r.events:
        k = ev["kind"]
        if k == "rng" and ev["how"] == "global":
            fs.append(finding(P, "global-randomness", ev, "%s draws from the process-wide generator" % ev["name"], label))
        elif k == "rng":
            nc += 1
            if not ok(ev["seed"]):
                fs.append(finding(P, "generator-not-seeded", ev, "generator created without the caller's %s" % (" / ".join(seeds) or "seed"), label))
        elif k == "draw":
            nd += 1
            if not ok(ev["rng"]):
                fs.append(finding(P, "draw-not-seeded", ev, "`.%s` drawn from a generator not derived from the caller's %s" % (ev["method"], " / ".join(seeds) or "arguments"), label))
        elif k == "ambientbranch":
            fs.append(finding(P, "ambient-input", ev, "control flow depends on %s" % ev["name"], label))
        elif k == "setorder":
            fs.append(finding(P, "hash-order", ev, "result depends on set iteration order (%s)" % ev["how"], label))
    for st, v in r.outs:
        for m in sorted(r.I.deep(v, st)[0]):
            if m.startswith("ambient:"):
                fs.append(Finding("ambient-input", "%s:%s" % (rel(P, f.mod.path), f.qual), "result depends on %s" % m[8:], f.node.lineno, (label,), rel(P, f.mod.path)))
    return {"findings": fs, "n": {"generators_created": nc, "draws": nd}, "level": r.level, "visited": r.I.visited}


def run(P, tier):
    es = all_entries(P)
    fs, cov = collect(P, es, job)
    if cov["generators_created"] < 4 or cov["draws"] < 4:
        raise AnalysisBroken("random-number sites vanished: %s" % cov)
    cov["explanation"] = ("Dependence analysis. Each public entry is interpreted with its seed/random_state bound to an arbitrary non-None integer (zero included). Obligations: every generator creation and every draw reached must depend on that seed; "
                          "no draw from the process-wide numpy/random generators; no result depends on a clock, process id, hash or uuid; no order-dependent iteration over a set.")
    return fs, cov
