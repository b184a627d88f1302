"""Shared passes over the public entry points."""
from sa.core import *
from sa.core import Finding, drive
from sa.values import _EMPTY, V, vn
from sa.interp import State, CAP


def all_entries(P, floor=100):
    es = drive.entries(P) + drive.module_public(P)
    if len(es) < floor:
        raise AnalysisBroken("only %d public entry points found (expected at least %d)" % (len(es), floor))
    return es


def short(path):
    return tuple(s.split(":", 1)[1] if ":" in s else s for s in path)


def finding(P, rule, ev, detail, entry=None):
    return Finding(rule, construct(P, ev), detail, ev["line"], ((entry,) if entry else ()) + tuple(ev["stack"]), rel(P, ev["file"]))


def collect(P, es, job):
    """job(P, (label, func, cls)) -> dict(findings=[Finding], n=Counter-like dict, level=int); merged over all entries"""
    fs, tot, levels, visited = [], {}, {}, set()
    for (label, f, c), r in zip(es, pmap(P, job, es, full=True)):
        if r is None:
            continue
        fs += r["findings"]
        for k, v in r.get("n", {}).items():
            tot[k] = tot.get(k, 0) + v
        levels[r["level"]] = levels.get(r["level"], 0) + 1
        visited |= set(r.get("visited", ()))
    cov = {"entry_points": len(es), "functions_interpreted": len(visited), "precision_levels": {str(k): v for k, v in sorted(levels.items())}}
    cov.update(tot)
    return fs, cov


def closures(I, v, st, seen, depth=0):
    """callables defined in the package reachable from a value"""
    out = []
    if depth > 5:
        return out
    for fn in v.fn:
        if fn[0] in ("func", "closure") or fn[0] == "partial":
            out.append((fn, v))
    for x in list(v.seq or ()) + ([v.elem] if v.elem is not None else []):
        out += closures(I, x, st, seen, depth + 1)
    for r, o in I.objs(st, v):
        if r in seen:
            continue
        seen.add(r)
        if o.kind == "clos":
            continue
        for x in list(o.seq or ()) + list((o.keys or {}).values()) + list((o.attrs or {}).values()) + ([o.elem] if o.elem is not None else []):
            out += closures(I, x, st, seen, depth + 1)
    return out


def returned_callables(P, r, f):
    """invoke every package callable that the entry returned or stored in its result, once, on caller-owned arguments (regions ("in", "arg_*"));
    yields (Func, events of that invocation, regions that existed before)"""
    I = r.I
    ran = {}
    cap0, fork0, steps0 = CAP[0], I.maxfork, I.maxsteps
    if f.name in ("__init__", "__post_init__"):
        return
    for st, v in r.outs[:12]:
        for fn, fv in closures(I, v, st, set()):
            g = fn[1]
            if not hasattr(g, "node") or ran.get(id(g.node), 0) >= 2:
                continue
            start = len(I.events)
            pre = set(st.heap)
            done = False
            for ms, mf, steps in ((6, 8, 12000), (2, 2, 400000)):
                try:
                    I.steps, I.maxfork, I.maxsteps, CAP[0] = 0, mf, steps, ms
                    I.frame, I.ctxs, I.depth, I.cms = None, [], 0, []
                    s2 = State({}, dict(st.heap), st.facts)
                    a = g.node.args
                    args = [drive.generic("arg_" + x.arg) for x in a.posonlyargs + a.args]
                    clos = fn[2] if len(fn) > 2 and not isinstance(fn[2], V) else None
                    bound = I.bind(g, args, {}, s2, clos)
                    if bound is not None:
                        I.body(g, bound, s2, clos)
                    done = True
                    break
                except Budget:
                    pass
            ran[id(g.node)] = ran.get(id(g.node), 0) + (2 if I.steps > 10000 else 1)
            CAP[0], I.maxfork, I.maxsteps = cap0, fork0, steps0
            if not done:
                raise AnalysisBroken("returned callable %s too large to interpret" % g.full)
            yield g, I.events[start:], pre
