"""P07: a frontier query returns one column of the frontier - the one its criterion asks for.  Client programs query a frontier whose vectors follow one order
of portfolios; positions found by argmin/argmax/sorting/conditions carry the vector they number, so that reading another order with them, or reading weights, return and
risk at different positions, is a violation; the monotone direction in which each position was chosen is compared with the documented criterion."""
from .common import *
from sa.values import *
from sa import scen
from sa.lib import cls_of, aligned
from .p12 import S, PRE as PRE0

PRE = PRE0 + '''
from pyvallocation import ensembles as E
'''

VARS = "W:pmat@F r:pvec@F k:pvec@F+ v:pvec@F+"
NEW = "f = PortfolioFrontier(weights=W, returns=r, risks=k, risk_measure='Main', asset_names=%s, alternate_risks={'Alt': v})\n"


def programs():
    """name, text, criterion {source: direction}, filter ({source: direction}, inclusive) or None, risk vector reported"""
    o = []

    def a(name, call, crit, filt=None, risk="k", params="", triple=True):
        for nm, names in (("", "None"), ("_n", "['a', 'b', 'c']")):
            t = S(name + nm, VARS + (" " + params if params else ""), NEW % names + call)
            o.append((t[0], t[1].replace("NAME", t[0], 1), crit, filt, risk, triple))
    for lab, x in (("", "k"), ("'Alt'", "v"), ("'Main'", "k")):
        sx = {"": "", "'Alt'": "_alt", "'Main'": "_main"}[lab]
        kw = ", risk_label=" + lab if lab else ""
        a("min_risk" + sx, "return f.min_risk(%s)" % kw[2:], {x: "-"}, None, x)
        a("at_risk" + sx, "return f.at_risk(t%s)" % kw, {"r": "+"}, ({x: "-", "t": "+"}, True), x, "t:num")
        a("at_return" + sx, "return f.at_return(t%s)" % kw, {x: "-"}, ({"r": "+", "t": "-"}, True), x, "t:num")
        a("closest" + sx, "return f.closest_risk(t%s)" % kw, {x: "?", "t": "?"}, None, x, "t:num")
        a("pct" + sx, "return f.at_percentile(t%s)" % kw, {x: "?", "t": "?"}, None, x, "t:num")
        a("pcti" + sx, "i = f.index_at_risk_percentile(t%s)\nreturn f.weights[:, i], f.returns[i], f._risk_vector(%s)[i]" % (kw, lab or "None"), {x: "?", "t": "?"}, None, x, "t:num")
    a("max_return", "return f.max_return()", {"r": "+"})
    a("tangency", "return f.tangency(t)", {"r": "+", "t": "-", "k": "?"}, None, "k", "t:num")
    for key in ("tangency", "max_sharpe", "sharpe"):
        a("sel_" + key, "s = E._build_selector(%r, {'risk_free_rate': t}, 'x')\nreturn s(f)" % key, {"r": "+", "t": "-", "k": "?"}, None, "k", "t:num", False)
    for key in ("min_risk", "minimum_risk"):
        for lab, x in (("", "k"), (", 'risk_label': 'Alt'", "v")):
            a("sel_%s%s" % (key, "_alt" if lab else ""), "s = E._build_selector(%r, {%s}, 'x')\nreturn s(f)" % (key, lab[2:]), {x: "-"}, None, x, "", False)
    for key in ("max_return", "maximum_return"):
        a("sel_" + key, "s = E._build_selector(%r, {}, 'x')\nreturn s(f)" % key, {"r": "+"}, None, "k", "", False)
    for lab, x in (("", "k"), (", 'risk_label': 'Alt'", "v")):
        sx = "_alt" if lab else ""
        for key in ("risk_target", "max_return_subject_to_risk"):
            a("sel_" + key + sx, "s = E._build_selector(%r, {'max_risk': t%s}, 'x')\nreturn s(f)" % (key, lab), {"r": "+"}, ({x: "-", "t": "+"}, True), x, "t:num", False)
        for key in ("risk_match", "risk_nearest"):
            a("sel_" + key + sx, "s = E._build_selector(%r, {'target_risk': t%s}, 'x')\nreturn s(f)" % (key, lab), {x: "?", "t": "?"}, None, x, "t:num", False)
        for key in ("risk_percentile", "risk_pct", "percentile"):
            a("sel_" + key + sx, "s = E._build_selector(%r, {'percentile': t%s}, 'x')\nreturn s(f)" % (key, lab), {x: "?", "t": "?"}, None, x, "t:num", False)
    return o


def picks(I, ax):
    return [x for x in ax if x.startswith("pick:")]


def opposite(a, b):
    return {a, b} == {"+", "-"}


def check(I, v, spec):
    """problems with a query result v: (rule, text)"""
    name, text, crit, filt, risk, triple = spec
    parts = list(v.seq) if triple and v.seq is not None and len(v.seq) == 3 else [v]
    out, n = [], 0
    ps = [picks(I, x.ax) for x in parts]
    known = [p[0] for p in ps if len(p) == 1]
    if len(known) == len(parts) > 1 and len(set(known)) > 1:
        out.append(("different-columns", "weights, return and risk are read at different positions"))
    for what, x, need in zip(("weights", "return", "risk"), parts, ("W", "r", risk)):
        n += 1
        if need not in x.may and x.may:
            out.append(("wrong-part", "the %s reported do not come from the frontier's %s" % (what, {"W": "weights", "r": "returns", "k": "risks", "v": "requested risk vector"}[need])))
    if known:
        d = I.picks[known[0]]
        n += 1
        for s, want in crit.items():
            got = d["pol"].get(s)
            if s not in d["may"]:
                out.append(("criterion", "the column is chosen without looking at the %s" % NAMES[s]))
            elif opposite(want, got) or want == "?" and got in ("+", "-"):
                out.append(("criterion", "the column is chosen for the %s %s, not for %s" % ({"+": "largest", "-": "smallest"}[got], NAMES[s], {"+": "the largest", "-": "the smallest", "?": "the distance or ratio asked for"}[want])))
        if filt is not None:
            m = [I.masks[l] for x in d["of"] for l in [x] if l in I.masks]
            n += 1
            if not m and "t" not in d["may"] and not any("t" in q["may"] for q in I.masks.values()):
                out.append(("criterion", "the limit passed by the caller never restricts the columns considered"))
            for q in m:
                c = I.masks.get(q["vid"])
                if c is None:
                    continue
                for s, want in filt[0].items():
                    if s not in c["may"]:
                        out.append(("criterion", "the columns considered are restricted without looking at the %s" % NAMES[s]))
                    elif opposite(want, c["pol"].get(s)):
                        out.append(("criterion", "the limit on the %s is applied in the wrong direction" % NAMES["r" if "r" in filt[0] else risk]))
                if filt[1] and not c["incl"]:
                    out.append(("criterion", "a column exactly at the limit is not considered"))
    return out, n, len(known) == len(parts)


NAMES = {"r": "return", "k": "risk", "v": "requested risk", "t": "caller's limit"}


def job(P, spec):
    name, text = spec[:2]
    f = scen.load(P, PRE + text, "_p07_" + name)[name]
    r = run_entry(P, f, scen.make(f), opts={"client": True, "ports": True})
    I, fs, n, ok = r.I, [], 0, 0
    for ev in r.events:
        if ev["kind"] == "misalign" and ev["cls"] == "port":
            fs.append(finding(P, "wrong-position", ev, "%s: positions counted in one list of portfolios are used (%s) in another" % (name, ev["op"]), name))
    for st, v in r.outs:
        bad, m, full = check(I, v, spec)
        n += m
        ok += full
        for rule, txt in bad:
            q = last_pick(P, r)
            fs.append(Finding(rule, q[0], "%s: %s" % (name, txt), q[1], (name,), q[2]))
    return {"name": name, "f": fs, "outs": len(r.outs), "n": n, "full": ok, "visited": sorted(getattr(I, "visited", []))}


def last_pick(P, r):
    """the construct a query finding is reported at: where a position was last chosen"""
    for ev in reversed(r.events):
        if ev["kind"] in ("libcall", "extmethod") and str(ev.get("name", "")).endswith(("argmin", "argmax")):
            return construct(P, ev), ev["line"], rel(P, ev["file"])
    return "PortfolioFrontier", 0, "pyvallocation/portfolioapi.py"


WR = "w = PortfolioWrapper(AssetsDistribution(%s))\n"


def builders():
    o = []
    for nm, d, ps in (("m", "mu=mu, cov=cov", "mu:arr cov:arr"), ("ms", "mu=mu, cov=cov, scenarios=R, probabilities=p", "mu:arr cov:arr R:arr p:arr"), ("s", "scenarios=R, probabilities=p", "R:arr p:arr")):
        for fn, call, more in (("var", "variance_frontier(n)", "n:int"), ("cvar", "cvar_frontier(n, seed=sd)", "n:int sd:int"), ("cvar_raw", "cvar_frontier(n, seed=sd, enforce_convexity=False)", "n:int sd:int"), ("rob", "robust_lambda_frontier(n)", "n:int"),
                               ("rob_cov", "robust_lambda_frontier(n, return_cov=c2)", "n:int c2:arr"), ("rrp", "relaxed_risk_parity_frontier(n, mm)", "n:int mm:num"), ("rrpl", "relaxed_risk_parity_frontier(target_multipliers=tm, include_risk_parity=inc)", "tm:arr inc:bool")):
            t = S("b_%s_%s" % (fn, nm), ps + " " + more, WR % d + "return w." + call)
            o.append((t[0], t[1].replace("NAME", t[0], 1)))
    return o


def bjob(P, it):
    name, text = it
    f = scen.load(P, PRE + text, "_p07_" + name)[name]
    r = run_entry(P, f, scen.make(f), opts={"client": True, "ports": True})
    I, fs, n = r.I, [], 0
    sites = {}
    for ev in r.events:
        if ev["kind"] == "misalign" and ev["cls"] == "port":
            fs.append(finding(P, "wrong-position", ev, "%s: a quantity of the portfolios in one order is combined (%s) with one in another order" % (name, ev["op"]), name))
        if ev["kind"] != "construct" or ev["cls"] != "PortfolioFrontier" or not ev["kw"]:
            continue
        st, got = ev["state"], {}
        for k, v in ev["kw"].items():
            for what, x in parts(I, st, k, v):
                c = frozenset(y for y in x if y.startswith("port:"))
                if c:
                    got[what] = c
        n += len(got)
        w = got.pop("weights", None)
        d = sites.setdefault((ev["file"], ev["line"]), (ev, {}))[1]
        for what, c in got.items():
            if w:
                d.setdefault(what, []).append(bool(c & w))
    for ev, d in sites.values():
        for what, oks in sorted(d.items()):
            if not (any(oks) if what.startswith("alternate") else all(oks)):
                fs.append(finding(P, "columns-misaligned", ev, "%s: a frontier is built whose %s follow another order of portfolios than its weights" % (name, what), name))
    return {"name": name, "f": fs, "outs": len(r.outs), "n": n, "full": len(sites), "visited": sorted(getattr(I, "visited", []))}


def parts(I, st, k, v):
    """(what, order) of each per-portfolio part of a frontier being built"""
    if k in ("weights", "returns", "risks"):
        yield k, I.N(v, st).ax
    elif k == "alternate_risks":
        for r, o in I.objs(st, v):
            for key, x in sorted((o.keys or {}).items(), key=repr):
                yield "alternate risks (%s)" % key, I.N(x, st).ax | (I.N(o.elem, st).ax if o.elem is not None else frozenset())      # (rewritten under a computed label)
            if o.elem is not None:
                yield "alternate risks", I.N(o.elem, st).ax
    elif k == "metadata":
        for r, o in I.objs(st, v):
            if o.kind == "list" and o.elem is not None and o.elem.ty is not None and o.elem.ty <= {"dict"}:
                t = [x for x in o.elem.tags if type(x) is tuple and x[0] == "at"]
                yield k, t[0][2] if t else frozenset(["port:loop"])


def run(P, tier):
    its, bs = programs(), builders()
    fs, vis = [], set()
    R, B = pmap(P, job, its), pmap(P, bjob, bs)
    for d in R + B:
        fs += d["f"]
        vis |= set(d["visited"])
    full = sum(d["full"] for d in R)
    if sum(d["outs"] > 0 for d in R + B) < (len(its) + len(bs)) // 2:
        raise AnalysisBroken("only %d of %d frontier programs return" % (sum(d["outs"] > 0 for d in R + B), len(its) + len(bs)))
    return fs, {"query_programs": len(its), "results_whose_position_is_known": full, "query_obligations": sum(d["n"] for d in R), "building_programs": len(bs), "frontiers_built": sum(d["full"] for d in B), "parts_with_known_order": sum(d["n"] for d in B),
                "functions_interpreted": len(vis),
                "explanation": "%d client programs query a frontier whose weights, returns, risks and alternate risks follow one order of portfolios; positions found by argmin/argmax/sorting/conditions remember the vector they number and the monotone direction in which they were chosen. Obligations: no position is used in another list than the one it numbers; weights, return and risk are read at one position; each comes from its own part of the frontier; the direction of the choice and of the caller's limit is the documented one. %d programs build frontiers: every per-portfolio part follows the order of the weights" % (len(its), len(bs)),
                "assumptions": ["a frontier has several portfolios and its vectors are aligned when it is constructed by the caller", "lists filled side by side in one loop are aligned"]}
