"""Check driver: runs the abstract interpreter over entry points, collects findings, writes evidence."""
import json, os, sys, time, multiprocessing as mp, traceback
from .values import *
from .values import _EMPTY
from .project import Project, AnalysisBroken, Func, Cls
from .interp import Interp, State, Budget
from . import drive

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASCADE = ((20, 40, 50000), (6, 8, 60000), (3, 3, 80000), (2, 2, 400000))


def set_tier(tier):
    """thorough: keep twice as many abstract states apart, and allow four times the interpretation steps"""
    global CASCADE
    if tier == "thorough":
        CASCADE = ((40, 80, 250000),) + CASCADE


class Finding:
    def __init__(self, rule, construct, detail, line=0, path=(), file=""):
        self.rule, self.construct, self.detail, self.line, self.path, self.file = rule, construct, detail, line, tuple(path), file

    def key(self):
        return "%s | %s | %s" % (self.rule, self.construct, self.detail)

    def show(self):
        return {"rule": self.rule, "construct": self.construct, "detail": self.detail, "at": "%s:%s" % (self.file, self.line), "path": list(self.path)}


def interp(P, level=0, **opts):
    ms, mf, steps = CASCADE[level]
    o = dict(maxstates=ms, maxfork=mf, maxsteps=steps)
    o.update(opts)
    return Interp(P, o)


class Run:
    """one interpreted entry point"""

    def __init__(self, I, outs, raises, level):
        self.I, self.outs, self.raises, self.level = I, outs, raises, level
        self.events = I.events


def run_entry(P, f, make, start=0, hooks=None, opts=None):
    """interpret f from the abstract arguments make(st) returns, degrading precision when the step budget is exceeded"""
    err = None
    for level in range(start, len(CASCADE)):
        I = interp(P, level, **(opts or {}))
        if hooks:
            I.hooks.update(hooks)
        st = State({}, {}, frozenset())
        sv, args, kw = make(st, I)
        try:
            outs, raises = I.run(f, args, st, self_v=sv, kwargs=kw)
            return Run(I, outs, raises, level)
        except Budget as e:
            err = e
    raise AnalysisBroken("no precision level terminates within budget for %s (%s)" % (f.full, err))


def generic_run(P, f, c, **kw):
    return run_entry(P, f, lambda st, I: drive.gargs(f, c, st, P), **kw)


_P = None
_JOB = None


def _work(x):
    try:
        return ("ok", _JOB(_P, x))
    except AnalysisBroken as e:
        return ("broken", str(e))
    except Exception:
        return ("broken", traceback.format_exc())


FAILED = []      # items no answer was found for


def pmap(P, job, items, procs=8, full=False):
    """job(P, item) -> picklable, over a process pool.  Items the analyser cannot handle are left out (None when full) and reported in the evidence; too many of them end the check"""
    global _P, _JOB
    _P, _JOB = P, job
    items = list(items)
    if os.environ.get("VP_SERIAL") or len(items) < 2:
        res = [_work(x) for x in items]
    else:
        with mp.get_context("fork").Pool(min(procs, len(items))) as p:
            res = p.map(_work, items, chunksize=1)
    bad = [r[1] for r in res if r[0] != "ok"]
    if len(bad) > max(1, len(items) // 4) or bad and len(items) < 2:
        raise AnalysisBroken("%d of %d items could not be analysed; first: %s" % (len(bad), len(items), bad[0]))
    FAILED.extend(bad)
    return [r[1] if r[0] == "ok" else None for r in res if full or r[0] == "ok"]


def root(r):
    """root region and path of a region"""
    while isinstance(r, tuple) and r and r[0] == "sub":
        r = r[1]
    return r


def rel(P, path):
    return os.path.relpath(path, P.repo)


def construct(P, ev):
    """file:function of an event"""
    return "%s:%s" % (rel(P, ev["file"]), ev["stack"][-1].split(":", 1)[1] if ev["stack"] else "?")


def dedupe(fs):
    out = {}
    for f in fs:
        out.setdefault(f.key(), f)
    return list(out.values())


# ------------------------------------------------------------------ known findings
def known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid:
                    out.append(d)
    return out


def main(pid, rule_fn, tier, seed, limits=None):
    """rule_fn(P, tier) -> (findings, coverage dict)"""
    t0 = time.time()
    sys.setrecursionlimit(20000)
    P = Project()
    findings, cov = rule_fn(P, tier)
    findings = dedupe(findings)
    kn = known(pid)
    new, old = [], []
    for f in findings:
        hit = [k for k in kn if k["rule"] == f.rule and k["construct"] == f.construct and (k.get("detail") in (None, f.detail))]
        (old if hit else new).append((f, hit[0] if hit else None))
    for f, k in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, k.get("what", f.key())))
    cov = dict(cov)
    cov["source_digest"] = P.digest
    cov["known_findings_seen"] = len(old)
    cov["items_not_analysed"] = len(FAILED)
    if FAILED:
        cov["not_analysed_because"] = [x.strip().splitlines()[-1][:300] for x in FAILED[:5]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": cov.pop("assumptions", []) + ["library behaviour is as modelled in /verif/sa/lib.py (numpy 2, pandas 3 copy-on-write, cvxopt, scipy)"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if new:
        rp = os.path.join(VERIF, "evidence", "%s.violations.json" % pid)
        json.dump([f.show() for f, _ in new], open(rp, "w"), indent=1)
        for f, _ in new:
            print("  %s at %s:%s: %s" % (f.rule, f.file or f.construct, f.line, f.detail))
            if f.path:
                print("     via %s" % " -> ".join(f.path))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    json.dump(ev, open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w"), indent=1)
    print("%s: %d violation(s), %d known, %.1fs" % (pid, len(new), len(old), time.time() - t0))
    return 1 if new else 0
