"""Build and confirm planted bugs:  python3 tools/seed.py SPEC.py ...   (spec: PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS)
A scratch copy of /repo is patched; the stable tests must pass there, the demonstration must fail there and pass on /repo.
Then the property's check is run against the scratch copy (VP_REPO) and the outcome printed."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository under test
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests(repo, w):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONPATH=repo + ":/opt/vp/plugins", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLCONFIGDIR=w + "/mpl")
    sh("/opt/venv/bin/python -m pytest -q --tb=short -p no:cacheprovider -p vp_seed --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/j.xml" % w, cwd=repo, env=env)
    ok = set()
    for tc in ET.parse(w + "/j.xml").iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add((tc.get("classname") or "") + "::" + tc.get("name"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in stable if t not in ok]


def one(spec, check=True):
    s = runpy.run_path(spec)
    id = os.path.splitext(os.path.basename(spec))[0]
    w = tempfile.mkdtemp(prefix="seed.")
    try:
        repo = w + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in s["EDITS"]:
            t = open(repo + "/" + f).read()
            if t.count(old) != 1:
                return print("%s: EDIT matches %d times in %s: %r" % (id, t.count(old), f, old[:60]))
            open(repo + "/" + f, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=repo).stdout
        bad = tests(repo, w)
        d = w + "/d"
        os.mkdir(d)
        open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        a = sh("bash %s/demo.sh" % d, cwd="/repo")
        b = sh("bash %s/demo.sh" % d, cwd=repo)
        print("%s [%s]: tests %s; demo clean=%d patched=%d" % (id, s["PROP"], "ok" if not bad else "FAIL %s" % bad[:5], a.returncode, b.returncode))
        if a.returncode:
            print(a.stderr[-1500:])
        if not b.returncode or "-v" in sys.argv:
            print(b.stdout[-500:], b.stderr[-800:])
        good = not bad and a.returncode == 0 and b.returncode != 0
        if good:
            o = HERE + "/seeded/" + id
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(diff)
            shutil.copy(d + "/demo.py", o)
            shutil.copy(d + "/demo.sh", o)
            json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(o + "/meta.json", "w"), indent=1)
        if check:
            c = sh("python3 check.py %s" % s["PROP"], cwd=HERE, env=dict(os.environ, VP_REPO=repo))
            print("   %s exit=%d %s" % ("kept" if good else "NOT KEPT", c.returncode, "\n   ".join(c.stdout.strip().splitlines()[:4] + c.stdout.strip().splitlines()[-2:]) + c.stderr[-300:]))
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        if not a.startswith("-"):
            one(a, "-n" not in sys.argv)
