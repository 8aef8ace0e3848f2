#!/usr/bin/env python3
"""seed.py make SPEC.py   build /verif/seeded/<id>/ from a spec (list SEEDS of dicts id, property, edits=[(file, old, new)], needs, what, demo)
seed.py verify ID...      in a scratch copy of /repo: demo passes unchanged, fails with the patch, own + nx tests pass, and does check.py report it?
Options: --notests --nocheck"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(d, "repo")
    sh(["cp", "-a", "/repo", r])
    return d, r

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d, r = copy()
    try:
        for s in ns["SEEDS"]:
            sh(["git", "-C", r, "checkout", "--", "."])
            for f, old, new in s["edits"]:
                p = os.path.join(r, "graphblas_algorithms", f)
                t = open(p).read()
                n = t.count(old)
                if n != s.get("count", 1):
                    sys.exit(f"{s['id']}: {n} matches in {f}")
                open(p, "w").write(t.replace(old, new))
            diff = sh(["git", "-C", r, "diff"]).stdout
            o = os.path.join(SEEDED, s["id"])
            os.makedirs(o, exist_ok=True)
            open(os.path.join(o, "patch.diff"), "w").write(diff)
            open(os.path.join(o, "demo.sh"), "w").write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(o, "demo.sh"), 0o755)
            open(os.path.join(o, "demo.py"), "w").write(s["demo"].lstrip())
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
            print("made", s["id"])
    finally:
        shutil.rmtree(d)

def verify(i, tests=True, check=True):
    o = os.path.join(SEEDED, i)
    prop = json.load(open(os.path.join(o, "meta.json")))["property"]
    d, r = copy()
    out = {"id": i}
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONPATH=r)
    try:
        env0 = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
        out["demo0"] = sh(["bash", os.path.join(o, "demo.sh")], cwd=r, env=env0).returncode
        a = sh(["git", "-C", r, "apply", os.path.join(o, "patch.diff")])
        if a.returncode:
            out["apply"] = a.stdout
            return out
        p = sh(["bash", os.path.join(o, "demo.sh")], cwd=r, env=env0)
        out["demo1"] = p.returncode
        out["demo_tail"] = p.stdout.strip().split("\n")[-1][:150]
        if tests:
            t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-x"], cwd=r, env=env)
            out["own"] = t.stdout.strip().split("\n")[-1][:100]
            nx = sh([PY, "-c", "import networkx,os;print(os.path.dirname(networkx.__file__))"]).stdout.strip()
            t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--pyargs", "networkx", "-n", "4", f"--ignore={nx}/algorithms/isomorphism/tests/test_tree_isomorphism.py"], cwd=r,
                   env=dict(env, NETWORKX_GRAPH_CONVERT="graphblas", NETWORKX_TEST_BACKEND="graphblas", NETWORKX_FALLBACK_TO_NX="True"))
            out["nx"] = t.stdout.strip().split("\n")[-1][:120]
        if check:
            c = sh([sys.executable, os.path.join(ROOT, "bin/check.py"), prop, "--repo", r, "--jobs", "3"], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            out["check"] = c.returncode
            v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
            out["line"] = (v[0] if v else c.stdout.strip().split("\n")[-1])[:200]
    finally:
        shutil.rmtree(d)
    return out

if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    if a[0] == "make":
        make(a[1])
    else:
        ids = a[1:] or sorted(os.listdir(SEEDED))
        for i in ids:
            print(json.dumps(verify(i, "--notests" not in sys.argv, "--nocheck" not in sys.argv)), flush=True)
