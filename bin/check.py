#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--record] [--repo DIR]

Decides one property on the current tree of /repo:
 1. the proof run: every contract harness of contracts/cXX.py is executed over the functions of the repository (parsed afresh), and every
    proof obligation generated is given to the prover (engine/prove.py, z3 back end);
 2. the concrete run: concrete/cXX.py replays the same contracts on the real code with generated inputs - it is the counterexample
    search for failed obligations and the bounded stand-in for functions out of the verifier's reach.
exit 0: held; exit 1 + VIOLATION line: broken; other: the check itself could not run."""
import argparse
import ast
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_PY = "/opt/venv/bin/python"
TRUSTED = [
    "engine/vc.py (obligation generator: symbolic execution of the Python source, fetched from /repo on every run), engine/sym.py, engine/symcol.py",
    "engine/nf.py, engine/terms.py (normal form of finite sums/disjunctions) and engine/prove.py (instantiation); every leaf query is decided by z3",
    "assumed contracts of the external libraries: engine/gbstub.py (python-graphblas operations entrywise over mathematical reals/integers/booleans), engine/symcol.py (built-in collections), numpy functions it lists",
    "machine arithmetic is treated as mathematical (no integer overflow, no rounding, no NaN/inf); type names are tracked only where the code branches on them",
    "graph well-formedness precondition: square adjacency matrix, symmetric when undirected, label<->position maps mutually inverse; established by the constructors, see C03",
    "CPython itself; exceptions from resource exhaustion are not modelled",
]


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""))


def tree_hash(repo):
    """hash of the package's syntax trees without comments and docstrings"""
    h = hashlib.sha256()
    base = os.path.join(repo, "graphblas_algorithms")
    for d, _, fs in sorted(os.walk(base)):
        if "tests" in d.split(os.sep):
            continue
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode())
                try:
                    h.update(ast.dump(ast.parse(open(p).read())).encode())
                except SyntaxError:
                    h.update(b"?")
    return h.hexdigest()


def load_known(prop):
    """known-findings.txt: 'known: property=Cxx site=<site> | text' and 'fixed: property=Cxx <commit> <text>' lines"""
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={prop} site="):
                site, _, text = line.split("site=", 1)[1].partition(" | ")
                out[site.strip()] = text.strip()
    return out


class Run:
    def __init__(self, a):
        self.a = a
        self.prop = a.prop.upper()
        self.low = self.prop.lower()
        self.tmp = tempfile.mkdtemp(prefix=f"vf-{self.low}-")
        self.env = dict(os.environ, VERIF_REPO=a.repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", VERIF_TIER=a.tier)
        self.known = load_known(self.prop)
        self.t0 = time.time()
        self.conc = os.path.join(ROOT, "concrete", self.low + ".py")
        self.contract = os.path.join(ROOT, "contracts", self.low + ".py")

    # ---- proof part
    def start_proof(self, only=None, scale=1, jobs=None, budget=None, wall=None):
        out = os.path.join(self.tmp, f"proof{time.time()}.json")
        cmd = ["python3-vt", os.path.join(ROOT, "engine", "runh.py"), self.low, "--repo", self.a.repo, "--out", out, "--budget", str(budget or self.a.hbudget), "--wall", str(wall or self.a.pwall),
               "--jobs", str(jobs or self.a.jobs), "--scale", str(scale)]
        if only:
            cmd += ["--only"] + ["=" + o for o in only]
        lf = open(os.path.join(self.tmp, "proof.log"), "w")
        return subprocess.Popen(cmd, stdout=lf, stderr=lf, env=self.env, cwd=self.tmp), out

    def end_proof(self, job, timeout):
        p, out = job
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
        if os.path.exists(out):
            d = json.load(open(out))
            return d["results"], d["load_error"]
        return None, "the verifier did not finish: " + open(os.path.join(self.tmp, "proof.log")).read()[-800:]

    # ---- concrete part
    def start_conc(self, budget, seed, only=None):
        out = os.path.join(self.tmp, f"conc{seed}-{time.time()}.json")
        cmd = [VENV_PY, self.conc, "--budget", str(budget), "--seed", str(seed), "--out", out, "--known", json.dumps(sorted(self.known))]
        if only:
            cmd += ["--only", only]
        lf = open(out + ".log", "w")
        return subprocess.Popen(cmd, stdout=lf, stderr=lf, env=self.env, cwd=self.tmp), out

    def end_conc(self, job, timeout):
        p, out = job
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
        if os.path.exists(out):
            try:
                return json.load(open(out))
            except ValueError:
                pass
        self.conc_error = open(out + ".log").read()[-1500:]
        return None

    def replay_path(self, name):
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, f"{self.prop}-{name}.json")

    def violation(self, text, payload, suffix=""):
        p = self.replay_path(hashlib.sha1(text.encode()).hexdigest()[:10])
        json.dump(payload, open(p, "w"), indent=1, default=str)
        print(f"VIOLATION property={self.prop} replay={p}{suffix}", flush=True)
        print("  " + text.replace("\n", " ")[:600], flush=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--record", action="store_true", help="rewrite baseline/<id>.json from this run (maintenance; never used by a registered command)")
    ap.add_argument("--jobs", type=int, default=7)
    a = ap.parse_args()
    quick = a.tier != "thorough"
    a.hbudget, a.pwall = (200, 420) if quick else (500, 1500)
    cbudget = 60 if quick else 600
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = Run(a)
    try:
        return decide(r, a, quick, cbudget, seed)
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)


def decide(r, a, quick, cbudget, seed):
    has_proof, has_conc = os.path.exists(r.contract), os.path.exists(r.conc)
    basep = os.path.join(ROOT, "baseline", r.low + ".json")
    base = json.load(open(basep)) if os.path.exists(basep) else {"harnesses": {}, "tree": None}
    same_tree = base.get("tree") == tree_hash(a.repo)
    expected = {k for k, v in base["harnesses"].items() if v["status"] == "proved"}

    pj = r.start_proof() if has_proof else None
    nsh = 1 if quick else 3
    cj = [r.start_conc(cbudget, seed * 1000 + i) for i in range(nsh)] if has_conc else []
    conc = [r.end_conc(j, cbudget * 3 + 120) for j in cj]
    if any(c is None for c in conc):
        if pj:
            pj[0].kill()
        print(f"{r.prop}: the concrete run could not be carried out on this tree:\n{r.conc_error}")
        return 2
    failures = [f for c in conc for f in c["failures"]]
    new = [f for f in failures if f["site"] not in r.known]
    proof, perr = r.end_proof(pj, a.pwall + 120) if pj else ([], None)
    if proof is None:
        proof = []
    notes, failed = [], []
    if perr:
        notes.append("proof run not available: " + perr[-1500:])
    # harnesses that were proved on the recorded tree and are not now
    byname = {h["name"]: h for h in proof}
    redo = [h["name"] for h in proof if h["status"] != "proved" and (h["name"] in expected or a.record)]
    if redo and not new:
        left = 840 - (time.time() - r.t0) if quick else 3000
        w = max(60, min(240, left - 260))
        job = r.start_proof(only=redo, scale=2.5, budget=w, wall=w)
        again, _ = r.end_proof(job, w + 90)
        for h in again or []:
            if h["status"] == "proved" or byname[h["name"]]["status"] != "failed" or h["status"] == "failed":
                byname[h["name"]] = h
        proof = list(byname.values())
    for h in proof:
        if h["name"] in expected and h["status"] == "failed":
            failed.append(h)
    # an obligation that held before fails now: look harder for an input that shows it on the real code
    extra = None
    if failed and not new and has_conc and not same_tree:
        left = 860 - (time.time() - r.t0) if quick else 1200
        xb = max(20, min(150, left - 40))
        jobs = [r.start_conc(xb, seed * 1000 + 100 + i) for i in range(4)]
        for j in jobs:
            c = r.end_conc(j, xb + 60)
            if c:
                conc.append(c)
                extra = (extra or 0) + sum(x["evaluations"] for x in c["checks"].values())
                new += [f for f in c["failures"] if f["site"] not in r.known]
    violations = []
    seen = set()
    for f in new:
        if f["site"] in seen:
            continue
        seen.add(f["site"])
        violations.append({"site": f["site"], "message": f["message"]})
        r.violation(f"{f['site']}: {f['message']}", {"property": r.prop, "check": f["check"], "case": f["case"], "message": f["message"],
                    "failed_obligations": [{"harness": h["name"], "obligations": [o for o in h["obligations"] if o[1] != "proved"]} for h in failed],
                    "replay": f"VERIF_REPO={a.repo} {VENV_PY} {r.conc} --replay <this file>"})
    if failed and not new:
        if same_tree:
            notes.append("the sources equal the recorded tree on which these obligations were discharged; the solver ran out of resources this time: " + ", ".join(h["name"] for h in failed))
        else:
            for h in failed[:3]:
                obl = [o for o in h["obligations"] if o[1] != "proved"]
                violations.append({"harness": h["name"], "obligations": obl[:5]})
                r.violation(f"contract {h['name']} of {', '.join(h['functions'])}: obligation(s) no longer discharged: {[o[0] for o in obl][:5]}; reason: {h['reason']}",
                            {"property": r.prop, "harness": h["name"], "functions": h["functions"], "failed_obligations": obl, "reason": h["reason"], "notes": h["notes"], "verifier": "engine/prove.py (z3)",
                             "reproduce": f"python3-vt {ROOT}/engine/runh.py {r.low} --only ={h['name']} -v"}, " no-failing-input-found")
    for site in sorted({f["site"] for c in conc for f in c["failures"] if f["site"] in r.known}):
        print(f"KNOWN-FINDING: property={r.prop} {site}: {r.known[site]}")

    proved = [h for h in proof if h["status"] == "proved"]
    bounded = [h for h in proof if h["status"] != "proved"]
    obl = sum(len(h["obligations"]) for h in proved) + sum(len(h["obligations"]) for h in bounded)
    dis = sum(len([o for o in h["obligations"] if o[1] == "proved"]) for h in proof)
    ev = sum(x["evaluations"] for c in conc for x in c["checks"].values())
    nt = sum(x["distinct_nontrivial"] for c in conc for x in c["checks"].values())
    funcs = sorted({f for h in proved for f in h["functions"]})
    level = "proof" if proved else "exploration"
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": f"python3-vt engine/runh.py {r.low} -v", "trusted_base": TRUSTED,
        "functions_under_contract": funcs,
        "contracts_proved": [{"contract": h["name"], "obligations": len(h["obligations"]), "paths": h["paths"], "seconds": round(h["time"], 2), "invariants": h.get("invariants", {})} for h in proved],
        "contracts_not_proved_bounded_stand_in": [{"contract": h["name"], "functions": h["functions"], "status": h["status"], "reason": str(h["reason"])[:300], "undischarged": [o[0] for o in h["obligations"] if o[1] != "proved"][:6]} for h in bounded],
        "solver_seconds": round(sum(h["time"] for h in proof), 1), "back_end": "z3 (python3-vt)",
        "evaluations": ev, "distinct_nontrivial": nt,
        "rule": "concrete contract evaluation on the real code: graphs of 0-8 nodes with shuffled, partly non-integer labels, random/special edge sets, self-loops, int/float/bool/iso weights, earlier queries ('heat'); compared with independent definitions or NetworkX; a case is non-trivial when its graph has an edge (or the check's own condition holds); generated cases are distinct by construction",
        "concrete_checks": {k: sum(c["checks"].get(k, {}).get("evaluations", 0) for c in conc) for k in sorted({k for c in conc for k in c["checks"]})},
        "samples": [s for c in conc for s in c["samples"]][:4],
    }
    if not cov["samples"]:
        cov["samples"] = [h["name"] for h in proved[:3]]
    if not proved:
        for k in ("checker_cmd", "trusted_base"):
            cov.pop(k)
    evd = {"property": r.prop, "tier": "quick" if quick else "thorough", "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - r.t0, 2),
           "assumptions": TRUSTED + notes, "violations": violations}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(ROOT, "evidence", r.prop + ".json"), "w"), indent=1, default=str)
    if a.record:
        json.dump({"tree": tree_hash(a.repo), "harnesses": {h["name"]: {"status": h["status"], "obligations": len(h["obligations"]), "seconds": round(h["time"], 1)} for h in proof}}, open(basep, "w"), indent=0, sort_keys=True)
    print(f"{r.prop}: {len(proved)}/{len(proof)} contracts proved, {dis}/{obl} obligations discharged, {ev} concrete evaluations, {round(time.time() - r.t0)} s" + ("".join("\n  note: " + n[:300] for n in notes)))
    for h in bounded:
        print(f"  bounded only: {h['name']} ({h['status']}: {str(h['reason'])[:160]})")
    if violations:
        return 1
    if expected and not proof:
        # a syntax the generator cannot load at all: only the bounded part has been decided
        print("  no obligation was generated")
        return 0 if ev else 2
    if not ev and not dis:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
