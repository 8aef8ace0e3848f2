"""run the proof harnesses of one property; each in its own process"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "..", "contracts")]
sys.setrecursionlimit(20000)

_H = None


def _init(prop, repo):
    global _H
    import vc
    L = vc.Loader(repo)
    try:
        mod = importlib.import_module(prop)
        _H = mod.harnesses(L)
    except BaseException as e:
        _H = e


def _one(args):
    k, budget, scale = args
    import vc
    h = _H[k]
    kw = dict(h.prove_kw)
    if scale != 1:
        kw["scale"] = scale
        h.prove_kw = kw
    t0 = time.time()
    try:
        r = vc.verify(h, budget)
        out = {"name": h.name, "functions": h.functions, "status": r.status, "reason": r.reason, "obligations": [list(o) for o in r.obligations], "paths": r.paths,
               "time": r.time, "notes": list(dict.fromkeys(map(str, r.notes)))[:20], "invariants": getattr(r, "invariants", {})}
    except BaseException as e:
        out = {"name": h.name, "functions": h.functions, "status": "error", "reason": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-3000:], "obligations": [], "paths": 0,
               "time": time.time() - t0, "notes": [], "invariants": {}}
    return k, out


def _child(conn, k, budget, scale):
    try:
        conn.send(_one((k, budget, scale)))
    finally:
        conn.close()


def run(prop, repo="/repo", budget=240.0, jobs=8, only=None, scale=1, wall=600.0, mem_gb=3, verbose=False):
    """-> (list of results, load error or None)"""
    _init(prop, repo)
    if isinstance(_H, BaseException):
        return [], "".join(traceback.format_exception(_H))[-3000:]
    todo = [k for k, h in enumerate(_H) if only is None or any((o[1:] == h.name) if o[0] == "=" else (o in h.name) for o in only)]
    ctxm = mp.get_context("fork")
    running, res, t0 = {}, {}, time.time()
    queue = list(todo)
    while queue or running:
        while queue and len(running) < jobs:
            k = queue.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=_lim, args=(b, k, budget, scale, mem_gb))
            p.start()
            b.close()
            running[k] = (p, a, time.time())
        for k in list(running):
            p, a, ts = running[k]
            done = None
            if a.poll(0.02 if len(running) < 4 else 0.005):
                try:
                    done = a.recv()[1]
                except EOFError:
                    done = {"status": "unsupported", "reason": "the verifier process ended (memory limit)"}
            elif time.time() - ts > budget + 60 or time.time() - t0 > wall:
                done = {"status": "unsupported", "reason": "time budget of the proof exhausted"}
            if done is not None:
                p.kill()
                p.join()
                a.close()
                done = {"name": _H[k].name, "functions": _H[k].functions, "obligations": [], "paths": 0, "time": time.time() - ts, "notes": [], "invariants": {}, **done}
                res[k] = done
                del running[k]
                if verbose:
                    print(f"{done['status']:12s} {done['name']:50s} {len(done['obligations']):4d} obl {done['paths']:4d} paths {done['time']:.1f}s {done['reason'] or ''}", flush=True)
                    if verbose > 1 or done["status"] not in ("proved",):
                        for o in done["obligations"]:
                            if o[1] != "proved" or verbose > 1:
                                print("      ", o[1], o[2], o[0], o[3])
                        for x in done["notes"][:6]:
                            print("       note", x)
                        if done.get("trace"):
                            print(done["trace"][-600:])
    return [res[k] for k in todo], None


def _lim(conn, k, budget, scale, mem_gb):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    _child(conn, k, budget, scale)


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--budget", type=float, default=240)
    ap.add_argument("--wall", type=float, default=700)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--out")
    ap.add_argument("-v", action="count", default=0)
    a = ap.parse_args()
    t0 = time.time()
    rs, err = run(a.prop, a.repo, a.budget, a.jobs, a.only, a.scale, a.wall, verbose=a.v)
    out = {"results": rs, "load_error": err, "wall": time.time() - t0}
    if a.out:
        json.dump(out, open(a.out, "w"))
    elif err:
        print(err)
    else:
        print({s: sum(r["status"] == s for r in rs) for s in {r["status"] for r in rs}}, f"{time.time() - t0:.1f}s", sum(len(r["obligations"]) for r in rs), "obligations")
