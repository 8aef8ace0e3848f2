"""Bounded cross-check and counterexample replay against the real code (run under the repository's interpreter)."""
import json
import math
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import warnings
warnings.simplefilter("ignore")
import networkx as nx
import numpy as np
import graphblas as gb
from graphblas import Matrix, Vector, Scalar
import graphblas_algorithms as ga
from graphblas_algorithms import nxapi, algorithms as alg
import graphblas_algorithms.linalg as linalg

assert ga.__file__.startswith(REPO), ga.__file__
INF = math.inf
MAXSITES = int(os.environ.get("VERIF_MAXSITES", "3"))
PROPS_U = ["A", "AT", "offdiag", "U+", "L+", "U-", "L-", "diag", "count_rowwise+", "count_rowwise-", "has_self_edges", "is_iso", "has_negative_edges+", "has_negative_edges-",
           "has_negative_diagonal", "max_element-", "min_element+", "degrees+", "degrees-"]
PROPS_D = PROPS_U + ["count_columnwise+", "count_columnwise-", "total_degrees+", "total_degrees-", "recip_degrees+", "recip_degrees-", "total_recip+", "total_recip-",
                     "row_degrees+", "column_degrees-"]


class Fail(Exception):
    """the property is violated; site names the kind of violation"""

    def __init__(self, site, msg):
        Exception.__init__(self, f"{site}: {msg}")
        self.site = site


class Skip(Exception):
    """this input is outside the property"""


# ------------------------------------------------------------------ inputs
def label_list(kind, n, seed=0):
    r = random.Random(seed * 7919 + n)
    if kind == "int":
        return list(range(n))
    if kind == "perm":
        x = list(range(n))
        r.shuffle(x)
        return x
    if kind == "sparse":
        x = r.sample(range(-3, 5 * n + 5), n)
        return x
    if kind == "str":
        x = [chr(97 + k) if k < 26 else f"n{k}" for k in range(n)]
        r.shuffle(x)
        return x
    if kind == "mixed":
        x = [(k, "t") if k % 3 == 0 else f"s{k}" if k % 3 == 1 else k * 10 for k in range(n)]
        r.shuffle(x)
        return x
    raise ValueError(kind)


DT = {"bool": bool, "int": int, "float": float}


class Case:
    """plain description of a graph; JSON round-trips"""


def gen_graph(rng, n=None, directed=None, dtype=None, loops=None, maxn=6, labels=None, weights=None, density=None, minn=0, iso=None):
    n = rng.choice([k for k in (0, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10) if minn <= k <= maxn]) if n is None else n
    directed = rng.random() < 0.5 if directed is None else directed
    dtype = rng.choice(["bool", "int", "float", "float"]) if dtype is None else dtype
    loops = rng.random() < 0.5 if loops is None else loops
    p = density if density is not None else rng.choice([0.0, 0.15, 0.3, 0.3, 0.5, 0.5, 0.7, 0.9, 1.0])
    iso = rng.random() < 0.2 if iso is None else iso
    wk = weights or rng.choice(["pos", "any", "small"])
    w0 = weight(rng, dtype, wk)
    E = []
    for i in range(n):
        for j in range(n):
            if i == j and not loops:
                continue
            if not directed and j < i:
                continue
            if rng.random() < (p if i != j else 0.35):
                w = w0 if iso else weight(rng, dtype, wk)
                E.append([i, j, w])
    rng.shuffle(E)
    return {"n": n, "directed": directed, "dtype": dtype, "edges": E, "labels": labels or rng.choice(["int", "perm", "sparse", "str", "mixed"]), "lseed": rng.randrange(1000), "iso": bool(iso and E)}


def weight(rng, dtype, kind):
    if dtype == "bool":
        return True if kind == "pos" or rng.random() < 0.7 else False
    if dtype == "int":
        if kind == "pos":
            return rng.randint(1, 9)
        if kind == "small":
            return rng.randint(-1, 2)
        return rng.randint(-9, 9)
    if kind == "pos":
        return rng.choice([0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 0.25])
    if kind == "small":
        return rng.choice([0.0, 0.5, 1.0, -0.5, 2.0])
    return rng.choice([-2.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 3.0, 7.25])


class X:
    """a plain graph: n, directed, E {(i, j): w} (both orientations when undirected), labels"""

    def __init__(self, d):
        self.n, self.directed, self.dtype = d["n"], d["directed"], d["dtype"]
        self.d = d
        self.E = {}
        for i, j, w in d["edges"]:
            w = DT[self.dtype](w)
            self.E[i, j] = w
            if not self.directed:
                self.E[j, i] = w
        self.labels = label_list(d["labels"], self.n, d["lseed"])
        self.idx = {k: i for i, k in enumerate(self.labels)}

    def build(self):
        dt = DT[self.dtype]
        ij = sorted(self.E)
        rows, cols = [i for i, _ in ij], [j for _, j in ij]
        if self.d.get("iso"):
            A = Matrix.from_coo(rows, cols, self.E[ij[0]], dtype=dt, nrows=self.n, ncols=self.n)
        elif ij:
            A = Matrix.from_coo(rows, cols, [self.E[e] for e in ij], dtype=dt, nrows=self.n, ncols=self.n)
        elif self.d.get("lseed", 0) % 2:
            A = Matrix.from_coo([], [], dt(1), dtype=dt, nrows=self.n, ncols=self.n)   # no entries, and flagged iso-valued
        else:
            A = Matrix(dt, self.n, self.n)
        cls = ga.DiGraph if self.directed else ga.Graph
        return cls(A, key_to_id={self.labels[i]: i for i in self.order()})

    def order(self):
        """the order of the label dictionary; not always that of the node numbers (a union lists the second graph first)"""
        ids = list(range(self.n))
        s = self.d.get("lseed", 0)
        if s % 3 == 0:
            random.Random(s).shuffle(ids)
        elif s % 3 == 1 and self.n > 1:
            k = 1 + s % (self.n - 1) if self.n > 2 else 1
            if s % 2:
                ids = ids[k:] + ids[:k]
        return ids

    def nx(self, weight="weight"):
        g = nx.DiGraph() if self.directed else nx.Graph()
        g.add_nodes_from(self.labels)
        for (i, j), w in self.E.items():
            g.add_edge(self.labels[i], self.labels[j], **{weight: w})
        return g

    def out(self, i):
        return [j for j in range(self.n) if (i, j) in self.E]

    def inn(self, i):
        return [j for j in range(self.n) if (j, i) in self.E]

    def noloops(self):
        y = X.__new__(X)
        y.__dict__.update(self.__dict__)
        y.E = {e: w for e, w in self.E.items() if e[0] != e[1]}
        return y


def heat(g, props):
    """earlier queries; a failure here is C01's business"""
    for p in props:
        try:
            g.get_property(p)
        except Exception:
            pass


def gen_heat(rng, directed, p=0.6):
    if rng.random() > p:
        return []
    P = PROPS_D if directed else PROPS_U
    return [rng.choice(P) for _ in range(rng.randint(1, 4))]


# ------------------------------------------------------------------ outputs
def py(v):
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, Scalar):
        return v.value
    return v


def vec(v):
    i, x = v.to_coo()
    return dict(zip(i.tolist(), x.tolist()))


def mat(m):
    i, j, x = m.new().to_coo() if hasattr(m, "new") and not hasattr(m, "to_coo") else m.to_coo()
    return {(a, b): c for a, b, c in zip(i.tolist(), j.tolist(), x.tolist())}


def vdict(g, v):
    """vector -> {label: value} by the graph's own numbering, read independently"""
    lab = {i: k for k, i in g._key_to_id.items()}
    return {lab[i]: x for i, x in vec(v).items()}


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        if a == b:
            return True
        a, b = float(a), float(b)
    except Exception:
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_dict(site, got, want, tol=1e-9):
    got = dict(got)
    if set(got) != set(want):
        raise Fail(site, f"keys {sorted(map(repr, got))} expected {sorted(map(repr, want))}")
    for k in want:
        if not close(py(got[k]), want[k], tol):
            raise Fail(site, f"at {k!r}: {got[k]!r} expected {want[k]!r}")


def same(site, got, want, tol=1e-9):
    if isinstance(want, dict):
        return same_dict(site, got, want, tol)
    if isinstance(want, (list, tuple)):
        if len(got) != len(want):
            raise Fail(site, f"{got!r} expected {want!r}")
        for a, b in zip(got, want):
            same(site, a, b, tol)
        return
    if isinstance(want, (set, frozenset)):
        if set(got) != set(want):
            raise Fail(site, f"{set(got)!r} expected {set(want)!r}")
        return
    if isinstance(want, bool):
        if not isinstance(py(got), (bool, np.bool_)) or bool(got) != want:
            raise Fail(site, f"{got!r} expected {want!r}")
        return
    if not close(py(got), want, tol):
        raise Fail(site, f"{got!r} expected {want!r}")


def graph_of(g):
    """(labels in order, {(label, label): w}) of a repository graph"""
    lab = {i: k for k, i in g._key_to_id.items()}
    assert_valid(g)
    return list(g._key_to_id), {(lab[i], lab[j]): w for (i, j), w in mat(g._A).items()}


def assert_valid(g):
    n = g._A.nrows
    if g._A.ncols != n or sorted(g._key_to_id.values()) != list(range(n)):
        raise Fail("graph invariant", f"ids {sorted(g._key_to_id.values())} for a {g._A.shape} matrix")
    if not g.is_directed():
        m = mat(g._A)
        if any(m.get((j, i), None) != w for (i, j), w in m.items()):
            raise Fail("graph invariant", "undirected adjacency is not symmetric")


class Snapshot:
    """adjacency, labels and remembered properties, to check that nothing was changed"""

    def __init__(self, g):
        self.g = g
        self.A, self.dt, self.keys = mat(g._A), g._A.dtype, list(g._key_to_id.items())

    def check(self, site):
        g = self.g
        if mat(g._A) != self.A or g._A.dtype != self.dt:
            raise Fail(f"{site}: graph changed", f"{self.A} became {mat(g._A)}")
        if list(g._key_to_id.items()) != self.keys:
            raise Fail(f"{site}: labels changed", f"{self.keys} became {list(g._key_to_id.items())}")


def raises(site, exc, f, *a, **k):
    try:
        r = f(*a, **k)
    except exc:
        return
    except Exception as e:
        raise Fail(site, f"raised {type(e).__name__}: {e} instead of {exc}")
    raise Fail(site, f"returned {r!r} instead of raising {exc}")


def call(site, f, *a, **k):
    """the property says this call succeeds"""
    try:
        return f(*a, **k)
    except (Fail, Skip):
        raise
    except RecursionError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(x.filename, REPO)}:{x.lineno} {x.name}" for x in tb if REPO in x.filename]
        raise Fail(f"{site}: raises {type(e).__name__}", f"{str(e)[:200]} at {where[-1] if where else '?'}")


# ------------------------------------------------------------------ checks
class Check:
    def __init__(self, name, gen, run, weight=1.0, nontrivial=None, fixed=()):
        self.name, self.gen, self.run, self.weight, self.nontrivial, self.fixed = name, gen, run, weight, nontrivial, list(fixed)


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout


def run_case(chk, case, limit=20):
    """None when the property holds, else (site, message)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        chk.run(case)
    except Skip:
        return "skip"
    except Fail as f:
        return (f.site, str(f)[:1500])
    except Timeout:
        return (f"{chk.name}: no answer", f"no answer within {limit} s")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(x.filename, REPO)}:{x.name}" for x in tb if x.filename.startswith(REPO)]
        return (f"{chk.name}: raises {type(e).__name__}", f"{str(e)[:300]} at {where[-1] if where else 'harness ' + str(tb[-1].filename) + ':' + str(tb[-1].lineno)}")
    finally:
        signal.alarm(0)
    return None


def shrink(chk, case, site, limit=4.0):
    """greedy: drop edges, earlier queries"""
    t0 = time.time()
    case = json.loads(json.dumps(case))
    changed = True
    while changed and time.time() - t0 < limit:
        changed = False
        for path in list(lists_in(case)):
            lst = get_path(case, path)
            for k in range(len(lst) - 1, -1, -1):
                if time.time() - t0 > limit:
                    break
                c2 = json.loads(json.dumps(case))
                del get_path(c2, path)[k]
                try:
                    r = run_case(chk, c2, 5)
                except BaseException:
                    continue
                if isinstance(r, tuple) and r[0] == site:
                    case, changed = c2, True
                    lst = get_path(case, path)
    return case


def lists_in(c, pre=()):
    if isinstance(c, dict):
        for k, v in c.items():
            if isinstance(v, list) and k in ("edges", "heat", "ops"):
                yield pre + (k,)
            elif isinstance(v, dict):
                yield from lists_in(v, pre + (k,))


def get_path(c, p):
    for k in p:
        c = c[k]
    return c


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--known")
    a = ap.parse_args()
    byname = {c.name: c for c in checks}
    if a.replay:
        d = json.load(open(a.replay))
        r = run_case(byname[d["check"]], d["case"], 60)
        print(r)
        sys.exit(1 if isinstance(r, tuple) else 0)
    known = set(json.loads(a.known)) if a.known else set()
    if a.only:
        checks = [c for c in checks if any(x in c.name for x in a.only.split(","))]
    tot = sum(c.weight for c in checks)
    res = {"checks": {}, "failures": [], "samples": []}
    for c in checks:
        rng = random.Random(f"{a.seed}:{c.name}")
        t0, ev, nt, skipped, seen = time.time(), 0, 0, 0, set()
        share = a.budget * c.weight / tot
        sites = {}
        it = iter(c.fixed)
        while True:
            case = next(it, None)
            if case is None:
                if time.time() - t0 > share and ev >= 20:
                    break
                case = c.gen(rng)
            key = json.dumps(case, sort_keys=True)
            if key in seen:
                if time.time() - t0 > share:
                    break
                continue
            seen.add(key)
            r = run_case(c, case)
            if r == "skip":
                skipped += 1
                if skipped > 50000 or (time.time() - t0 > share * 1.5):
                    break
                continue
            ev += 1
            if c.nontrivial is None or c.nontrivial(case):
                nt += 1
            if isinstance(r, tuple):
                if r[0] not in sites:
                    small = shrink(c, case, r[0])
                    r2 = run_case(c, small)
                    msg = r2[1] if isinstance(r2, tuple) else r[1]
                    sites[r[0]] = {"check": c.name, "site": r[0], "message": msg, "case": small, "count": 1}
                else:
                    sites[r[0]]["count"] += 1
                if len([s for s in sites if s not in known]) >= MAXSITES:
                    break
        res["checks"][c.name] = {"evaluations": ev, "distinct_nontrivial": nt, "skipped": skipped, "wall_s": round(time.time() - t0, 2)}
        res["failures"] += list(sites.values())
        if len(res["samples"]) < 6 and seen:
            res["samples"].append({"check": c.name, "case": json.loads(key)})
    if a.out:
        json.dump(res, open(a.out, "w"), default=str)
    else:
        print(json.dumps(res["checks"], indent=1))
        for f in res["failures"]:
            print("FAIL", f["site"], "|", f["message"][:400], "|", json.dumps(f["case"]), "x", f["count"])
