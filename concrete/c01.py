from common import *

OPS = ["plus", "min", "max", "times", "count", "any"]
FIXED = ["A", "AT", "offdiag", "U+", "L+", "U-", "L-", "diag", "has_self_edges", "is_iso", "iso_value", "has_negative_diagonal", "has_negative_edges+", "has_negative_edges-",
         "row_degrees+", "row_degrees-", "column_degrees+", "column_degrees-"]
UND = ["degrees+", "degrees-"]
DIR = ["recip_degrees+", "recip_degrees-", "total_degrees+", "total_degrees-", "total_recip+", "total_recip-"]
VECTORS = ("_rowwise+", "_rowwise-", "_columnwise+", "_columnwise-")


def names(directed, dtype):
    ops = [o for o in OPS if dtype != "bool" or o in ("count", "any", "min", "max")]
    r = list(FIXED) + (DIR if directed else UND)
    for o in ops:
        r += [o + s for s in VECTORS]
        if o != "count":
            r += [o + "_element+", o + "_element-", o + "_diagonal"]
    return r


def gen(rng):
    g = gen_graph(rng, maxn=5, labels="int", loops=rng.random() < 0.55)
    N = names(g["directed"], g["dtype"])
    # a focus makes the queries interact
    focus = rng.choice(["", "", "degrees", "recip", "total", "neg", "L-U-", "count", "min", "plus", "iso", "max"])
    pool = [x for x in N if focus and (focus in x or (focus == "L-U-" and x in ("L-", "U-", "L+", "U+", "offdiag", "plus_element-", "min_element-", "plus_rowwise-")) or (focus == "neg" and x.startswith("min")))] or N
    ops = []
    for _ in range(rng.randint(1, 7)):
        name = rng.choice(pool if rng.random() < 0.75 else N)
        m = None
        if rng.random() < 0.2 and is_vector(name):
            m = [rng.choice("SC")] + [i for i in range(g["n"]) if rng.random() < 0.5]
        ops.append([name, m])
    return {"g": g, "ops": ops, "batch": rng.random() < 0.15}


def is_vector(name):
    return name == "diag" or "rowwise" in name or "columnwise" in name or "degrees" in name


def canon(name, directed):
    for a, b in (("row_degrees", "count_rowwise"), ("column_degrees", "count_columnwise"), ("total_degrees", "total_degrees"), ("recip_degrees", "recip_degrees"), ("degrees", "count_rowwise")):
        if name[:-1] == a:
            return b + name[-1]
    return name


def red(op, dtype, vals):
    """reduce a nonempty list"""
    if op == "count":
        return len(vals)
    if op == "plus":
        return sum(vals)
    if op == "times":
        r = 1
        for v in vals:
            r *= v
        return r
    if op == "min":
        return min(vals)
    if op == "max":
        return max(vals)


def want(x, name):
    """(kind, value) of a property by definition"""
    n, E = x.n, x.E
    name = canon(name, x.directed)
    off = {e: w for e, w in E.items() if e[0] != e[1]}
    if name == "A":
        return "m", E
    if name == "AT":
        return "m", {(j, i): w for (i, j), w in E.items()}
    sel = {"offdiag": lambda i, j: i != j, "U+": lambda i, j: i <= j, "L+": lambda i, j: i >= j, "U-": lambda i, j: i < j, "L-": lambda i, j: i > j}
    if name in sel:
        return "m", {e: w for e, w in E.items() if sel[name](*e)}
    if name == "diag":
        return "v", {i: w for (i, j), w in E.items() if i == j}
    if name == "has_self_edges":
        return "b", any(i == j for i, j in E)
    if name == "has_negative_edges+":
        return "b", any(w < 0 for w in E.values())
    if name == "has_negative_edges-":
        return "b", any(w < 0 for w in off.values())
    if name == "has_negative_diagonal":
        return "b", any(w < 0 for (i, j), w in E.items() if i == j)
    if name.endswith("_diagonal"):
        vals = [w for (i, j), w in E.items() if i == j]
        return ("any", vals) if name.startswith("any") else ("s", red(name[:-9], x.dtype, vals) if vals else None)
    B = E if name[-1] == "+" else off
    base = name[:-1]
    if base == "recip_degrees":
        r = {}
        for i, j in B:
            if (j, i) in B:
                r[i] = r.get(i, 0) + 1
        return "v", r
    if base == "total_recip":
        return "i", sum((j, i) in B for i, j in B)
    if base == "total_degrees":
        r = {}
        for i, j in B:
            r[i] = r.get(i, 0) + 1
            r[j] = r.get(j, 0) + 1
        return "v", r
    op, kind = base.rsplit("_", 1)
    if kind == "element":
        vals = list(B.values())
        return ("any", vals) if op == "any" else ("s", red(op, x.dtype, vals) if vals else None)
    r = {}
    for (i, j), w in B.items():
        r.setdefault(i if kind == "rowwise" else j, []).append(w)
    if op == "any":
        return "anyv", r
    return "v", {k: red(op, x.dtype, v) for k, v in r.items()}


def check_one(site, x, g, name, got, mask):
    if name in ("is_iso", "iso_value"):
        iso = bool(g._A.ss.is_iso) and g._A.nvals > 0
        if name == "is_iso":
            return same(site, got, iso)
        if not iso:
            if got is not None:
                raise Fail(site, f"{got!r} expected None")
            return
        return same(site, py(got), py(g._A.ss.iso_value))
    kind, w = want(x, name)
    if kind in ("m",):
        return same(site, mat(got), w)
    if kind in ("v", "anyv"):
        v = vec(got)
        if mask is not None:
            keep = set(mask[1:]) if mask[0] == "S" else set(range(x.n)) - set(mask[1:])
            w = {k: a for k, a in w.items() if k in keep}
        if kind == "anyv":
            if set(v) != set(w) or any(v[k] not in w[k] for k in v):
                raise Fail(site, f"{v} expected one of {w}")
            return
        return same(site, v, w)
    if kind == "b":
        return same(site, got, w)
    if kind == "i":
        return same(site, got, w)
    v = py(got)
    if kind == "any":
        if (v is None) != (not w) or (w and v not in w):
            raise Fail(site, f"{v} expected one of {w}")
        return
    return same(site, v, w)


def mk_mask(x, m):
    if m is None:
        return None
    v = Vector.from_coo(m[1:], True, size=x.n, dtype=bool)
    return v.S if m[0] == "S" else ~v.S


def run(c):
    x = X(c["g"])
    g = x.build()
    s = Snapshot(g)
    if c["batch"] and all(m is None for _, m in c["ops"]):
        ns = [a for a, _ in c["ops"]]
        got = call("get_properties", g.get_properties, ns if len(ns) % 2 else " ".join(ns))
        for a, r in zip(ns, got):
            check_one(f"get_properties {canon(a, x.directed)}", x, g, a, r, None)
    for name, m in c["ops"]:
        cn = canon(name, x.directed)
        site = f"{'directed' if x.directed else 'undirected'} {cn}" + (" masked" if m is not None else "")
        got = call(site, g.get_property, name, mask=mk_mask(x, m)) if m is not None else call(site, g.get_property, name)
        check_one(site, x, g, name, got, m)
    # afterwards every remembered answer is still right
    for k, v in list(g._cache.items()):
        if isinstance(k, str) and (k in FIXED + DIR + UND or k.endswith(VECTORS) or k.endswith("_diagonal") or k[:-1].endswith("_element")):
            if not (k == "iso_value" and v is None):
                check_one(f"remembered {canon(k, x.directed)}", x, g, k, v, None)
    s.check("get_property")


CHECKS = [Check("property queries", gen, run, 1.0)]
if __name__ == "__main__":
    main(CHECKS)
