from common import *
from graphblas_algorithms.classes.nodemap import NodeMap, VectorMap, VectorNodeMap, NodeNodeMap
from graphblas_algorithms.classes.nodeset import NodeSet

ABSENT = ["absent", 10**6, None, ("x",), -1, 2.5]
OPS = ["get", "get", "getd", "in", "len", "iter", "items", "values", "eq", "eqother", "pop", "popd", "popitem", "set", "set", "del", "clear", "setdefault", "update", "copydict"]


def gen_ops(rng, ops, n, k=None):
    return [[rng.choice(ops), rng.randrange(n) if n and rng.random() < 0.8 else "absent", rng.randrange(1000)] for _ in range(k or rng.randint(1, 9))]


def gen_map(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7])
    vk = rng.random() < 0.25
    ent = [[i, rng.randrange(n) if vk else rng.choice([0, 1, 2, 5, -3, 0.5])] for i in range(n) if rng.random() < 0.6]
    return {"n": n, "labels": rng.choice(["int", "perm", "sparse", "str", "mixed"]), "lseed": rng.randrange(1000), "vk": vk, "fill": None if vk or rng.random() < 0.5 else rng.choice([0, 7.0]),
            "entries": ent, "lookfirst": rng.random() < 0.5, "ops": gen_ops(rng, OPS, n), "default_ids": rng.random() < 0.1}


def val(r, kind, n, labels):
    rng = random.Random(r)
    return (labels[rng.randrange(n)] if n else None) if kind else float(rng.choice([0, 1, 2, 4, 9, -1]))


def expect_err(site, exc, f):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Fail(site, f"raised {type(e).__name__}: {e} instead of {exc.__name__}")
    raise Fail(site, f"returned {r!r} instead of raising {exc.__name__}")


def deep(v):
    if isinstance(v, (NodeMap, VectorMap, VectorNodeMap, NodeNodeMap)):
        return {k: deep(v[k]) for k in v}
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    return py(v)


def content(site, m, d):
    """every way of reading m presents exactly d"""
    if len(m) != len(d):
        raise Fail(f"{site}: length", f"{len(m)} expected {len(d)}")
    it = list(m)
    if len(it) != len(set(it)) or set(it) != set(d):
        raise Fail(f"{site}: iteration", f"{it} expected {list(d)}")
    got = {k: deep(v) for k, v in m.items()}
    if got != d:
        raise Fail(f"{site}: items", f"{got} expected {d}")
    for k in d:
        if k not in m:
            raise Fail(f"{site}: membership", repr(k))
        if deep(m[k]) != d[k]:
            raise Fail(f"{site}: lookup", f"at {k!r}: {m[k]!r} expected {d[k]!r}")
        if deep(m.get(k)) != d[k]:
            raise Fail(f"{site}: get", f"at {k!r}: {m.get(k)!r} expected {d[k]!r}")


def drive(cls, m, d, ops, keys, mkval, equal_other):
    """run the operations on the map and on the dictionary"""
    nm = cls.__name__
    content(nm, m, d)
    for op, i, r in ops:
        k = keys[i] if i != "absent" else ABSENT[r % len(ABSENT)]
        isnode = i != "absent"
        if not isnode and (k in keys):
            continue
        site = f"{nm}.{op}"
        if op == "get":
            if k in d:
                if deep(m[k]) != d[k]:
                    raise Fail(site, f"{m[k]!r} expected {d[k]!r}")
            else:
                expect_err(site, KeyError, lambda: m[k])
                if m.get(k) is not None:
                    raise Fail(site, f"get of an absent label: {m.get(k)!r}")
        elif op == "getd":
            w = object()
            g = m.get(k, w)
            if (k in d) != (g is not w) or (k in d and deep(g) != d[k]):
                raise Fail(site, f"{g!r}")
        elif op == "in":
            if (k in m) != (k in d):
                raise Fail(site, f"{k!r} in map: {k in m}")
        elif op == "len":
            if len(m) != len(d):
                raise Fail(site, f"{len(m)} expected {len(d)}")
        elif op == "iter":
            if sorted(map(repr, m)) != sorted(map(repr, d)):
                raise Fail(site, f"{list(m)} expected {list(d)}")
        elif op == "items":
            if {a: deep(b) for a, b in m.items()} != d:
                raise Fail(site, f"{dict(m.items())} expected {d}")
        elif op == "values":
            num = lambda v: repr(float(v)) if isinstance(v, (int, float)) else repr(v)
            if sorted(num(deep(v)) for v in m.values()) != sorted(num(v) for v in d.values()):
                raise Fail(site, f"{list(m.values())} expected {list(d.values())}")
        elif op == "eq":
            if not (m == m) or not (m == dict(m)) or m != dict(m):
                raise Fail(site, f"not equal to a dictionary of its items {dict(m)}")
            e = dict(m)
            e[("another",)] = 1
            if m == e:
                raise Fail(site, "equal to a larger dictionary")
            if d:
                e = dict(m)
                e.pop(sorted(e, key=repr)[r % len(e)])
                if m == e:
                    raise Fail(site, "equal to a smaller dictionary")
                e = dict(m)
                e[sorted(e, key=repr)[r % len(e)]] = "different"
                if m == e:
                    raise Fail(site, "equal to a different dictionary")
        elif op == "eqother":
            for o, od in equal_other(r, d):
                if (m == o) != (d == od) or (o == m) != (d == od):
                    raise Fail(site, f"{d} == {od} is {m == o}")
        elif op == "pop":
            if k in d:
                v = deep(m.pop(k))
                if v != d.pop(k):
                    raise Fail(site, f"{v!r}")
            else:
                expect_err(site, KeyError, lambda: m.pop(k))
        elif op == "popd":
            v = deep(m.pop(k, "d"))
            if v != d.pop(k, "d"):
                raise Fail(site, f"{v!r}")
        elif op == "popitem":
            if d:
                a, v = m.popitem()
                if a not in d or deep(v) != d.pop(a):
                    raise Fail(site, f"{a!r}: {v!r}")
            else:
                expect_err(site, KeyError, m.popitem)
        elif op == "set":
            if not isnode:
                expect_err(site, (KeyError), lambda: m.__setitem__(k, mkval(r)[0])) if nm != "VectorMap" else None
            else:
                v, w = mkval(r)
                m[k] = v
                if w == {}:
                    d.pop(k, None)
                else:
                    d[k] = w
        elif op == "del":
            if k in d:
                del m[k]
                del d[k]
            else:
                expect_err(site, KeyError, lambda: m.__delitem__(k))
        elif op == "clear":
            if r % 3 == 0:
                m.clear()
                d.clear()
        elif op == "setdefault":
            if isnode:
                v, w = mkval(r)
                if w == {}:
                    continue
                g = m.setdefault(k, v)
                if deep(g) != d.setdefault(k, w):
                    raise Fail(site, f"{g!r} expected {d[k]!r}")
                if nm in ("NodeMap",) and k in d:
                    if deep(m.setdefault(k)) != d[k]:
                        raise Fail(site, "without default")
        elif op == "update":
            if isnode:
                v, w = mkval(r)
                if w == {}:
                    continue
                m.update({k: v})
                d.update({k: w})
        elif op == "copydict":
            if deep(dict(m)) != d:
                raise Fail(site, f"{dict(m)}")
        content(site, m, d)


def nodemap(c):
    n = c["n"]
    labels = label_list(c["labels"], n, c["lseed"])
    if c["default_ids"]:
        labels = list(range(n))
    vk = c["vk"]
    v = Vector.from_coo([e[0] for e in c["entries"]], [e[1] for e in c["entries"]], size=n, dtype=int if vk else float) if c["entries"] else Vector(int if vk else float, n)
    k2i = {k: i for i, k in enumerate(labels)}
    m = NodeMap(v, fill_value=c["fill"], values_are_keys=vk, key_to_id=None if c["default_ids"] else k2i)
    d = {labels[i]: labels[w] if vk else float(w) for i, w in c["entries"]}
    if c["fill"] is not None:
        d = {k: d.get(k, c["fill"]) for k in labels}
    if c["lookfirst"]:
        m.id_to_key

    def others(r, d):
        """maps of the same items under another numbering, with entries stored instead of filled, and slightly different ones"""
        q = list(labels)
        random.Random(r).shuffle(q)
        q2i = {k: i for i, k in enumerate(q)}
        for e in (d, {k: x for t, (k, x) in enumerate(d.items()) if t != r % max(1, len(d))}, {**d, **({labels[r % n]: val(r, vk, n, labels)} if n else {})}):
            w = Vector(v.dtype, n)
            for k, x in e.items():
                w[q2i[k]] = q2i[x] if vk else x
            yield NodeMap(w, values_are_keys=vk, key_to_id=q2i), e

    before = dict(k2i)
    drive(NodeMap, m, d, c["ops"], labels, lambda r: (val(r, vk, n, labels),) * 2, others)
    if k2i != before:
        raise Fail("NodeMap changed the labels", "")


def vectormap(c):
    n = c["n"]
    if c["vk"]:
        raise Skip
    v = Vector.from_coo([e[0] for e in c["entries"]], [e[1] for e in c["entries"]], size=n, dtype=float) if c["entries"] else Vector(float, n)
    m = VectorMap(v)
    d = {i: float(w) for i, w in c["entries"]}

    def others(r, d):
        for e in (d, {k: x for t, (k, x) in enumerate(d.items()) if t != r % max(1, len(d))}):
            w = Vector(float, n + r % 2)
            for k, x in e.items():
                w[k] = x
            yield VectorMap(w), e
            yield NodeMap(w), e

    drive(VectorMap, m, d, c["ops"], list(range(n)), lambda r: (val(r, False, n, None),) * 2, others)


def gen_mat(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5])
    vk = rng.random() < 0.25
    ent = [[i, j, rng.randrange(n) if vk else rng.choice([0, 1, 2, 5, -3])] for i in range(n) for j in range(n) if rng.random() < 0.3]
    return {"n": n, "labels": rng.choice(["int", "perm", "sparse", "str", "mixed"]), "lseed": rng.randrange(1000), "vk": vk, "fill": None if vk or rng.random() < 0.6 else rng.choice([0.0, 7.0]),
            "entries": ent, "warm": rng.random() < 0.5, "ops": gen_ops(rng, OPS, n), "default_ids": rng.random() < 0.1}


def nodenode(c):
    n, vk = c["n"], c["vk"]
    labels = list(range(n)) if c["default_ids"] else label_list(c["labels"], n, c["lseed"])
    A = Matrix(int if vk else float, n, n)
    for i, j, w in c["entries"]:
        A[i, j] = w
    k2i = None if c["default_ids"] else {k: i for i, k in enumerate(labels)}
    m = NodeNodeMap(A, fill_value=c["fill"], values_are_keys=vk, key_to_id=k2i)
    d = {}
    for i, j, w in c["entries"]:
        d.setdefault(labels[i], {})[labels[j]] = labels[w] if vk else float(w)
    if c["fill"] is not None:
        d = {a: {b: d.get(a, {}).get(b, c["fill"]) for b in labels} for a in labels}
    if c["warm"]:
        len(m)
        m._get_rows()

    def mkval(r):
        rng = random.Random(r)
        e = {k: val(rng.randrange(10**6), vk, n, labels) for k in labels if rng.random() < 0.5}
        full = lambda e: e
        if m._fill_value is not None:
            e2 = {k: e.get(k, m._fill_value) for k in labels}
        else:
            e2 = dict(e)
        if rng.random() < 0.4:
            # a node map under another numbering
            q = list(labels)
            rng.shuffle(q)
            q2i = {k: i for i, k in enumerate(q)}
            w = Vector(A.dtype, n)
            for k, x in e.items():
                w[q2i[k]] = q2i[x] if vk else x
            return NodeMap(w, values_are_keys=vk, key_to_id=q2i), e2
        return e, e2

    def others(r, d):
        q = list(labels)
        random.Random(r).shuffle(q)
        q2i = {k: i for i, k in enumerate(q)}
        for e in (d, {k: x for t, (k, x) in enumerate(d.items()) if t != r % max(1, len(d))}):
            w = Matrix(A.dtype, n, n)
            for a, row in e.items():
                for b, x in row.items():
                    w[q2i[a], q2i[b]] = q2i[x] if vk else x
            yield NodeNodeMap(w, values_are_keys=vk, key_to_id=q2i), e

    drive(NodeNodeMap, m, d, c["ops"], labels, mkval, others)


def vectornode(c):
    n = c["n"]
    if c["vk"] or c["fill"] is not None:
        raise Skip
    labels = list(range(n)) if c["default_ids"] else label_list(c["labels"], n, c["lseed"])
    A = Matrix(float, n, n)
    for i, j, w in c["entries"]:
        A[i, j] = w
    k2i = None if c["default_ids"] else {k: i for i, k in enumerate(labels)}
    m = VectorNodeMap(A, key_to_id=k2i)
    d = {}
    for i, j, w in c["entries"]:
        d.setdefault(labels[i], {})[j] = float(w)
    if c["warm"]:
        m._get_rows()

    def mkval(r):
        rng = random.Random(r)
        e = {k: val(rng.randrange(10**6), False, n, labels) for k in range(n) if rng.random() < 0.5}
        if rng.random() < 0.4:
            return VectorMap(Vector.from_dict(e, dtype=float, size=n) if e else Vector(float, n)), e
        return e, dict(e)

    def others(r, d):
        q = list(labels)
        random.Random(r).shuffle(q)
        q2i = {k: i for i, k in enumerate(q)}
        for e in (d, {k: x for t, (k, x) in enumerate(d.items()) if t != r % max(1, len(d))}):
            w = Matrix(float, n, n)
            for a, row in e.items():
                for b, x in row.items():
                    w[q2i[a], b] = x
            yield VectorNodeMap(w, key_to_id=q2i), e

    drive(VectorNodeMap, m, d, c["ops"], labels, mkval, others)


SOPS = ["in", "in", "len", "iter", "eq", "add", "add", "discard", "discard", "remove", "pop", "clear", "and", "or", "sub", "xor", "le", "disjoint", "union", "copy", "ior", "iand", "isub", "ixor"]


def gen_set(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6])
    return {"n": n, "labels": rng.choice(["int", "perm", "sparse", "str", "mixed"]), "lseed": rng.randrange(1000), "members": [i for i in range(n) if rng.random() < 0.5], "dtype": rng.choice(["bool", "float"]),
            "ops": gen_ops(rng, SOPS, n), "default_ids": rng.random() < 0.1, "lookfirst": rng.random() < 0.5}


def nodeset(c):
    n = c["n"]
    labels = list(range(n)) if c["default_ids"] else label_list(c["labels"], n, c["lseed"])
    k2i = {k: i for i, k in enumerate(labels)}
    v = Vector.from_coo(c["members"], [0.0 if c["dtype"] == "float" else False] * len(c["members"]), size=n, dtype=DT[c["dtype"]]) if c["members"] else Vector(DT[c["dtype"]], n)
    m = NodeSet(v, key_to_id=None if c["default_ids"] else k2i)
    d = {labels[i] for i in c["members"]}
    if c["lookfirst"]:
        m.id_to_key

    def chk(site, m, d):
        if len(m) != len(d):
            raise Fail(f"{site}: length", f"{len(m)} expected {len(d)}")
        it = list(m)
        if len(it) != len(set(it)) or set(it) != d:
            raise Fail(f"{site}: iteration", f"{it} expected {d}")
        for k in labels:
            if (k in m) != (k in d):
                raise Fail(f"{site}: membership", repr(k))

    def other(r, kind):
        rng = random.Random(r)
        e = {k for k in labels if rng.random() < 0.5}
        if kind == 0:
            return e, e
        q = list(labels)
        if kind == 2:
            rng.shuffle(q)
        q2i = {k: i for i, k in enumerate(q)}
        w = Vector(bool, n)
        for k in e:
            w[q2i[k]] = True
        return NodeSet(w, key_to_id=q2i), e

    chk("NodeSet", m, d)
    for op, i, r in c["ops"]:
        k = labels[i] if i != "absent" else ABSENT[r % len(ABSENT)]
        if i == "absent" and k in labels:
            continue
        site = f"NodeSet.{op}"
        o, od = other(r, r % 3)
        if op == "in":
            if (k in m) != (k in d):
                raise Fail(site, repr(k))
        elif op in ("len", "iter"):
            pass
        elif op == "eq":
            for a, b in ((o, od), (set(d), set(d)), (m.copy(), set(d)), (d | {("extra",)}, d | {("extra",)})):
                if (m == a) != (d == b) or (a == m) != (d == b) or (m != a) == (d == b):
                    raise Fail(site, f"{d} == {b} is {m == a}")
        elif op == "add":
            if i == "absent":
                expect_err(site, KeyError, lambda: m.add(k))
            else:
                m.add(k)
                d.add(k)
        elif op == "discard":
            m.discard(k)
            d.discard(k)
        elif op == "remove":
            if k in d:
                m.remove(k)
                d.remove(k)
            else:
                expect_err(site, KeyError, lambda: m.remove(k))
        elif op == "pop":
            if d:
                x = m.pop()
                if x not in d:
                    raise Fail(site, repr(x))
                d.discard(x)
            else:
                expect_err(site, KeyError, m.pop)
        elif op == "clear":
            if r % 3 == 0:
                m.clear()
                d = set()
        elif op in ("and", "or", "sub", "xor"):
            f = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "sub": lambda a, b: a - b, "xor": lambda a, b: a ^ b}[op]
            same(site, set(f(m, o)), f(d, od))
        elif op == "le":
            if (m <= o) != (d <= od) or (m < o) != (d < od) or (m >= o) != (d >= od):
                raise Fail(site, f"{d} {od}")
        elif op == "disjoint":
            if m.isdisjoint(o) != d.isdisjoint(od):
                raise Fail(site, f"{d} {od}")
        elif op == "union":
            same(site, m.union(od, [k]), d | od | {k})
        elif op == "copy":
            x = m.copy()
            x.clear()
        elif op in ("ior", "iand", "isub", "ixor"):
            if op == "ior":
                m |= od
                d |= od
            elif op == "iand":
                m &= od
                d &= od
            elif op == "isub":
                m -= od
                d -= od
            else:
                m ^= od
                d ^= od
        chk(site, m, d)


CHECKS = [Check("NodeMap", gen_map, nodemap), Check("VectorMap", gen_map, vectormap, 0.5), Check("NodeNodeMap", gen_mat, nodenode), Check("VectorNodeMap", gen_mat, vectornode, 0.7), Check("NodeSet", gen_set, nodeset)]
if __name__ == "__main__":
    main(CHECKS)
