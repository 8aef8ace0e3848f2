"""C01: derived graph properties do not depend on what was asked before.
The cache is arbitrary: every known key is present or not, and a present entry equals its definition (the data invariant, which every store has to
re-establish). Each getter is checked against this; a getter it calls counts by its contract."""
from graphspec import *

FIXED = ["A", "AT", "offdiag", "U+", "L+", "U-", "L-", "diag", "has_self_edges", "has_negative_diagonal", "has_negative_edges+", "has_negative_edges-",
         "recip_degrees+", "recip_degrees-", "total_degrees+", "total_degrees-", "total_recip+", "total_recip-", "is_iso", "iso_value",
         "row_degrees+", "row_degrees-", "column_degrees+", "column_degrees-"]
DIRECTED_ONLY = {"recip_degrees+", "recip_degrees-", "total_degrees+", "total_degrees-", "total_recip+", "total_recip-", }
MASKED = {"diag", "recip_degrees+", "recip_degrees-", "total_degrees+", "total_degrees-", "row_degrees+", "row_degrees-", "column_degrees+", "column_degrees-"}
OPS = ["plus", "min", "max"]


class Cache(CohCache):
    """flags are Python booleans, as the code asks `is False`"""

    def __getitem__(self, k):
        v = CohCache.__getitem__(self, k)
        if isinstance(v, SymBool):
            v = self.extra[k] = bool(truth(v))
        return v

    def __setitem__(self, k, v):
        CohCache.__setitem__(self, k, v)
        if isinstance(v, SymBool):
            self.extra[k] = bool(truth(v))
        elif isinstance(v, G.TensorOps) and known_property(k):
            # equal to its definition (the obligation above); whoever still holds the object may not write to it
            if getattr(v, "frozen", None) is None:
                v.frozen = f"cached {k}"
            self.extra[k] = self.g._spec.obj(k)

    def forget_absent(self):
        for k in [k for k, b in self.present.items() if not b and known_property(k) and not self._isalias(k)]:
            del self.present[k]


def arrange(L, directed, dt, frozen_result=True):
    g = make_graph(L, directed, dt)
    cache = g._cache = Cache(g)

    def get_property(name, *, mask=None):
        name = CANON.get(name, name)
        cache.forget_absent()
        if mask is None and name not in ("A", "is_iso", "iso_value"):
            cache.present[name] = True
        if name == "diag" and mask is None:
            cache.present["has_self_edges"] = True
        v = g._spec.obj(name, mask)
        if mask is None and name in cache.present:
            cache.extra.setdefault(name, v)
            v = cache[name]
        return v
    g.get_property = get_property
    return g


def harnesses(L):
    U = L.load("graphblas_algorithms.classes._utils")
    H = []
    F = "graphblas_algorithms.classes."

    def one(name, mask):
        def h(ctx, directed, dt):
            g = arrange(L, directed, dt)
            sp = g._spec
            m = None
            if mask:
                v = vc.fresh_val((g._n,), BOOL, "mk")
                t = G.mk_tensor(v, "mask")
                t.frozen = "argument mask"
                m = t.S
            r = U.get_property(g, name, mask=m)
            if mask:
                want = G.mask_val(sp.get(name), m)
                for lab, f in same_value(r, want):
                    if lab == "dtype" and name.startswith("recip"):
                        f = const(r._val().dt in (INT64, FP64))   # the same number either way
                    ctx.ensure(f"{name} masked: {lab}", f)
            else:
                coherent(f"{name}", g, name, r)
                if name == "diag":
                    ctx.ensure("diag: has_self_edges is remembered", const(g._cache.has("has_self_edges")))
        return h
    where = lambda name: F + ("_caching.get_reduction" if name.endswith(("_diagonal", "_rowwise+", "_rowwise-", "_columnwise+", "_columnwise-", "_element+", "_element-")) or "degrees" in name and name.startswith(("row", "col")) else "graph/digraph.get_" + name)
    names = FIXED + [f"{op}_{w}{s}" for op in OPS for w in ("rowwise", "columnwise", "element") for s in "+-"] + [f"{op}_diagonal" for op in OPS]
    for name in names:
        masked = name in MASKED or name[:-1].endswith(("_rowwise", "_columnwise"))
        for mask in (False, True) if masked else (False,):
            for directed in (False, True):
                if not directed and name in DIRECTED_ONLY:
                    continue
                dts = (BOOL, INT64, FP64) if not name.startswith(("plus", "min", "max", "times")) else (INT64, FP64)
                H += variants(one(name, mask), f"{name}{', masked' if mask else ''}", [where(name)], directed=(directed,), dts=dts)
    return H
