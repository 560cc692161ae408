"""Correlations and row sums are exact for every length."""
from qsa.spec import *
from qsa.ob import mods


def offs(k):
    ks = sorted({0, 1, 2, k // 2, k - 1})
    return [{"t": s} for s in ks if 0 <= s < k]


def qmodels(lits):
    import random
    r = random.Random(3)
    for k in list(range(1, 8)) + [c for c in sorted(lits) if 8 <= c <= 140]:
        for rep in range(4):
            d = {"n": k}
            for c in "sxyz":
                d["q" + c] = [r.choice((-1, 0, 1)) for _ in range(k)]
            for s in range(k):
                e = dict(d)
                e["t"] = s
                yield Mod(e)


def helpers(ck):
    """contracts of the correlation helpers (used by other properties)"""
    x, y = parr("x"), parr("y")
    A = POS + [t, sub(sub(n, t), ONE)]
    for name, key, args, spec, m in (
            ("helper: periodic auto-correlation", ck.key("periodic_autocorrelation", module="williamson"), [x, t], paf(x, t), models_seqs(["x"], offs)),
            ("helper: cross-correlation", ck.key("cross_correlation", module="williamson"), [x, y, t], cc(x, y, t), models_seqs(["x", "y"], offs))):
        ck.same(name, key, lambda: ck.ip().run(key, args, assume=A)[0], spec, m)


def check(ck):
    x, y = parr("x"), parr("y")
    A = POS + [t, sub(sub(n, t), ONE)]
    m1 = models_seqs(["x"], offs)
    m2 = models_seqs(["x", "y"], offs)

    def one(name, key, args, spec, models, A=A):
        def f():
            ip = ck.ip()
            v, _ = ip.run(key, args, assume=A)
            ck.compare(name, key, v, spec, models)
            ck.no_panic(name + ": no panic", key, ip, models)
        ck.run(name, key, f)

    k = ck.key("periodic_autocorrelation", module="williamson")
    one("periodic auto-correlation", k, [x, t], paf(x, t), m1)
    k = ck.key("cross_correlation", module="williamson")
    one("cross-correlation", k, [x, y, t], cc(x, y, t), m2)
    k = ck.key("rowsum")
    one("row sum", k, [x], Sum(ZERO, n, lambda i: sel(x, i)), m1)

    # quaternion correlations
    vals, parts = qarr("q")
    qs = mk("struct", QS, (("size", n), ("values", vals), ("symmetry", Sym("sy", "sym"))))

    def qcorr(odd):
        def comp(j):
            def body(i):
                c = qprod(qsel(parts, i), conjq(qsel(parts, mk_mod(add(i, t), n))))[j]
                if odd:
                    w = ite(ge0(sub(sub(n, ONE), add(i, t))), ONE, I(-1))
                    c = mul(w, c)
                return c
            return Sum(ZERO, n, body)
        return quat(*[comp(j) for j in range(4)])
    k = ck.key("periodic_autocorrelation", implfor="QS")
    one("quaternion periodic auto-correlation", k, [qs, t], qcorr(False), qmodels)
    k = ck.key("odd_periodic_autocorrelation", implfor="QS")
    one("quaternion odd periodic auto-correlation", k, [qs, t], qcorr(True), qmodels)

    # per pair correlation vectors
    h = mk_div(n, I(2))
    k = ck.key("compute_auto_correlation_pair")
    one("vector of pair auto-correlations", k, [x, y], Lam(h, lambda i: add(paf(x, add(i, ONE)), paf(y, add(i, ONE)))), models_seqs(["x", "y"]), POS)
