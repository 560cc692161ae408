"""Representatives come from one total lexicographic order.

The comparison functions are summarised and compared with the lexicographic order on W, X, Y, Z for every length; the
selections of a representative are summarised with the comparison abstract and must be the minimum of their set under
it, whatever the order of iteration."""
import random
from rules.eqv import *
from qsa.ob import Fail, Undecided, Mod, lens

FLOOR = 8


def LT(x, y):
    return Ex(ZERO, n, lambda i: and_(ge0(sub(sub(sel(y, i), sel(x, i)), ONE)), All(ZERO, i, lambda j: eq0(sub(sel(x, j), sel(y, j))))))


def EQS(x, y):
    return All(ZERO, n, lambda i: eq0(sub(sel(x, i), sel(y, i))))


def pairs(names1, names2, seed=3):
    """valuations: two tuples of sequences sharing prefixes of every extent"""
    def gen(lits):
        r = random.Random(seed)
        k1 = len(names1)
        for N in lens(lits, 4):
            tot = N * k1
            for rep in range(60 if N < 8 else 12):
                x = [r.choice((-1, 1)) for _ in range(tot)]
                y = list(x)
                mode = rep % 6
                if mode == 0:
                    y = [r.choice((-1, 1)) for _ in range(tot)]
                elif mode < 5:
                    # first difference at a chosen place, arbitrary afterwards
                    p = r.choice([tot - 1, r.randrange(tot), N * r.randrange(k1) + N - 1, N * r.randrange(k1)])
                    y[p] = -y[p]
                    for i in range(p + 1, tot):
                        if mode >= 2:
                            y[i] = r.choice((-1, 1))
                d = {"n": N}
                for i, nm in enumerate(names1):
                    d[nm] = x[i * N:(i + 1) * N]
                for i, nm in enumerate(names2):
                    d[nm] = y[i * N:(i + 1) * N]
                yield Mod(d)
    return gen


def qv(N, seqs):
    return ("S", ("size", N)) + tuple((c, s) for c, s in zip("abcd", seqs))


def flat(q):
    d = dict(q[1:])
    return tuple(d["a"]) + tuple(d["b"]) + tuple(d["c"]) + tuple(d["d"])


def lt(p, q):
    return flat(p) < flat(q)


def qlists(apps, seed=5, reps=60, lo=1, extra=None):
    """valuations: a list L of m quadruples of length n, plus a quadruple a,b,c,d"""
    def gen(lits):
        r = random.Random(seed)
        for rep in range(reps):
            N = r.choice((1, 1, 2, 2, 3, 5))
            m = r.choice((1, 2, 3, 4, 7)) if rep > 4 else lo
            L = [qv(N, [pm_(r, N) for _ in range(4)]) for _ in range(m)]
            d = {"n": N, "m": m, "L": L}
            q = r.choice(L) if L and r.random() < .5 else qv(N, [pm_(r, N) for _ in range(4)])
            q = dict(q[1:])
            for c in "abcd":
                d[c] = q[c]
            yield Mod(d, dict(apps, **(extra(r, d) if extra else {})))
    return gen


def pm_(r, k):
    return [r.choice((-1, 1)) for _ in range(k)]


def check(ck):
    comparisons(ck)
    selections(ck)


def comparisons(ck):
    for b in ck.dump["bodies"]:
        if b.get("name") == "seq_less_than" and "::tests::" not in b["key"]:
            k = b["key"]

            def f(k=k):
                x, y = parr("x"), parr("y")
                v, _ = ck.ip().run(k, [x, y], assume=POS)
                ck.compare(k.split("::")[-2] + "::seq_less_than", k, v, LT(x, y), pairs(["x"], ["y"]))
            ck.run(k.split("::")[-2] + "::seq_less_than", k, f)
    wl = ck.key("will_less_than")

    def w():
        q, r = quadseq(), quadseq("efgh")
        v, _ = ck.ip().run(wl, [q, r], assume=POS)
        s = None
        for x, y in list(zip(qfields(q), qfields(r)))[::-1]:
            s = LT(x, y) if s is None else or_(LT(x, y), and_(EQS(x, y), s))
        ck.certified("will_less_than", wl, v, s, pairs("abcd", "efgh"), "lexicographic order on the concatenation, sequence by sequence", cid="C08/will_less_than")
    ck.run("will_less_than", wl, w)


def selections(ck, which=("find_minimum", "generate_canonical_representative", "qt_canonical")):
    wl = ck.key("will_less_than")
    wl_apps = {wl: lt, "$lt": lt}
    sm = Sym("m", "usize")
    L = Arr("L", sm)
    q = quadseq()
    lo = [sub(n, ONE), sub(sm, ONE)]

    def selection(name, key, args, unint, spec, apps, extra=None):
        def f():
            ip = ck.ip(uninterp=[wl] + unint)
            v, _ = ip.run(key, args, assume=lo)
            r = minimum_of(v, wl)
            if r is not None:
                r = tuple(normal(x) for x in r)
                want = [normal(x) for x in (spec() if callable(spec) else spec).a[1:]]
                if r == tuple(want) or r == tuple(want[::-1]) or (len(want) == 2 and r == (want[1],)):
                    ck.ok(name, "minimum under the order, for every iteration order", key, show(v)[:300])
                    return
            ck.compare(name, key, v, spec() if callable(spec) else spec, qlists(apps, extra=extra))
        ck.run(name, key, f)

    def least(*xs):
        out = []
        for x in xs:
            out.extend(x if isinstance(x, list) else [x])
        return min(out, key=flat)
    apps = dict(wl_apps, **{"$min": least})
    if "find_minimum" in which:
        selection("find_minimum", ck.key("find_minimum"), [mk("set", L)], [], mk("app", "$min", L), apps)
    g = ck.key("generate_equivalence_class")
    key = ck.key("generate_canonical_representative")
    for kind in (QT, WTS, WS) if "generate_canonical_representative" in which else ():
        def f(kind=kind):
            keys, _ = op_list(ck, kind)
            cls = mk("app", g, q, stype(kind), mk("vec", *[mk("fn", k) for k in keys]), FALSE)

            def ex(r, d):
                me = qv(d["n"], [d[c] for c in "abcd"])
                cl = list(d["L"]) + [me]
                r.shuffle(cl)
                return {g: lambda *a: cl}
            selection("generate_canonical_representative %s" % kind, key, [q, stype(kind)], [g], mk("app", "$min", q, cls), apps, ex)
        ck.run("generate_canonical_representative %s" % kind, key, f)
    key = ck.key("qt_canonical")
    fast, ns, ss = ck.key("generate_equivalence_class_fast"), ck.key("ns_canonical"), ck.key("sn_ss_canonical")
    for kind in (QT, WTS, WS):
        c = ns if kind == QT else ss
        cls = mk("app", fast, q, mk("set", L))

        def ex(r, d):
            # abstract functions: the class is the list, the canonical forms differ per function
            def rot(k):
                return lambda p: qv(d["n"], [[-x for x in s] if k else s for s in [dict(p[1:])[z] for z in ("bcda" if k else "cdab")]])
            return {fast: lambda *a: list(d["L"]), ns: rot(0), ss: rot(1)}
        a2 = dict(apps)
        # spec: minimum over the canonical forms of the class

        def spec(c=c, cls=cls):
            m = mk("len", cls)
            v = fresh(rng(ZERO, m))
            return mk("app", "$min", lam(m, v, mk("app", c, sel(cls, v))))
        selection("qt_canonical %s" % kind, key, [q, mk("set", L), stype(kind)], [fast, ns, ss], spec(), a2, ex)


def normal(x):
    while x.op in ("set", "elems", "uniq", "iter"):
        x = x.a[0]
    return x


def minimum_of(v, wl):
    """terms whose joint minimum v is: recognised selections"""
    if v.op == "pay" and v.a[2] == "Some":
        v = v.a[0]
    if v.op == "minby" and v.a[0] == "min" or v.op == "minby" and getattr(v.a[0], "op", None) == "str" and v.a[0].a[0] == "min":
        x, y = fresh(None), fresh(None)
        try:
            bv, pk = v.a[2], v.a[3]
            bm, body = pk.a
            e = subst(body, {bv: x, bm: y})
        except Exception:
            return None
        le, gt, eqv_ = [mk("enum", "core::cmp::Ordering", z, ()) for z in ("Less", "Greater", "Equal")]
        for p, r in ((x, y), (y, x)):
            c = mk("app", wl, p, r)
            d = mk("app", wl, r, p)
            for k in ("Less", "Greater", "Equal"):
                pass
        if e.op == "ite":
            names = []
            for z in (e.a[1], e.a[2].a[1] if e.a[2].op == "ite" else None, e.a[2].a[2] if e.a[2].op == "ite" else None):
                names.append(z.a[1] if z is not None and z.op == "enum" else None)
            if names == ["Less", "Greater", "Equal"] and e.a[0] is mk("app", wl, x, y) and e.a[2].a[0] is mk("app", wl, y, x):
                return (v.a[1],)
            if names == ["Greater", "Less", "Equal"] and e.a[0] is mk("app", wl, y, x) and e.a[2].a[0] is mk("app", wl, x, y):
                return (v.a[1],)
        return None
    if v.op == "foldt":
        b, d, init, body = v.a
        e, acc = fresh(None), fresh(None)
        bm, x = body.a
        x = subst(x, {b: e, bm: acc})
        if init.op == "enum" and init.a[1] == "None":
            some = mk("enum", init.a[0], "Some", (e,))
            none = mk("enum", init.a[0], "None", ())
            best = fresh(None)
            on_none = subst(x, {acc: none})
            on_some = subst(x, {acc: mk("enum", init.a[0], "Some", (best,))})
            c = mk("app", wl, e, best)
            if on_none is some and on_some is ite(c, some, mk("enum", init.a[0], "Some", (best,))):
                return (d,)
            return None
        if d.op == "range" and d.a[0] is ZERO and d.a[1].op == "len":
            src = d.a[1].a[0]
            el = sel(src, e)
            if x.op == "ite" and x.a[0] is mk("app", wl, el, acc) and x.a[1] is el and x.a[2] is acc:
                return (init, src)
        if x.op == "ite" and x.a[0] is mk("app", wl, e, acc) and x.a[1] is e and x.a[2] is acc:
            return (init, d)
    return None
