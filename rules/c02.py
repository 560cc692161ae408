"""Type predicates decide their definition exactly at every offset."""
from qsa.spec import *
from qsa.ob import mods

PAIRS = [("a", "b"), ("a", "c"), ("a", "d"), ("b", "c"), ("b", "d"), ("c", "d")]


def comp_spec(q, nn=n):
    a = qfields(q)
    return All(ONE, n, lambda s: eq0(add(*[paf(x, s) for x in a])))


def amic_spec(q):
    return and_(*[All(ONE, n, lambda s, x=x, y=y: eq0(sub(cc(field(q, x), field(q, y), s), cc(field(q, y), field(q, x), s)))) for x, y in PAIRS])


def cross_spec(q):
    def eqn(x, y, z, w):
        # cc(x,y)-cc(y,x) = cc(z,w)-cc(w,z)
        X, Y, Z, W = [field(q, k) for k in (x, y, z, w)]
        return All(ZERO, n, lambda s: eq0(sub(sub(cc(X, Y, s), cc(Y, X, s)), sub(cc(Z, W, s), cc(W, Z, s)))))
    return and_(eqn("a", "b", "d", "c"), eqn("a", "c", "b", "d"), eqn("a", "d", "c", "b"))


def sym_spec_seq(x):
    return All(ONE, n, lambda s: eq0(sub(sel(x, s), sel(x, sub(n, s)))))


def sym_spec(q):
    return and_(*[sym_spec_seq(x) for x in qfields(q)])


# ------------------------------------------------------------- valuations
def conds(qd):
    """atomic conditions of all definitions, as a set of failing ones"""
    k = len(qd[0])
    bad = set()
    for s in range(1, k):
        if sum(pafv(x, s) for x in qd) != 0:
            bad.add(("comp", s))
        for i in range(4):
            if qd[i][s] != qd[i][k - s]:
                bad.add(("sym", i, s))
            for j in range(i + 1, 4):
                if ccv(qd[i], qd[j], s) != ccv(qd[j], qd[i], s):
                    bad.add(("am", i, j, s))
        d = {(i, j): ccv(qd[i], qd[j], s) - ccv(qd[j], qd[i], s) for i in range(4) for j in range(4)}
        for e, (i, j, z, w) in enumerate(((0, 1, 3, 2), (0, 2, 1, 3), (0, 3, 2, 1))):
            if d[(i, j)] != d[(z, w)]:
                bad.add(("cr", e, s))
    return frozenset(bad)


def pafv(x, s):
    k = len(x)
    return sum(x[i] * x[(i + s) % k] for i in range(k))


def ccv(x, y, s):
    k = len(x)
    return sum(x[i] * y[(i - s) % k] for i in range(k))


def near():
    """complementary quadruples, and quadruples complementary except at one offset, of lengths 8 to 26 (near.txt: length, symmetric, offset)"""
    import os
    with open(os.path.join(os.path.dirname(__file__), "near.txt")) as f:
        return [[[1 if c == "+" else -1 for c in w] for w in l.split()[3:]] for l in f if l.strip()]


def quads(lits):
    """quadruples for which at most a few of the atomic conditions fail, of every failing pattern met"""
    import random, itertools
    r = random.Random(5)

    def score(p, kind):
        return sum(1 for b in p if b[0] == kind)

    for k in (1, 2):
        for w in range(1 << (4 * k)):
            bits = [1 if (w >> i) & 1 else -1 for i in range(4 * k)]
            yield [bits[i * k:(i + 1) * k] for i in range(4)]
    targets = sorted({x for c in lits for x in (c - 1, c, c + 1) if 4 <= x <= 130})
    # exactly one condition fails, at one offset (and its mirror image)
    wide_ = sorted({x for c in lits for x in (c - 1, c, c + 1, c + 2, 2 * c - 1, 2 * c, 2 * c + 1, 2 * c + 2) if 3 <= x <= 40} | {3, 4, 5, 6, 7, 8, 13, 16})
    near_ = near()
    for k in wide_:
        for i, j in itertools.combinations(range(4), 2):
            for s in range(1, k // 2 + 1):
                qd = [[1] * k for _ in range(4)]
                qd[i][0] = -1
                qd[j][s] = -1
                yield qd
        for w in near_:
            if len(w[0]) == k:
                yield w
    for w in near_:
        if len(w[0]) not in wide_ and r.random() < .3:
            yield w
    # three constant sequences are amicable with everything and symmetric: one defect at a time
    for k in [3, 4, 5] + targets + [127, 128, 129, 130]:
        one = [1] * k
        asym = ([1, -1, -1, 1] + [1] * k)[:k]
        asym2 = ([1, 1, 1, -1, 1, -1, -1] + [1] * k)[:k]
        asym[-1], asym2[0] = 1, -1
        combos = [p for p in itertools.product((0, 1, 2), repeat=4) if sum(1 for x in p if x) <= 2 or k < 8]
        if k > 60:
            combos = [(0, 0, 0, 0), (0, 0, 1, 2), (1, 2, 0, 0), (1, 0, 2, 0), (0, 1, 0, 2)]
        for pos in combos:
            yield [list((one, asym, asym2)[i]) for i in pos]
        for s in sorted({1, 2, 3, k // 2, k // 2 - 1, k - 1} & set(range(1, k))):
            for i in range(4):
                qd = [list(one) for _ in range(4)]
                qd[i][s] = -1
                yield qd
    for k in [3, 4, 5, 6, 7] + [x for x in targets if 7 < x <= 30]:
        seen = {}
        for rep in range(120 if k <= 7 else 24):
            qd = [pm(r, k) for _ in range(4)]
            if rep % 4 == 0:
                for x in qd:
                    for i in range(1, k):
                        x[k - i] = x[i]
            if rep % 4 == 1:
                qd[r.randrange(4)] = list(qd[r.randrange(4)])
                qd[r.randrange(4)] = [1] * k
            for kind in ("comp", "am", "cr", "sym"):
                cur = [list(x) for x in qd]
                p = frozenset(b for b in conds(cur) if b[0] == kind)
                best = len(p)
                for it in range(40 if k <= 7 else 10):
                    if best == 0:
                        break
                    i, j = r.randrange(4), r.randrange(k)
                    cur[i][j] = -cur[i][j]
                    p2 = frozenset(b for b in conds(cur) if b[0] == kind)
                    if len(p2) <= best:
                        best, p = len(p2), p2
                    else:
                        cur[i][j] = -cur[i][j]
                    if p not in seen and len(p) <= 3:
                        seen[p] = 1
                        yield [list(x) for x in cur]


def qmodels(lits):
    for qd in quads(lits):
        yield Mod(dict(n=len(qd[0]), a=qd[0], b=qd[1], c=qd[2], d=qd[3]))


def seqmodels(lits):
    for qd in quads(lits):
        yield Mod(dict(n=len(qd[0]), x=qd[0]))


def q24():
    from fractions import Fraction as F
    out = []
    h = F(1, 2)
    for i in range(4):
        for s in (1, -1):
            q = [0, 0, 0, 0]
            q[i] = s
            out.append(tuple(q))
    import itertools
    for s in itertools.product((h, -h), repeat=4):
        out.append(s)
    return out


def qsmodels(lits):
    """quaternion sequences, including ones perfect or odd-perfect at all but few offsets"""
    import random
    r = random.Random(9)
    U = q24()
    for k in [1, 2, 3, 4, 5, 6] + [x for c in sorted(lits) for x in (c - 1, c, c + 1) if 7 <= x <= 24]:
        seen = set()
        for rep in range(200 if k <= 6 else 20):
            v = [r.choice(U) for _ in range(k)]
            if rep % 3 == 0:
                for i in range(1, k):
                    v[k - i] = v[i]
            for odd in (False, True):
                cur = list(v)

                def fails():
                    return frozenset(s for s in range(1, k) if any(sum((-1 if odd and i + s >= k else 1) * qp(cur[i], cj(cur[(i + s) % k]))[z] for i in range(k)) != 0 for z in range(4)))
                b = fails()
                for it in range(40):
                    if not b:
                        break
                    j = r.randrange(k)
                    o = cur[j]
                    cur[j] = r.choice(U)
                    b2 = fails()
                    if len(b2) <= len(b):
                        b = b2
                    else:
                        cur[j] = o
                if (odd, b) in seen and rep > 30:
                    continue
                seen.add((odd, b))
                yield Mod(dict(n=k, sy=0, qs=[q[0] for q in cur], qx=[q[1] for q in cur], qy=[q[2] for q in cur], qz=[q[3] for q in cur]))


def cj(q):
    return (q[0], -q[1], -q[2], -q[3])


def qp(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return (a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g + c * e + d * f - b * h, a * h + d * e + b * g - c * f)


def check(ck):
    from rules.c03 import helpers
    ck.support(lambda: helpers(ck))
    q = quadseq()

    def one(name, key, args, spec, models, assume=POS, nn=None):
        def f():
            ip = ck.ip()
            v, _ = ip.run(key, args, assume=assume)
            specs = spec if isinstance(spec, list) else [spec]
            s = next((s for s in specs if s is v), specs[0])
            ck.compare(name, key, v, s, models)
            ck.no_panic(name + ": no panic", key, ip, models)
        ck.run(name, key, f)

    one("periodic complementarity", ck.key("is_periodic_complementary", "QuadSeq"), [q], comp_spec(q), qmodels)
    one("amicability", ck.key("is_amicable", "QuadSeq"), [q], amic_spec(q), qmodels)
    one("quaternion-type cross-correlation condition", ck.key("verify_cross_correlation", "QuadSeq"), [q], cross_spec(q), qmodels)
    one("symmetry of the four sequences", ck.key("is_symmetric", "QuadSeq"), [q], sym_spec(q), qmodels)
    one("quaternion-type definition", ck.key("verify_qts", "QuadSeq"), [q], and_(comp_spec(q), cross_spec(q)), qmodels)
    one("Williamson-type definition", ck.key("verify_wts", "QuadSeq"), [q], and_(comp_spec(q), amic_spec(q)), qmodels)
    one("Williamson definition", ck.key("verify_ws", "QuadSeq"), [q], and_(comp_spec(q), sym_spec(q)), qmodels)
    x = parr("x")
    one("symmetry of one sequence", ck.key("symmetric"), [x], sym_spec_seq(x), seqmodels)

    vals, parts = qarr("q")
    qs = mk("struct", QS, (("size", n), ("values", vals), ("symmetry", Sym("sy", "sym"))))

    def perf(odd, hi=n):
        def comp(s, j):
            def body(i):
                c = qprod(qsel(parts, i), conjq(qsel(parts, mk_mod(add(i, s), n))))[j]
                if odd:
                    c = mul(ite(ge0(sub(sub(n, ONE), add(i, s))), ONE, I(-1)), c)
                return c
            return Sum(ZERO, n, body)
        v = fresh(rng(ONE, hi))
        TMA = list(TM.ASSUME)
        TM.ASSUME[:] = POS2
        try:
            return forall(v, rng(ONE, hi), and_(*[eq0(comp(v, j)) for j in range(4)]))
        finally:
            TM.ASSUME[:] = TMA
    POS2 = [sub(n, I(2))]
    half = add(ONE, mk_div(add(n, ONE), I(2)))
    two = lambda m: (x for x in qsmodels(m) if x.syms["n"] >= 2)
    one("perfection", ck.key("is_perfect", "QS"), [qs], perf(False), two, POS2)
    one("odd perfection", ck.key("is_odd_perfect", "QS"), [qs], [perf(True), perf(True, half)], two, POS2)
    ck.assumptions.append("odd perfection at offset n-t is equivalent to odd perfection at offset t (the odd correlations are negated conjugates of each other)")
    # length one: no offset to examine
    one1 = mk("struct", QS, (("size", ONE), ("values", mk("vec", quat(Sym("q0"), Sym("q1"), Sym("q2"), Sym("q3")))), ("symmetry", Sym("sy", "sym"))))
    m1 = lambda l: (Mod(dict(q0=u[0], q1=u[1], q2=u[2], q3=u[3], sy=0)) for u in q24())
    one("perfection, length one", ck.key("is_perfect", "QS"), [one1], TRUE, m1, [])
    one("odd perfection, length one", ck.key("is_odd_perfect", "QS"), [one1], TRUE, m1, [])
    one("symmetry of a quaternion sequence", ck.key("is_symmetric", "QS"), [qs], All(ONE, n, lambda s: and_(*[eq(sel(p, s), sel(p, sub(n, s)), True) for p in parts])), qsmodels)
