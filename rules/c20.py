"""Matrix verification is exact: the summary of each test is compared with the quantified formula of the property."""
import random
from rules.c19 import *
from qsa.models import absval

FLOOR = 3


def wide(ck, name, site, v):
    """no inner product is accumulated in a type that a longer row overflows"""
    for x in find_ops(v, ("sum",)):
        if x.a[0] in ("i8", "u8", "i16", "u16"):
            w = 2 ** int(x.a[0][1:])
            ck.bad(name, "inner product accumulated in %s: two equal rows of length %d have inner product %d, which wraps to 0" % (x.a[0], w, w), site, show(x))
            return
    ck.ok(name, "no sum over a row in a type of 16 bits or less", site)


def vmodels(lits):
    r = random.Random(7)
    H2 = [[1, 1], [1, -1]]

    def kron(a, b):
        return [[x * y for x in ra for y in rb] for ra in a for rb in b]
    H4 = kron(H2, H2)
    yield Mod(dict(n=2), {"$A": lambda i, j: H2[i][j]})
    yield Mod(dict(n=4), {"$A": lambda i, j: H4[i][j]})
    yield Mod(dict(n=1), {"$A": lambda i, j: 1})
    # orthogonal except for one pair of rows
    for a in range(4):
        for b in range(a + 1, 4):
            yield Mod(dict(n=4), {"$A": lambda i, j, a=a, b=b: H4[a if i == b else i][j]})
    for a in range(4):
        for c in range(4):
            yield Mod(dict(n=4), {"$A": lambda i, j, a=a, c=c: H4[i][j] * (-1 if (i, j) == (a, c) else 1)})
    H8 = kron(H4, H2)
    for a, b in ((0, 7), (6, 7), (3, 4)):
        yield Mod(dict(n=8), {"$A": lambda i, j, a=a, b=b: H8[a if i == b else i][j]})
    for _ in range(20):
        k = r.choice((2, 3, 4))
        A = [[r.choice((1, -1)) for _ in range(k)] for _ in range(k)]
        yield Mod(dict(n=k), {"$A": lambda i, j, A=A: A[i][j]})


def qvmodels(lits):
    r = random.Random(7)

    def model(M):
        return Mod(dict(n=len(M)), {"$Q" + c: lambda i, j, M=M, x=x: M[i][j][x] for x, c in enumerate("sxyz")})
    one, i_, j_, k_ = UNITS[0], UNITS[2], UNITS[4], UNITS[6]
    neg1 = UNITS[1]
    base = [[[one]], [[one, one], [one, neg1]], [[one, i_], [i_, one]], [[one, j_], [j_, one]], [[i_, j_], [i_, pconj(j_)]]]
    H4 = [[one if bin(a & b).count("1") % 2 == 0 else neg1 for b in range(4)] for a in range(4)]
    base.append(H4)
    for M in base:
        yield model(M)
        for u in (i_, j_, k_, UNITS[9]):
            yield model([[pmul(u, e) for e in row] if a == 0 else row for a, row in enumerate(M)])
            yield model([[pmul(e, u) if b == 0 else e for b, e in enumerate(row)] for row in M])
            yield model([[pmul(e, u) if (a, b) == (0, 0) else e for b, e in enumerate(row)] for a, row in enumerate(M)])
    # rows whose product is purely imaginary, in each component and both orders
    for u in (i_, j_, k_):
        yield model([[one, one], [u, u]])
        yield model([[u, u], [one, one]])
        yield model([[one, one, one, one], [one, neg1, u, pconj(u)]] + [list(r_) for r_ in H4[2:]])
    for a in range(4):
        for b in range(4):
            yield model([H4[a] if k == b else H4[k] for k in range(4)])
    for M in base[1:]:
        for u in UNITS:
            yield model([[pmul(u, e) for e in M[0]] if k == 1 else row for k, row in enumerate(M)])
    # norm defects (equal rows)
    for f in (Fraction(1, 2), Fraction(2)):
        yield model([[tuple(f * c for c in e) for e in row] for row in base[1]])
    for _ in range(20):
        k = r.choice((1, 2, 3))
        yield model([[r.choice(UNITS) for _ in range(k)] for _ in range(k)])


def qspec():
    eps = mk("sqrt", mk("const", "core::f32::<impl f32>::EPSILON"))

    def small(x):
        return TM.REBUILD["fgt0"](sub(eps, absval(x)))

    def pair(i, j):
        w = fresh(rng(ZERO, n))
        p = qparts(qmul(qe(i, w), qconj(qe(j, w))))
        s, x, y, z = [msum("", w, rng(ZERO, n), c) for c in p]
        return and_(ite(eq0(sub(i, j)), small(sub(s, n)), small(s)), small(x), small(y), small(z))
    return All(ZERO, n, lambda i: All(ZERO, n, lambda j: pair(i, j)))


def check(ck):
    k = ck.key("verify", "HM")
    st = {}

    def f():
        ip = ck.ip()
        v, _ = ip.run(k, [hm("A", n)], assume=POS)
        st["v"] = v
        ck.no_panic("HM::verify does not panic", k, ip, vmodels)
        wide(ck, "HM::verify accumulates exactly", k, v)
        bare = subst(v, {x: mk("sum", "", *x.a[1:]) for x in find_ops(v, ("sum",)) if x.a[0]})
        A = lambda i, j: mk("app", "$A", i, j)
        spec = All(ZERO, n, lambda i: All(add(i, ONE), n, lambda j: eq0(Sum(ZERO, n, lambda c: mul(A(i, c), A(j, c))))))
        ck.compare("HM::verify is row orthogonality", k, bare, spec, vmodels)
    ck.run("HM::verify is row orthogonality", k, f)
    q = ck.key("verify", "QHM")

    def g():
        ip = ck.ip()
        v, _ = ip.run(q, [qmat()], assume=POS)
        ck.no_panic("QHM::verify does not panic", q, ip, qvmodels)
        ck.compare("QHM::verify compares every pair of rows with n times the identity", q, v, qspec(), qvmodels)
    ck.run("QHM::verify compares every pair of rows with n times the identity", q, g)
