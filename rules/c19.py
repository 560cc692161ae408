"""Dephasing yields a normalised matrix, in place and as a copy alike.

The entry (r,c) of the result is summarised for a symbolic size and a symbolic matrix. For entries of norm one the only
normalised matrix that row and column units lead to is M[0][c] M[r][c] M[r][0] M[0][0] (real case), and
v' (conj(M[r][0]) M[r][c] conj(M[0][c]) M[0][0]) v with a unit v (quaternions)."""
import random
from fractions import Fraction
from rules.c18 import *

FLOOR = 6


def qmat(name="Q"):
    w, z = fresh(rng(ZERO, n)), fresh(rng(ZERO, n))
    return mk("struct", QHMT, (("size", n), ("matrix", lam(n, w, lam(n, z, qe(w, z, name))))))


def qe(i, j, name="Q"):
    return quat(*[mk("app", "$" + name + c, i, j) for c in "sxyz"])


def qconj(q):
    a, b, c, d = qparts(q)
    return quat(a, neg(b), neg(c), neg(d))


def units():
    out = []
    for k in range(4):
        for s in (1, -1):
            out.append(tuple(Fraction(s if i == k else 0) for i in range(4)))
    h = Fraction(1, 2)
    for m in range(16):
        out.append(tuple(h if m >> i & 1 else -h for i in range(4)))
    return out


UNITS = units()


def pmul(p, q):
    a, b, c, d = p
    w, x, y, z = q
    return (a * w - b * x - c * y - d * z, a * x + b * w + c * z - d * y, a * y + c * w + d * x - b * z, a * z + d * w + b * y - c * x)


def pconj(p):
    return (p[0], -p[1], -p[2], -p[3])


def hmodels(lits):
    r = random.Random(5)
    for k in (2, 3, 1, 4, 5, 2, 3, 4, 3, 2, 6, 4):
        A = {(i, j): r.choice((1, -1)) for i in range(k) for j in range(k)}
        yield Mod(dict(n=k), {"$A": lambda i, j, A=A: A[(i, j)]})


def umodels(lits):
    r = random.Random(5)
    for k in (2, 3, 1, 4, 2, 3, 4, 3, 2, 5):
        for pool in (UNITS[:8], UNITS):
            A = {(i, j): r.choice(pool) for i in range(k) for j in range(k)}
            m = Mod(dict(n=k), {"$Q" + c: lambda i, j, A=A, x=x: A[(i, j)][x] for x, c in enumerate("sxyz")})
            m.A = A
            yield m


def qval(x):
    """components of a quaternion value"""
    d = dict(x[1:])
    v = dict(d["v"][1:])
    return (Fraction(d["s"]), Fraction(v["x"]), Fraction(v["y"]), Fraction(v["z"]))


def result(ck, name, im, arg, ip):
    k = ck.key(name, im)
    if name == "dephase":
        _, st = ip.run(k, [mk("ref", "$t", 0, ())], env={("$t", 0): arg}, assume=POS)
        return k, st.env[("$t", 0)]
    v, _ = ip.run(k, [arg], assume=POS)
    return k, v


def check(ck):
    for im, arg, ms in (("HM", hm("A", n), hmodels), ("QHM", qmat(), umodels)):
        got = {}
        for name in ("dephase", "dephased"):
            ob = "%s::%s normalises" % (im, name)
            site = ck.key(name, im)

            def f(im=im, name=name, ob=ob, site=site, arg=arg, ms=ms):
                ip = ck.ip()
                k, v = result(ck, name, im, arg, ip)
                got[name] = v
                ck.no_panic("%s::%s does not panic" % (im, name), k, ip, ms)
                r, c = fresh(rng(ZERO, n)), fresh(rng(ZERO, n))
                if im == "HM":
                    e = mul(mul(mk("app", "$A", ZERO, c), mk("app", "$A", r, c)), mul(mk("app", "$A", r, ZERO), mk("app", "$A", ZERO, ZERO)))
                else:
                    e = qmul(qmul(qe(ZERO, ZERO), qconj(qe(r, ZERO))), qmul(qe(r, c), qconj(qe(ZERO, c))))
                want = mk("struct", HMT if im == "HM" else QHMT, (("size", n), ("matrix", lam(n, r, lam(n, c, e)))))
                if v is want:
                    ck.ok(ob, "entry (r,c) is the unique normalised one up to a unit", k, show(v)[:600])
                    return
                ck.certified_rel(ob, k, v, pred_real if im == "HM" else pred_quat, ms)
            ck.run(ob, site, f)

        def alike(im=im, got=got, ms=ms):
            if len(got) < 2:
                raise Undecided("a variant is not summarised")
            ck.compare("%s: in place and copy agree" % im, ck.key("dephased", im), got["dephase"], got["dephased"], ms)
        ck.run("%s: in place and copy agree" % im, ck.key("dephased", im), alike)


def shape(m, x):
    d = dict(x[1:])
    k = m.syms["n"]
    M = d["matrix"]
    if d["size"] != k or len(M) != k or any(len(r) != k for r in M):
        return None
    return M


def pred_real(m, x):
    M = shape(m, x)
    k = m.syms["n"]
    if M is None:
        return "the result is not a %d x %d matrix" % (k, k)
    A = m.apps["$A"]
    for r in range(k):
        for c in range(k):
            w = A(0, c) * A(r, c) * A(r, 0) * A(0, 0)
            if M[r][c] != w:
                return "entry (%d,%d) is %s, the normalised matrix has %s there" % (r, c, M[r][c], w)
    return None


def pred_quat(m, x):
    M = shape(m, x)
    k = m.syms["n"]
    if M is None:
        return "the result is not a %d x %d matrix" % (k, k)
    M = [[qval(e) for e in r] for r in M]
    A = m.A
    one = (1, 0, 0, 0)
    for i in range(k):
        if M[0][i] != one:
            return "entry (0,%d) is %s, not one" % (i, M[0][i])
        if M[i][0] != one:
            return "entry (%d,0) is %s, not one" % (i, M[i][0])
    X = [[pmul(pmul(pconj(A[(r, 0)]), A[(r, c)]), pmul(pconj(A[(0, c)]), A[(0, 0)])) for c in range(k)] for r in range(k)]
    for v in UNITS:
        if all(pmul(pmul(pconj(v), X[r][c]), v) == M[r][c] for r in range(k) for c in range(k)):
            return None
    return "no unit multiples of the rows and columns give this matrix"
