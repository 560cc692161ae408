"""Hadamard construction places the four blocks with the documented signs.

The matrix built from a quadruple is summarised entry by entry; its 16 blocks are read off the summary for a symbolic
length, and the block rows are shown orthogonal from the quaternion-type correlation identities."""
import random
from fractions import Fraction
from rules.eqv import *
from qsa.ob import Fail, Undecided, Mod

FLOOR = 9
HMT = "sequences::matrices::HM"
QHMT = "sequences::matrices::QHM"
SEQS = "abcd"


def mat(name, n_, binary=True):
    """a symbolic n x n matrix"""
    m = Arr(name, n_)
    w = fresh(rng(ZERO, n_))
    z = fresh(rng(ZERO, n_))
    return lam(n_, w, lam(n_, z, mk("app", "$" + name, w, z)))


def hm(name, n_):
    return mk("struct", HMT, (("size", n_), ("matrix", mat(name, n_))))


def circulant(x, n_):
    i, j = fresh(rng(ZERO, n_)), fresh(rng(ZERO, n_))
    return lam(n_, i, lam(n_, j, sel(x, mk_mod(sub(j, i), n_))))


def ident(o):
    """the quaternion-type identities in orientation o of the offset, as vectors over ordered pairs (P,Q) standing for P Q^T"""
    def D(p, q):
        return {(p, q): 1, (q, p): -1}

    def minus(x, y):
        r = dict(x)
        for k, v in y.items():
            r[k] = r.get(k, 0) - o * v
        return r
    return [minus(D("a", "b"), D("d", "c")), minus(D("a", "c"), D("b", "d")), minus(D("a", "d"), D("c", "b"))]


def inspan(v, basis):
    keys = sorted(set(v) | {k for b in basis for k in b})
    rows = [[Fraction(b.get(k, 0)) for k in keys] for b in basis]
    t = [Fraction(v.get(k, 0)) for k in keys]
    piv = []
    for r in rows:
        for p, q in piv:
            if r[p]:
                f = r[p] / q[p]
                r[:] = [x - f * y for x, y in zip(r, q)]
        nz = [i for i, x in enumerate(r) if x]
        if nz:
            piv.append((nz[0], r))
    for p, q in piv:
        if t[p]:
            f = t[p] / q[p]
            t = [x - f * y for x, y in zip(t, q)]
    return not any(t)


def orthogonal(arr):
    """rows orthogonal under the identities, in one of the two orientations of the offset for all of them"""
    w = [orthogonal_(arr, o) for o in (1, -1)]
    return None if None in w else w[1]


def orthogonal_(arr, o):
    """arr[r][c] = (sign, sequence): returns None or a message"""
    for r in range(4):
        if sorted(s for _, s in arr[r]) != list(SEQS):
            return "block row %d does not consist of the four sequences: %s" % (r, arr[r])
        for s in range(r):
            v = {}
            for k in range(4):
                (e, p), (f, q) = arr[r][k], arr[s][k]
                v[(p, q)] = v.get((p, q), 0) + e * f
            if not inspan(v, ident(o)):
                return "block rows %d and %d are not orthogonal under the quaternion-type identities: %s . %s" % (s, r, arr[s], arr[r])
    return None


def arrangement(m, M):
    """read the 4x4 arrangement off a concrete matrix"""
    n_ = m.syms["n"]
    if not isinstance(M, list) or len(M) != 4 * n_ or any(len(r) != 4 * n_ for r in M):
        return None, "the matrix is not %d x %d" % (4 * n_, 4 * n_)
    arr = []
    for R in range(4):
        row = []
        for C in range(4):
            blk = [[M[R * n_ + i][C * n_ + j] for j in range(n_)] for i in range(n_)]
            hit = [(e, s) for e in (1, -1) for s in SEQS if all(blk[i][j] == e * m.syms[s][(j - i) % n_] for i in range(n_) for j in range(n_))]
            if not hit:
                return None, "block (%d,%d) is no circulant of one of the sequences: %s" % (R, C, blk)
            row.append(hit)
        arr.append(row)
    return arr, None


def models(lits):
    r = random.Random(3)
    for k in (5, 6, 7, 3, 4, 9, 1, 2):
        for _ in range(4):
            yield Mod(dict([("n", k)] + [(s, [r.choice((-1, 1)) for _ in range(k)]) for s in SEQS]))


def construction(ck):
    key = ck.key("from_williamson", "HM")
    st = {}

    def f():
        ip = ck.ip()
        v, _ = ip.run(key, [quadseq(), stype(QT)], assume=POS)
        ck.no_panic("construction does not panic for quaternion type", key, ip, models)
        size, M = field(v, "size"), field(v, "matrix")
        st["v"] = v
        arr = []
        i, j = fresh(rng(ZERO, n)), fresh(rng(ZERO, n))
        idx = mk_mod(sub(j, i), n)
        q = quadseq()
        want = {}
        for s in SEQS:
            e = sel(field(q, s), idx)
            want[e] = (1, s)
            want[neg(e)] = (-1, s)
        TM.ASSUME.extend(POS)
        try:
            for R in range(4):
                row = []
                for C in range(4):
                    e = sel(sel(M, add(scale(n, R), i)), add(scale(n, C), j))
                    row.append(want.get(e))
                arr.append(row)
        finally:
            del TM.ASSUME[len(TM.ASSUME) - len(POS):]
        if size is scale(n, 4) and all(x is not None for r in arr for x in r):
            w = orthogonal(arr)
            if w:
                ck.bad("blocks of the Hadamard matrix", w, key, str(arr))
            else:
                ck.ok("blocks of the Hadamard matrix", "16 circulant blocks, pairwise orthogonal block rows from the three identities (linear algebra over the pairs)", key, str(arr))
            return

        def pred(m, x):
            d = dict(x[1:])
            if d["size"] != 4 * m.syms["n"]:
                return "size %s" % d["size"]
            arr, w = arrangement(m, d["matrix"])
            if w:
                return w
            if all(len(z) == 1 for r in arr for z in r):
                return orthogonal([[z[0] for z in r] for r in arr])
            return None
        ck.certified_rel("blocks of the Hadamard matrix", key, v, pred, models)
    ck.run("blocks of the Hadamard matrix", key, f)

    g = ck.key("get_qts", "HM")

    def back():
        if "v" not in st:
            raise Undecided("construction not summarised")
        r, _ = ck.ip().run(g, [st["v"]], assume=POS)
        return r
    ck.same("reading the sequences back returns the quadruple", g, back, quadseq(), lambda l: models(l))


def check(ck):
    k = ck.key("from_sequence", "HM")
    x = parr("s")
    ck.same("circulant of a sequence", k, lambda: ck.ip().run(k, [x])[0], mk("struct", HMT, (("size", n), ("matrix", circulant(x, n)))), onearr)
    construction(ck)
    k = ck.key("from_pqs", "QHM")
    q, parts = qarr("q")
    ck.same("circulant of a quaternion sequence", k, lambda: ck.ip().run(k, [mk("struct", QS, (("size", n), ("values", q)))])[0],
            mk("struct", QHMT, (("size", n), ("matrix", circulant(q, n)))), lambda l: qmodels(parts))
    k = ck.key("copy_block_to", "HM")
    N, p, c0, r0 = Sym("N", "usize"), Sym("p", "usize"), Sym("c0", "usize"), Sym("r0", "usize")
    for op in ("NONE", "MINUS", "TRANSPOSE", "MINUSTRANSPOSE"):
        def f(op=op):
            fid = ("$t", 0)
            ip = ck.ip()
            env = {fid: hm("A", N)}
            v, st = ip.run(k, [mk("ref", "$t", 0, ()), hm("B", p), r0, c0, mk("enum", "sequences::matrices::OpMat", op, ())], env=env, assume=[p, sub(N, add(r0, p)), sub(N, add(c0, p))])
            return st.env[fid]

        def spec(op=op):
            i, j = fresh(rng(ZERO, N)), fresh(rng(ZERO, N))
            a, b = sub(i, r0), sub(j, c0)
            if "TRANS" in op:
                a, b = b, a
            e = mk("app", "$B", a, b)
            if "MINUS" in op:
                e = neg(e)
            inr = and_(le(r0, i), lt(i, add(r0, p)), le(c0, j), lt(j, add(c0, p)))
            return mk("struct", HMT, (("size", N), ("matrix", lam(N, i, lam(N, j, ite(inr, e, mk("app", "$A", i, j)))))))
        ck.same("block copy with %s" % op, k, f, spec, blockmodels)


def onearr(lits):
    r = random.Random(2)
    for k in range(1, 9):
        yield Mod(dict(n=k, s=[r.choice((-1, 1)) for _ in range(k)]))


def qmodels(parts):
    r = random.Random(2)
    for k in range(1, 8):
        yield Mod(dict([("n", k)] + [(p.a[0], [r.randrange(-3, 4) for _ in range(k)]) for p in parts]))


def blockmodels(lits):
    r = random.Random(2)
    for k in range(40):
        N, p = r.choice((3, 4, 6)), r.choice((1, 2, 3))
        yield Mod(dict(N=N, p=p, r0=r.randrange(N - p + 1), c0=r.randrange(N - p + 1)), {"$A": lambda i, j: 100 + 10 * i + j, "$B": lambda i, j: 1 + 5 * i + j})
