"""The join hands every combination of equal keys to the acceptance test exactly once.

join_pairs_files is summarised with the two files, the tag order and the sequence lists symbolic and the acceptance tests as
an opaque function. The merge loop has no closed form: its normal form is the reviewed one (rules/certified.json); a loop of
another form is judged on valuations of the two line lists (runs of equal keys, runs that end at the end of a file, keys that
are textual prefixes of one another, negative numbers, empty files), in the byte order in which sort arranges them. The
lookup of the four sequences is decided for every tag order."""
import itertools
import random
from qsa.spec import *
from qsa.ob import Mod

FLOOR = 7
ORDERS = ("WXYZ", "YZWX", "WYXZ", "XZWY", "WZXY", "XYWZ")
NSEQ = 12


def acceptance(ck):
    """functions that judge a quadruple or its quaternion sequence: &Self -> bool"""
    out = [k for k in (ck.find(nm, t) for nm, t in (("is_perfect", "QS"), ("verify", "QuadSeq"), ("verify_wts", "QuadSeq"), ("verify_ws", "QuadSeq"),
                                                    ("verify_qts", "QuadSeq"), ("is_periodic_complementary", "QuadSeq"), ("is_amicable", "QuadSeq"),
                                                    ("is_symmetric", "QuadSeq"), ("verify_cross_correlation", "QuadSeq"))) if k]
    return out, [k for k in [ck.find("to_qs", "QuadSeq")] if k]


def accepted(q, *more):
    """a consistent pseudo random acceptance test of the quadruple"""
    f = dict(q[1:]) if isinstance(q, tuple) and q and q[0] == "S" else None
    return True if f is None else sum((i + 1) * (j + 3) * v for j, c in enumerate("abcd") for i, v in enumerate(f[c])) % 5 != 0


def seqs_of(r):
    """four lists of sequences; the sequence names its own list and index"""
    out = []
    for j in range(4):
        L = []
        for i in range(NSEQ):
            x = [1 if (i >> b) & 1 else -1 for b in range(4)] + [1 if (j >> b) & 1 else -1 for b in range(2)] + [1, -1, 1]
            L.append(x)
        out.append(L)
    return out


def line(k, i, j):
    return "".join("%d_" % v for v in k) + ":_%d_%d" % (i, j)


def srt(ls):
    return sorted(ls, key=lambda s: s.encode())


def filepairs(lits=()):
    r = random.Random(5)
    A, B, C = (1,), (10,), (-1,)

    def f(*ks):
        c = itertools.count()
        return srt(line(k, next(c) % NSEQ, r.randrange(NSEQ)) for k in ks)
    for ka, kb in (((A,), (A,)), ((A, A), (A,)), ((A,), (A, A)), ((A, A, A), (A, A)), ((A, B), (B, A)), ((A, B, B), (A, B)), ((A, A, B), (B, B, A)),
                   ((), (A,)), ((A,), ()), ((), ()), ((A,), (B,)), ((B,), (A,)), ((A, B), (B,)), ((B,), (A, B)), ((C, A), (A, C)), ((C, C), (C, C)),
                   ((A, B, C), (C,)), ((A, B, C), (A,)), ((A, B, C), (B,)), ((C,), (A, B, C)), (((),), ((),)), (((), ()), ((), ()))):
        yield f(*ka), f(*kb)
    for width in (1, 2, 3):
        for rep in range(14):
            pool = [tuple(r.choice((0, 1, 2, 10, 11, 12, 100, -1, -10, -12, 4)) for _ in range(width)) for _ in range(r.randrange(1, 7))]
            # sorted files have keys of which one extends another as text
            yield (f(*[r.choice(pool) for _ in range(r.randrange(0, 9))]), f(*[r.choice(pool) for _ in range(r.randrange(0, 9))]))
    for c in sorted({x for x in lits if 6 <= x <= 300}):
        for w in (c - 1, c, c + 1):
            yield f(*[(4,)] * w, B), f(A, *[(4,)] * 2)
            yield f(*[(4,)] * 2, B), f(A, *[(4,)] * w)
    yield f(*[(4,)] * 1100), f(A, *[(4,)] * 2)
    yield f(*[(4,)] * 2), f(A, *[(4,)] * 1100)
    for rep in range(4):
        pool = [(r.randrange(-40, 40) * 4, r.randrange(-40, 40) * 4) for _ in range(12)]
        yield f(*[r.choice(pool) for _ in range(30)]), f(*[r.choice(pool) for _ in range(30)])


def parse(s):
    k, ij = s.split(":_")
    i, j = ij.split("_")
    return k, int(i), int(j)


def models(apps, bools):
    def gen(lits):
        r = random.Random(3)
        S = seqs_of(r)
        fps = list(filepairs(lits))
        for lo, ri in fps:
            fs = {"./results/x/pair_12.pair.sorted": lo, "./results/x/pair_34.pair.sorted": ri}
            for acc in (lambda *a: True, accepted):
                a = dict(apps)
                for k in bools:
                    a[k] = acc
                m = Mod(dict(f1="./results/x/pair_12.pair.sorted", f2="./results/x/pair_34.pair.sorted", s0=S[0], s1=S[1], s2=S[2], s3=S[3]), a)
                m.files = lambda p, fs=fs: fs[p]
                m.L, m.R, m.S, m.acc = lo, ri, S, acc
                yield m
    return gen


def want(m, order, typ):
    out = []
    for a in m.L:
        ka, i1, i2 = parse(a)
        for b in m.R:
            kb, i3, i4 = parse(b)
            if ka != kb:
                continue
            ix = dict(zip(order, (i1, i2, i3, i4)))
            q = [m.S[j][ix[c]] for j, c in enumerate("WXYZ")]
            v = ("S", ("size", len(q[0]))) + tuple(zip("abcd", q))
            if typ and m.acc(v):
                out.append((tuple(map(tuple, q)), ka, (i1, i2, i3, i4)))
    return out


def pred(order, typ):
    def f(m, v):
        w = sorted(x[0] for x in want(m, order, typ))
        got = []
        for q in v:
            d = dict(q[1:])
            if d["size"] != len(d["a"]):
                return "size %s of a quadruple of length %d" % (d["size"], len(d["a"]))
            got.append(tuple(tuple(d[c]) for c in "abcd"))
        got.sort()
        if got == w:
            return None
        missing = [x for x in want(m, order, typ) if x[0] not in got]
        extra = [x for x in got if x not in w]
        return "left %s\nright %s\n%d combinations instead of %d%s%s" % (m.L, m.R, len(got), len(w), "; missing key %s indices %s" % missing[0][1:] if missing else "",
                                                                       "; unexpected %s" % (extra[0],) if extra else "")
    return f


def check(ck):
    key = ck.key("join_pairs_files")
    bools, conv = acceptance(ck)
    apps = {k: (lambda q: q) for k in conv}

    def one(order, kind):
        ip = ck.ip(uninterp=bools + conv)
        o = mk("tuple", *[tag(c) for c in order])
        s = mk("tuple", *[Sym("s%d" % i, "list") for i in range(4)])
        v, st = ip.run(key, [mk("tuple", Sym("f1", "str"), Sym("f2", "str")), stype(kind), o, s], assume=POS)
        return v
    for order in ORDERS:
        ck.certified_rel("combinations for tag order %s" % order, key, lambda: one(order, "QuaternionType"), pred(order, True), models(apps, bools),
                         "merge of two sorted line lists: one accepted quadruple per pair of lines with equal key")
    for kind in ("WilliamsonType", "Williamson"):
        ck.certified_rel("combinations for type %s" % kind, key, lambda: one("WZXY", kind), pred("WZXY", True), models(apps, bools),
                         "merge of two sorted line lists: one accepted quadruple per pair of lines with equal key")
    for kind in OTHER_TYPES[:4]:
        ck.certified_rel("no result for type %s" % kind, key, lambda: one("WZXY", kind), pred("WZXY", False), models(apps, bools), "the acceptance test of a type without definition is false")
