"""Row sum decompositions are sound, ordered and sign-complete.

The enumeration of sorted quadruples with a given sum of squares is summarised as a recurrence over its state (the
quadruple); the generator's summary is taken both over any list of such quadruples and composed with it."""
import random
from qsa.spec import *
from qsa.ob import Mod, Undecided, Fail

FLOOR = 6
KINDS = ("QuaternionType", "WilliamsonType", "Williamson")


def four(p):
    out = []
    a = 0
    while 4 * a * a <= p:
        b = a
        while a * a + 3 * b * b <= p:
            c = b
            while a * a + b * b + 2 * c * c <= p:
                d2 = p - a * a - b * b - c * c
                d = int(d2 ** .5 + .5)
                if d * d == d2 and d >= c:
                    out.append((a, b, c, d))
                c += 1
            b += 1
        a += 1
    return out


def variants(k, kind, quads):
    out = []
    for q in quads:
        if all(x % 2 == k % 2 for x in q):
            out.append(tuple(q))
            if kind == "QuaternionType" and 0 not in q and len(set(q)) == 4:
                out.append(tuple(q[:3]) + (-q[3],))
    return out


def diff(got, want):
    g, w = sorted(tuple(x) for x in got), sorted(want)
    if g == w:
        return None
    miss = [x for x in w if x not in g]
    extra = [x for x in g if x not in w]
    return "missing %s" % (miss[:3],) if miss else "not allowed %s" % (extra[:3],) if extra else "a quadruple is listed more than once"


def sizes(lits, top, cap):
    return sorted(set(range(0, top)) | {x for c in lits for x in (c - 1, c, c + 1) if top <= x <= cap})


def pmodels(lits):
    for p in sizes(lits, 70, 300) + [76, 84, 100, 104, 116, 124, 140, 156, 164, 172]:
        m = Mod(dict(p=p))
        m.p = p
        yield m


def check(ck):
    four_k = ck.key("sum_of_four_squares")
    gen_k = ck.key("generate_rowsums")
    p = Sym("p", "usize")

    def sq():
        ip = ck.ip()
        v, _ = ip.run(four_k, [p], assume=[])
        return v
    ck.certified_rel("sorted quadruples of non-negative integers with a given sum of squares", four_k, sq,
                     lambda m, v: (lambda w: w and "sum %d: %s" % (m.p, w))(diff(v, four(m.p))), pmodels,
                     "a step goes to the lexicographic successor among sorted quadruples whose sum of squares stays within the bound: raising a later entry only increases the sum, so a block that exceeds the bound holds no solution")
    for kind in KINDS:
        def one(kind=kind):
            ip = ck.ip(uninterp=[four_k])
            v, _ = ip.run(gen_k, [n, stype(kind)], assume=POS)
            return v

        def models(lits, kind=kind):
            r = random.Random(6)
            for k in list(range(1, 12)) + sizes(lits, 0, 60)[1:] + [21, 30]:
                for rep in range(4):
                    if rep:
                        L = [q for q in four(4 * k) if r.random() < .5]
                    else:
                        L = four(4 * k)
                    asked = []

                    def f(q, L=L, asked=asked):
                        asked.append(q)
                        return list(L)
                    m = Mod(dict(n=k), {four_k: f})
                    m.n, m.L, m.asked = k, L, asked
                    yield m

        def pred(m, v, kind=kind):
            a = set(m.asked)
            m.asked.clear()
            if a - {4 * m.n}:
                return "length %d: quadruples with sum of squares %s are used" % (m.n, sorted(a))
            w = diff(v, variants(m.n, kind, m.L))
            return w and "length %d, quadruples %s: %s" % (m.n, m.L[:6], w)
        ck.certified_rel("parity filter and sign variants for " + kind, gen_k, one, pred, models, "pointwise over the list")

        def whole(kind=kind):
            ip = ck.ip()
            v, _ = ip.run(gen_k, [n, stype(kind)], assume=POS)
            return v

        def wmodels(lits):
            for k in range(1, 41):
                m = Mod(dict(n=k))
                m.n = k
                yield m

        def wpred(m, v, kind=kind):
            if any(tuple(map(abs, q)) != tuple(sorted(map(abs, q))) for q in v):
                return "length %d: a quadruple is not sorted" % m.n
            w = diff(v, variants(m.n, kind, four(4 * m.n)))
            return w and "length %d: %s" % (m.n, w)
        ck.certified_rel("row sums generated for " + kind, gen_k, whole, wpred, wmodels, "composition of the two")

    # the test by which lists are filtered
    test_k = ck.find("has_sorted_rowsums")
    if test_k:
        def test():
            ip = ck.ip()
            v, _ = ip.run(test_k, [quadseq()], assume=POS)
            return v

        def tmodels(lits):
            r = random.Random(24)
            for k in (5, 6, 7, 8, 9, 1, 2, 3, 12):
                vals = range(-k, k + 1, 2)
                seen = set()
                base = sorted(abs(x) for x in vals)
                for rep in range(150):
                    q = sorted(r.choice(base) for _ in range(4))
                    if rep % 3 == 1:
                        q[3] = -q[3]
                    elif rep % 3 == 2:
                        i, j = r.sample(range(4), 2)
                        q[i], q[j] = q[j] * r.choice((1, -1)), q[i] * r.choice((1, -1))
                    q = tuple(q)
                    if q in seen:
                        continue
                    seen.add(q)
                    d = {}
                    for c, s in zip("abcd", q):
                        p_ = (k + s) // 2
                        a = [1] * p_ + [-1] * (k - p_)
                        r.shuffle(a)
                        d[c] = a
                    m = Mod(dict(d, n=k))
                    m.q = q
                    yield m

        def tpred(m, v):
            a, b, c, d = q = m.q
            if d < 0 and (0 in q or len(set(map(abs, q))) != 4):
                if len(set(q)) == 4 and 0 not in q:
                    return None      # distinct entries, equal squares: the generator does not use it, the text leaves the test open
                want = False
            else:
                want = 0 <= a <= b <= c <= abs(d)
            if bool(v) != want:
                return "row sums %s are %s" % (q, "accepted, they are not in normal form" if v else "rejected, they are in normal form")
            return None
        ck.certified_rel("the test for normal row sums", test_k, test, tpred, tmodels, "0 <= w <= x <= y <= |z|, z >= 0 unless the entries are distinct and non-zero")
    filt_k = ck.find("filter_by_rowsums")
    if test_k and filt_k:
        def filt():
            ip = ck.ip(uninterp=[test_k])
            v, _ = ip.run(filt_k, [Sym("L", "vec")])
            return v

        def fmodels(lits):
            r = random.Random(25)
            for k in range(0, 7):
                for rep in range(4):
                    L = ["s%d" % r.randrange(9) for _ in range(k)]
                    m = Mod(dict(L=L), {test_k: lambda q: int(q[1:]) % 2 == 0})
                    m.L = L
                    yield m

        def fpred(m, v):
            want = [q for q in m.L if int(q[1:]) % 2 == 0]
            if sorted(v) != sorted(want):
                return "of %s (even ones pass the test) %s are kept" % (m.L, v)
            return None
        ck.certified_rel("filtering by row sums keeps exactly the quadruples that pass the test", filt_k, filt, fpred, fmodels, "filter")
