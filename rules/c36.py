"""Verdicts and counts the programs print are those of the data.

The complete effects of the commands, printed lines included, are summarised from the compiler's typed IR with the functions
that are decided by other properties kept opaque. The test for non-commuting entries is summarised over a matrix with opaque
entries and judged against its definition; the printed counts have to be the numbers of lines converted and of matrices for
which that test is true; the verdict on a list is printed only behind both conditions on every one of its sequences."""
import random
import re
from fractions import Fraction
from qsa.spec import *
from qsa.models import FX
from qsa.ob import Mod
from qsa.world import printed
from rules.c19 import UNITS, pmul, qmat, qval

FLOOR = 4


def commute(x, y):
    return tuple(pmul(x, y)) == tuple(pmul(y, x))


def cmodels(lits):
    """matrices as the conversion leaves them: first row and first column 1"""
    r = random.Random(36)
    U = [u for u in UNITS]
    cls = {}
    for u in U:
        cls.setdefault(tuple(commute(u, v) for v in U), []).append(u)
    one = next(u for u in U if u[0] == 1)
    com = max((c for c in cls.values() if not all(commute(u, v) for u in c for v in U)), key=len)     # a set of commuting units
    for k in (1, 2, 3, 4, 5, 2, 3, 4, 5, 3, 4, 6):
        for rep in range(6):
            A = {}
            for i in range(k):
                for j in range(k):
                    A[i, j] = one if i == 0 or j == 0 else r.choice(com if rep < 4 else U)
            if rep in (1, 2, 3) and k > 1:
                # one entry that departs from the commuting ones, at any place
                cells = [(i, j) for i in range(1, k) for j in range(1, k)]
                c = [cells[-1], cells[0], r.choice(cells)][rep - 1]
                A[c] = r.choice([u for u in U if not all(commute(u, v) for v in com)])
            m = Mod(dict(n=k), {"$Q" + c: lambda i, j, A=A, x=x: A[(i, j)][x] for x, c in enumerate("sxyz")})
            m.A, m.k = A, k
            yield m


def cpred(m, v):
    es = set(m.A.values())
    pair = next(((x, y) for x in es for y in es if not commute(x, y)), None)
    if bool(v) != (pair is not None):
        return ("entries %s and %s do not commute, the test is false" % pair if pair else "all entries commute, the test is true") + " (size %d)" % m.k
    return None


def check(ck):
    kt = ck.find("contains_non_commuting_elements", "QHM")
    if kt:
        def f():
            ip = ck.ip()
            v, _ = ip.run(kt, [qmat()], assume=POS)
            return v
        ck.certified_rel("a matrix is classified by whether two of its entries do not commute", kt, f, cpred, cmodels,
                         "entries are compared with every entry recorded before them; an entry is skipped only when an equal one is recorded")

    # reading a matrix
    for nm, args in (("get", [n_i, n_j]),):
        k = ck.find(nm, "QHM")
        if k:
            def g(k=k, args=args):
                ip = ck.ip()
                v, _ = ip.run(k, [qmat()] + args, assume=POS + [TM_ge(sub(sub(n, args[0]), ONE)), TM_ge(sub(sub(n, args[1]), ONE))])
                return v

            def gm(lits):
                r = random.Random(5)
                for c in (3, 4, 2):
                    A = {(i, j): r.choice(UNITS) for i in range(c) for j in range(c)}
                    for i in range(c):
                        for j in range(c):
                            m = Mod(dict(n=c, i=i, j=j), {"$Q" + e: lambda i, j, A=A, x=x: A[(i, j)][x] for x, e in enumerate("sxyz")})
                            m.w = (i, j, A[i, j])
                            yield m
            ck.certified_rel("an entry of a quaternion matrix is read at its row and column", k, g,
                             lambda m, v: None if qval(v) == tuple(Fraction(c) for c in m.w[2]) else "entry (%d, %d) is read as %s, it is %s" % (m.w[0], m.w[1], qval(v), m.w[2]), gm, "")
    lines(ck)
    verdict(ck)


n_i, n_j = Sym("i", "usize"), Sym("j", "usize")


def TM_ge(t):
    from qsa.terms import ge0
    return ge0(t)


def lines(ck):
    k = ck.find("convert_qs_to_matrices")
    kt = ck.find("contains_non_commuting_elements", "QHM")
    if not k or not kt:
        return
    U = [ck.key("to_string", "QHM"), ck.key("from_pqs", "QHM"), ck.key("from_str", "QS"), ck.key("dephase", "QHM"), kt]
    name = "the conversion to quaternion matrices counts its lines and the matrices with non-commuting entries"

    def models(lits):
        r = random.Random(3)
        for c in (3, 1, 0, 2, 6, 9, 5):
            L = ["s%d" % r.randrange(90) for _ in range(c)]
            m = Mod(dict(n=1009), {U[0]: lambda h: "| |\n", U[1]: lambda q: ("H", q[1], "raw"), U[2]: lambda s: ("QS", s), U[3]: lambda h: ("H", h[1], "deph"),
                                   U[4]: lambda h: (int(h[1][1:]) % 3 == 1) == (h[2] == "deph")})
            m.files = lambda p, L=L: L
            m.lines = L
            yield m

    def pred(m, evs):
        got = [int(x) for l in printed(evs).split("\n") if "results/" not in l for x in re.findall(r"\d+", l)]
        want = {len(m.lines), sum(int(x[1:]) % 3 == 1 for x in m.lines)}
        extra = [x for x in got if x not in want and x != 1009]
        if extra:
            return "%s is printed for %d sequences, %d of them with non-commuting entries: %r" % (extra, len(m.lines), sum(int(x[1:]) % 3 == 1 for x in m.lines), printed(evs)[-200:])
        w2 = sorted([len(m.lines), sum(int(x[1:]) % 3 == 1 for x in m.lines)])
        if got and sorted(x for x in got if x != 1009) != w2:
            return "%s is printed for %d sequences, %d of them with non-commuting entries: %r" % (got, w2[1], w2[0], printed(evs)[-200:])
        return None

    def f():
        ip = ck.ip(uninterp=[u for u in U if u != U[3]])
        ip.prints = True

        def deph(ip, st, args, e):
            r = args[0]
            ip.store(r, mk("app", U[3], ip.val(r, st)), st)
            return mk("tuple")
        ip.keep[U[3]] = deph
        _, st = ip.run(k, [stype("WilliamsonType"), n], assume=POS)
        ck.certified_rel(name, k, st.env.get(FX, mk("vec")), pred, models)
    ck.run(name, k, f)


def verdict(ck):
    k = ck.find("verify_qts_eq_wts")
    if not k:
        return
    U = [ck.key("from_str", "QS"), ck.key("from_pqs", "QuadSeq"), ck.key("verify_qts", "QuadSeq"), ck.key("is_amicable", "QuadSeq"), ck.key("to_string", "QuadSeq")]
    name = "the check of a list of quaternion-type sequences fails unless every one is valid and amicable"

    def models(lits):
        for L in ([], ["a"], ["q"], ["w"], ["a", "a"], ["a", "q"], ["q", "a"], ["w", "a", "a"], ["a", "a", "w"], ["a", "w", "a"], ["x"], ["a", "x"], ["a"] * 4, ["a", "a", "a", "q"]):
            m = Mod(dict(n=1009), {U[0]: lambda s: ("QS", s), U[1]: lambda q: ("Q", q[1]), U[2]: lambda q: q[1] in "aq", U[3]: lambda q: q[1] in "aw", U[4]: lambda q: "text"})
            m.files = lambda p, L=L: L
            m.lines = L
            yield m

    def f():
        ip = ck.ip(uninterp=U)
        _, st = ip.run(k, [n], assume=POS)
        c = or_(*[and_(*pc) for what, pc, fn, sp in ip.panics])

        def pred(m, v):
            bad = [x for x in m.lines if x != "a"]
            if bool(bad) != bool(v):
                t = {"a": "valid and amicable", "q": "valid, not amicable", "w": "amicable, not valid", "x": "neither"}
                return "a list with the sequences (%s) %s" % (", ".join(t[x] for x in m.lines), "is rejected" if v else "passes the check")
            return None
        ck.certified_rel(name, k, c, pred, models, "both assertions on every element")
    ck.run(name, k, f)
