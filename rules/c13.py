"""Keys of complementary pairs are equal strings.

The pair writer is summarised for both sides of the equation, with the transforms as opaque functions; the normal forms of
the two sides are the reviewed ones. Other forms are judged on valuations with the exact transform: the right side of a
couple negates the left side (4n minus it, for the power spectral density) component by component, and the two couples of
a valid quadruple get the same key."""
import random
import re
from qsa.spec import *
from qsa.ob import Mod
from qsa.world import summary, outputs, WorldError
from rules import c12

FLOOR = 18
PAIRINGS = (("WX", "YZ"), ("WY", "XZ"), ("WZ", "XY"))


def paf(x, s):
    k = len(x)
    return sum(x[i] * x[(i + s) % k] for i in range(k))


def complementary(q):
    k = len(q[0])
    return all(sum(paf(x, s) for x in q) == 0 for s in range(1, k))


def symseqs(k):
    h = k // 2 + 1
    for w in range(1 << h):
        b = [1 if (w >> i) & 1 else -1 for i in range(h)]
        yield [b[min(i, k - i)] for i in range(k)]


_Q = {}


def quads(k, sym):
    """some valid quadruples of length k (symmetric: Williamson; else common shifts and, for small k, all amicable ones)"""
    if (k, sym) in _Q:
        return _Q[k, sym]
    r = random.Random(k)
    S = list(symseqs(k))
    by = {}
    for x in S:
        by.setdefault(tuple(paf(x, s) for s in range(1, k // 2 + 1)), []).append(x)
    keys = list(by)
    sums = {}
    for p in keys:
        for q in keys:
            sums.setdefault(tuple(a + b for a, b in zip(p, q)), []).append((p, q))
    out = []
    ks = list(sums)
    r.shuffle(ks)
    for u in ks:
        m = tuple(-x for x in u)
        if m not in sums:
            continue
        for _ in range(3):
            p, q = r.choice(sums[u])
            p2, q2 = r.choice(sums[m])
            out.append([list(r.choice(by[z])) for z in (p, q, p2, q2)])
        if len(out) >= 12:
            break
    if not sym:
        more = []
        for Q in out:
            c = r.randrange(k)
            Q = [x[c:] + x[:c] for x in Q]
            if k % 2 == 0 and r.random() < .5:
                Q = [[v * (-1) ** i for i, v in enumerate(x)] for x in Q]
            more.append([[v * r.choice((1,)) for v in x] for x in Q])
        if k <= 3:
            for w in range(1 << (4 * k)):
                b = [1 if (w >> i) & 1 else -1 for i in range(4 * k)]
                Q = [b[j * k:(j + 1) * k] for j in range(4)]
                if complementary(Q) and all(c12.amicable(Q[i], Q[j]) for i in range(4) for j in range(i)):
                    more.append(Q)
            r.shuffle(more)
            more = more[:24]
        out = more
    _Q[k, sym] = [q for q in out if complementary(q)]
    return _Q[k, sym]


def keys_of(evs):
    """couple -> key"""
    files = outputs(evs)
    out = {}
    for body in files.values():
        for x in body.split("\n")[:-1]:
            z = re.match(r"^(.*):_(\d+)_(\d+)$", x)
            if not z:
                raise WorldError("line %r" % x)
            out[int(z.group(2)), int(z.group(3))] = z.group(1)
    return out


def numbers(key):
    return [int(x) for x in key.split("_") if x != ""]


def models(U, kind, pl, pr):
    def gen(lits):
        ap = c12.apps(U)
        for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13):
            for Q in quads(k, kind == "WS")[:10]:
                d = dict(zip("WXYZ", Q))
                s = dict(n=k, folder="./results/pairs/x", r0=1, r1=1, r2=1, r3=1)
                s.update(l0=[d[pl[0]]], l1=[d[pl[1]]], m0=[d[pr[0]]], m1=[d[pr[1]]])
                m = Mod(s, ap)
                m.Q, m.n = Q, k
                yield m
    return gen


def pred_comp(kind, pl, pr):
    def f(m, v):
        try:
            L, R = keys_of(v[0][0]), keys_of(v[1][0])
        except WorldError as ex:
            return str(ex)
        if (0, 0) not in L or (0, 0) not in R:
            return None          # whether a couple is written is another property
        if L[0, 0] != R[0, 0]:
            return "quadruple %s: key %r on the left, %r on the right" % (m.Q, L[0, 0], R[0, 0])
        return None
    return f


def couples(kind):
    r = random.Random(5)
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12):
        for rep in range(8):
            if kind == "QT":
                a, b = pm(r, k), pm(r, k)
            else:
                S = list(symseqs(k))
                c = r.randrange(k) if kind == "WTS" else 0
                a, b = r.choice(S), r.choice(S)
                a, b = a[c:] + a[:c], b[c:] + b[:c]
            yield k, a, b


def models_neg(U, kind):
    def gen(lits):
        ap = c12.apps(U)
        for k, a, b in couples(kind):
            m = Mod(dict(n=k, folder="./results/pairs/x", r0=1, r1=1, r2=1, r3=1, l0=[a], l1=[b], m0=[a], m1=[b]), ap)
            m.a, m.b, m.n = a, b, k
            yield m
    return gen


def pred_neg(kind, opt):
    def f(m, v):
        try:
            L, R = keys_of(v[0][0]), keys_of(v[1][0])
        except WorldError as ex:
            return str(ex)
        if (0, 0) not in L or (0, 0) not in R:
            return None
        try:
            x, y = numbers(L[0, 0]), numbers(R[0, 0])
        except ValueError:
            return "key %r" % L[0, 0]
        h = m.n // 2
        if len(x) != len(y):
            return "couple %s, %s: %d components on the left, %d on the right" % (m.a, m.b, len(x), len(y))
        if len(x) != (2 * h if kind == "QT" else h):
            return "couple %s, %s: %d components for length %d" % (m.a, m.b, len(x), m.n)
        for i, (p, q) in enumerate(zip(x, y)):
            if opt == "CORRELATION":
                good = q == -p
            elif i < h:
                good = abs(q - (4 * m.n - p)) <= 1
            else:
                good = abs(q + p) <= 1
            if not good:
                return "couple %s, %s: component %d is %d on the left, %d on the right" % (m.a, m.b, i, p, q)
        # the components are the quantities the type constrains
        if opt == "CORRELATION":
            want = [paf(m.a, s) + paf(m.b, s) for s in range(1, h + 1)]
            if sorted(want) != sorted(x[:h]):
                return "couple %s, %s: autocorrelations %s, key %s" % (m.a, m.b, want, x)
            if kind == "QT":
                k = m.n
                cr = [sum(m.a[i] * m.b[(i + s) % k] - m.b[i] * m.a[(i + s) % k] for i in range(k)) for s in range(1, h + 1)]
                if sorted(map(abs, cr)) != sorted(map(abs, x[h:])):
                    return "couple %s, %s: cross correlations %s, key %s" % (m.a, m.b, cr, x)
        else:
            A, B = c12.dft(m.a), c12.dft(m.b)
            want = [abs(p) ** 2 + abs(q) ** 2 for p, q in list(zip(A, B))[1:]]
            if any(abs(p - q) > .51 for p, q in zip(sorted(want), sorted(x[:h]))):
                return "couple %s, %s: power spectral densities %s, key %s" % (m.a, m.b, want, x)
            if kind == "QT":
                cr = [abs(2 * (p * q.conjugate()).imag) for p, q in list(zip(A, B))[1:]]
                if any(abs(p - q) > .51 for p, q in zip(sorted(cr), sorted(map(abs, x[h:])))):
                    return "couple %s, %s: cross spectra %s, key %s" % (m.a, m.b, cr, x)
        return None
    return f


def rename(a):
    return [mk("tuple", Sym("m0", "list"), Sym("m1", "list"))] + a[1:]


def check(ck):
    key = ck.key("write_seq_pairs")
    U = c12.uninterp(ck)
    memo = {}

    def term(kind, opt, side, pair, second):
        z = (kind, opt, side, pair, second)
        if z not in memo:
            a = c12.args(kind, opt, side, pair)
            memo[z] = summary(ck, key, rename(a) if second else a, POS, uninterp=list(U.values()))[0]
        return memo[z]
    for kind in TYPES:
        for opt in c12.OPTS:
            for pl, pr in PAIRINGS:
                ck.certified_rel("keys of a valid quadruple for %s, %s, %s and %s" % (kind, opt.lower(), pl, pr), key,
                                 lambda kind=kind, opt=opt, pl=pl, pr=pr: mk("tuple", term(kind, opt, "LEFT", pl, False), term(kind, opt, "RIGHT", pr, True)),
                                 pred_comp(kind, pl, pr), models(U, kind, pl, pr),
                                 "the left components minus the right ones are the totals the definition sets to zero, over the same offsets; the cross terms of a quaternion-type quadruple vanish because a left-perfect quaternion sequence is right-perfect")
                if kind == "WS" and pl != "WX":
                    continue
                ck.certified_rel("right side negates the left for %s, %s, %s" % (kind, opt.lower(), pl), key,
                                 lambda kind=kind, opt=opt, pl=pl: mk("tuple", term(kind, opt, "LEFT", pl, False), term(kind, opt, "RIGHT", pl, True)),
                                 pred_neg(kind, opt), models_neg(U, kind), "component by component")
