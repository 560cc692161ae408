"""Every couple of candidate sequences that passes the filter is written exactly once.

The effects of the pair writer are summarised for symbolic sequence lists, with the transforms as opaque functions: the
writes to the pair file, across buffer boundaries and the final flush, add up to one closed-form text over the index
couples. A summary of another shape is judged on valuations with the exact transform of the listed sequences, among them
more couples than one buffer holds."""
import cmath
import itertools
import math
import random
import re
from qsa.spec import *
from qsa.ob import Mod
from qsa.world import summary, outputs, WorldError

FLOOR = 7
OPTS = ("CORRELATION", "PSD")
SIDES = ("LEFT", "RIGHT")
TAGS = "WXYZ"


def dft(x):
    k = len(x)
    return [sum(v * cmath.exp(-2j * math.pi * i * j / k) for i, v in enumerate(x)) for j in range(k // 2 + 1)]


def idft(f, k):
    """real sequence of length k with the given half spectrum"""
    full = [complex(0)] * k
    for j in range(k // 2 + 1):
        if j < len(f):
            full[j] = f[j]
            if 0 < j and (k - j) % k != j:
                full[k - j] = f[j].conjugate()
    full[0] = complex(full[0].real, 0)
    if k % 2 == 0:
        full[k // 2] = complex(full[k // 2].real, 0)
    return [sum(full[j] * cmath.exp(2j * math.pi * i * j / k) for j in range(k)).real / k for i in range(k)]


_memo = {}


def dft_app(x, grow=1.0):
    """the transform as computed: exact up to a relative rounding error"""
    x = (tuple(x), grow)
    if x not in _memo:
        _memo[x] = [("S", ("re", z.real * grow), ("im", z.imag * grow)) for z in dft(x[0])]
    return list(_memo[x])


def idft_app(f, k):
    return idft([complex(dict(z[1:])["re"], dict(z[1:])["im"]) for z in f], k)


def top(a, b):
    return max([abs(x) ** 2 + abs(y) ** 2 for x, y in list(zip(dft(a), dft(b)))[1:]] or [0])


def psd_ok(a, b, k):
    """a sum that attains the bound passes, however the transform rounds"""
    return top(a, b) < 4 * k + 1e-9


def attaining(k, sym):
    """two lists of sequences, many couples of which attain the bound 4k exactly at some non-zero frequency"""
    seqs = [x for x in all_pm(k) if not sym or all(x[i] == x[-i % k] for i in range(k))]
    f = [[abs(z) ** 2 for z in dft(x)][1:] for x in seqs]
    hits = []
    for i in range(len(seqs)):
        for j in range(i, len(seqs)):
            if abs(max([u + v for u, v in zip(f[i], f[j])] or [0]) - 4 * k) < 1e-9:
                hits.append((i, j))
        if len(hits) > 400:
            break
    hits = hits[::max(1, len(hits) // 6)]
    return [seqs[i] for i, j in hits], [seqs[j] for i, j in hits]


def amicable(a, b):
    k = len(a)
    return all(sum(a[i] * b[(i + s) % k] - b[i] * a[(i + s) % k] for i in range(k)) == 0 for s in range(k))


def tdict(name):
    return {"W": 0, "X": 1, "Y": 2, "Z": 3}[name]


def uninterp(ck):
    return dict(rs=ck.key("verify_rowsums"), dft=ck.key("dft_sequence"), idft=ck.key("inverse_dft"))


def apps(U, grow=1.0):
    return {U["rs"]: lambda *a: True, U["dft"]: lambda x: dft_app(x, grow), U["idft"]: idft_app}


def args(kind, opt, side, pair):
    return [mk("tuple", Sym("l0", "list"), Sym("l1", "list")), mk("tuple", tag(pair[0]), tag(pair[1])), stype(TYPES[kind]),
            mk("tuple", *[Sym("r%d" % i, "isize") for i in range(4)]), n, Sym("folder", "str"),
            mk("enum", "find::find_write::EquationSide", side, ()), mk("enum", "find::find_write::MatchOption", opt, ())]


def edge(r, k, c, sym):
    """sequences with a large but admissible power at some non-zero frequency"""
    out = []
    for _ in range(60):
        x = pm(r, k)
        if sym:
            x = [x[min(i, k - i)] for i in range(k)]
        w = max([abs(z) ** 2 for z in dft(x)[1:]] or [0])
        if w < 4 * k:
            out.append((-w, x))
    out.sort()
    lo = [x for w, x in out[-2:]]
    return [x for w, x in out[:max(1, c - 2)]] + lo


def lists(lits):
    """lengths with two lists of sequences"""
    r = random.Random(7)

    def some(k, c):
        return [pm(r, k) for _ in range(c)]
    yield 3, some(3, 4), some(3, 3)
    yield 2, list(all_pm(2)), list(all_pm(2))
    yield 4, list(all_pm(4)), some(4, 5)
    yield 5, some(5, 4), some(5, 6)
    yield 1, [[1], [-1]], [[1]]
    yield 3, [], some(3, 2)
    yield 3, some(3, 2), []
    yield 6, [[1, 1, -1, -1, 1, 1], [1, 1, 1, -1, 1, 1]] + some(6, 3), some(6, 5) + [[1, -1, 1, 1, 1, -1]]
    yield 7, some(7, 5), some(7, 5)
    yield 8, some(8, 4), some(8, 4)
    big = [1000] + sorted(x for x in lits if 100 <= x <= 300)
    for c in big:
        for w in (c, 2 * c, 2 * c + 1, c - 1, c + 1):
            for h in range(int(w ** .5), 0, -1):
                if w % h == 0:
                    break
            if w // h > 300 * h:
                continue
            yield 3, [[1, 1, -1]] * h, [[1, 1, -1]] * (w // h)
    yield 9, some(9, 6), some(9, 5)
    for k in (4, 5, 6, 7, 8, 9, 10, 12, 13):
        yield k, edge(r, k, 4, True), edge(r, k, 4, True)
        yield k, edge(r, k, 4, False), edge(r, k, 4, False)


def models(ck, U, kind):
    def gen(lits):
        for k, L0, L1 in lists(lits):
            m = Mod(dict(n=k, l0=L0, l1=L1, folder="./results/pairs/x", r0=1, r1=1, r2=1, r3=1), apps(U))
            m.n, m.L0, m.L1 = k, L0, L1
            yield m
        for k in (4, 6, 8, 10, 12):
            for sym in (True, False):
                if sym or k < 12:
                    L0, L1 = attaining(k, sym)
                    for grow in (1.0, 1 + 1e-13, 1 - 1e-13):
                        m = Mod(dict(n=k, l0=L0, l1=L1, folder="./results/pairs/x", r0=1, r1=1, r2=1, r3=1), apps(U, grow))
                        m.n, m.L0, m.L1 = k, L0, L1
                        yield m
    return gen


def pred(kind, pair):
    def f(m, v):
        evs, count = v
        try:
            files = outputs(evs)
        except WorldError as ex:
            return str(ex)
        want = "./results/pairs/x/pair_%s.pair" % pair
        from qsa.world import norm
        if norm(want) not in files:
            return "no file %s (files %s)" % (want, sorted(files))
        if len(files) != 1:
            return "further files %s" % sorted(files)
        body = files[norm(want)]
        if body and not body.endswith("\n"):
            return "last line is not complete: %r" % body[-60:]
        ls = body.split("\n")[:-1]
        seen = set()
        for x in ls:
            z = re.match(r"^(.*)_?:_(\d+)_(\d+)$", x)
            if not z:
                return "line %r" % x
            c = (int(z.group(2)), int(z.group(3)))
            if c in seen:
                return "couple %s appears twice" % (c,)
            if c[0] >= len(m.L0) or c[1] >= len(m.L1):
                return "line %r names no sequence" % x
            seen.add(c)
        if count != len(ls):
            return "count %s, lines %d" % (count, len(ls))
        memo = {}
        for (i, a), (j, b) in itertools.product(enumerate(m.L0), enumerate(m.L1)):
            if (i, j) in seen:
                continue
            q = (tuple(a), tuple(b))
            if q not in memo:
                memo[q] = psd_ok(a, b, m.n) and (kind != "WTS" or amicable(a, b))
            if memo[q]:
                return "length %d: couple %d, %d (%s, %s) passes the filter and is not written" % (m.n, i, j, a, b)
        return None
    return f


def check(ck):
    key = ck.key("write_seq_pairs")
    U = uninterp(ck)
    pairs = ["WX", "YZ", "WY", "XZ", "WZ", "XY"]
    combos = []
    for kind in TYPES:
        for opt in OPTS:
            combos.append((kind, opt, "LEFT", "WZ"))
    combos.append(("QT", "PSD", "RIGHT", "XY"))
    combos.append(("QT", "CORRELATION", "RIGHT", "YZ"))
    combos.append(("WTS", "CORRELATION", "RIGHT", "XZ"))
    combos.append(("WTS", "PSD", "RIGHT", "XY"))
    for kind, opt, side, pair in combos:
        def one(kind=kind, opt=opt, side=side, pair=pair):
            t_, ip = summary(ck, key, args(kind, opt, side, pair), POS, uninterp=list(U.values()))
            return t_
        ck.certified_rel("couples written for %s, %s, %s side %s" % (kind, opt.lower(), side.lower(), pair), key, one, pred(kind, pair), models(ck, U, kind),
                         "one line per couple under the filter condition, ending in its indices; count is the number of lines")
