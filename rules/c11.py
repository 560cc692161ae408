"""Pair generation covers each sequence once with matching tags and names.

The complete effects of write_pairs_rowsum, write_pair_single_rowsum and create_rowsum_dirs (with everything they call except
the enumeration of the sequences of a row sum and the transforms) are summarised for a symbolic length and symbolic row
sums, per sequence type and pairing. The normal forms are the reviewed ones; another form is judged on valuations: the
sequence files hold exactly the candidates of their own row sum, the two pair files are those the pairing names, every
couple that passes the filter is listed by indices into the two sequence files its name refers to, and the two couples of a
valid quadruple have equal keys (one side of the equation each). All-at-once, one-at-a-time and pre-creation name the same
files."""
import itertools
import random
import re
from qsa.spec import *
from qsa.ob import Mod
from qsa.interp import some, NONE
from qsa.world import summary, outputs, norm, WorldError
from rules import c12, c13

FLOOR = 18
PAIRS = {"WX": ("WX", "YZ"), "WY": ("WY", "XZ"), "WZ": ("WZ", "XY"), None: ("WZ", "XY")}
NAME = {"QT": "qts", "WTS": "wts", "WS": "ws"}
RP = "sequences::symmetries::RowsumPairing"
ET = "find::find_write::MatchOption"


def pairing(p):
    return some(mk("enum", RP, p, ())) if p else NONE


def opt(o):
    return mk("enum", ET, o, ())


RS = mk("tuple", *[Sym("r%d" % i, "isize") for i in range(4)])


class Cands:
    """candidate sequences per row sum"""

    def __init__(self, k, quads, r, extra):
        self.k = k
        self.by = {}
        for q in quads:
            for x in q:
                self.add(x)
        for _ in range(extra):
            self.add(pm(r, k))

    def add(self, x):
        L = self.by.setdefault(sum(x), [])
        if list(x) not in L:
            L.append(list(x))

    def __call__(self, rs, k):
        return [list(x) for x in self.by.get(rs, [])] if k == self.k else []


def symmetric(x):
    k = len(x)
    return all(x[i] == x[(k - i) % k] for i in range(k))


def cases(kind, lits):
    r = random.Random(11)
    for k in (2, 3, 4, 5, 6, 7, 8, 10, 14, 1):
        Q = c13.quads(k, True)[:6]
        if kind != "WS":
            Q = Q[:4] + c13.quads(k, False)[:4]
        for q in Q:
            q = [list(x) for x in q]
            r.shuffle(q)
            q = [[-v for v in x] if r.random() < .4 else x for x in q]
            c = Cands(k, [q], r, 5 if k < 10 else 2)
            yield k, tuple(sum(x) for x in q), c, q
        # row sums need not come from a quadruple
        c = Cands(k, [], r, 12)
        for z in list(itertools.permutations(sorted(c.by), 4))[:3]:
            yield k, z, c, None
        if len(c.by) >= 2:
            a, b = sorted(c.by)[:2]
            yield k, (a, b, b, a), c, None
            yield k, (-a - 1, a, b, b), c, None


def models(kind, gs, U, ap):
    def gen(lits):
        for k, rs, c, q in cases(kind, lits):
            a = dict(ap)
            a[gs] = c
            s = dict(n=k)
            s.update(("r%d" % i, v) for i, v in enumerate(rs))
            m = Mod(s, a)
            m.n, m.rs, m.c, m.q = k, rs, c, q
            yield m
    return gen


def folder(kind, m, rs):
    return "results/pairs/%s/find_%d/rowsum_%d_%d_%d_%d" % ((NAME[kind], m.n) + tuple(rs))


def text(x):
    return "".join("+" if v == 1 else "-" for v in x) + "\n"


def judge(kind, m, rs, files, pairs, seqs="WXYZ"):
    """the files below one row sum folder; pairs: expected pair names in order left, right (or one of them)"""
    base = folder(kind, m, rs) + "/"
    L = dict(zip("WXYZ", (m.c(v, m.n) for v in rs)))
    if kind == "WS":
        L = {c: [x for x in v if symmetric(x)] for c, v in L.items()}
    want = {base + "seq_%s.seq" % c for c in seqs} | {base + "pair_%s.pair" % p for p in pairs}
    if set(files) != want:
        return "files %s instead of %s" % (sorted(files), sorted(want))
    for c in seqs:
        if files[base + "seq_%s.seq" % c] != "".join(map(text, L[c])):
            return "row sums %s: seq_%s.seq holds %r, candidates %r" % (rs, c, files[base + "seq_%s.seq" % c], "".join(map(text, L[c])))
    keys = {}
    for p in pairs:
        got = {}
        for x in files[base + "pair_%s.pair" % p].split("\n")[:-1]:
            z = re.match(r"^(.*):_(\d+)_(\d+)$", x)
            if not z:
                return "line %r" % x
            ij = int(z.group(2)), int(z.group(3))
            if ij in got:
                return "pair_%s.pair lists couple %s twice" % (p, ij)
            got[ij] = z.group(1)
        A, B = L[p[0]], L[p[1]]
        for (i, a), (j, b) in itertools.product(enumerate(A), enumerate(B)):
            if (i, j) not in got and c12.psd_ok(a, b, m.n) and (kind != "WTS" or c12.amicable(a, b)):
                return "row sums %s: pair_%s.pair lacks couple %d, %d (%s, %s)" % (rs, p, i, j, a, b)
        for i, j in got:
            if i >= len(A) or j >= len(B):
                return "row sums %s: pair_%s.pair names couple %d, %d of %d and %d sequences" % (rs, p, i, j, len(A), len(B))
        keys[p] = got
    m.keys = keys
    if m.q is not None and tuple(sum(x) for x in m.q) == tuple(rs) and len(pairs) == 2:
        d = dict(zip("WXYZ", m.q))
        ix = [(L[p[0]].index(d[p[0]]), L[p[1]].index(d[p[1]])) for p in pairs]
        if all(i in keys[p] for i, p in zip(ix, pairs)) and keys[pairs[0]][ix[0]] != keys[pairs[1]][ix[1]]:
            return "valid quadruple %s: key %r in pair_%s.pair, %r in pair_%s.pair" % (m.q, keys[pairs[0]][ix[0]], pairs[0], keys[pairs[1]][ix[1]], pairs[1])
    return None


def run(f):
    def g(m, v):
        try:
            if any(x[2] for x in (v if len(v) == 2 else [v])):
                return "the program panics for length %d, row sums %s, candidates %s" % (m.n, getattr(m, "rs", None) or m.RS, m.c.by)
            return f(m, v)
        except WorldError as ex:
            return str(ex)
    return g


def pred_all(kind, p):
    return run(lambda m, v: judge(kind, m, m.rs, outputs(v[0]), PAIRS[p]))


def pred_single(kind, p):
    """both halves together leave the same files as all pairs at once"""
    def f(m, v):
        one, two = outputs(v[0][0]), outputs(v[1][0])
        for got, q in ((one, PAIRS[p][0]), (two, PAIRS[p][1])):
            w = judge(kind, m, m.rs, got, (q,), q)
            if w:
                return w
        both = dict(one)
        both.update(two)
        return judge(kind, m, m.rs, both, PAIRS[p])
    return run(f)


def pred_create(kind, p):
    def f(m, v):
        files = outputs(v[0])
        want = {folder(kind, m, m.rs) + "/pair_%s.pair" % q: "" for q in PAIRS[p]}
        if files != want:
            return "files %s instead of %s" % (sorted(files), sorted(want))
        return None
    return run(f)


def pred_many(kind, p, half=None):
    """one row sum after the other"""
    def f(m, v):
        files = outputs(v[0])
        seen = set()
        for rs in m.RS:
            base = folder(kind, m, rs) + "/"
            mine = {k: x for k, x in files.items() if k.startswith(base)}
            seen |= set(mine)
            w = judge(kind, m, rs, mine, PAIRS[p]) if half is None else judge(kind, m, rs, mine, (PAIRS[p][half - 1],), PAIRS[p][half - 1])
            if w:
                return w
        if seen != set(files):
            return "further files %s" % sorted(set(files) - seen)
        return None
    return run(f)


def models_many(kind, gs, gr, U, ap):
    def gen(lits):
        r = random.Random(4)
        for k in (2, 3, 4, 5, 6, 7):
            Q = c13.quads(k, kind == "WS")
            for num in (1, 2, 3, 0):
                if num > len(Q):
                    continue
                qs = r.sample(Q, num)
                c = Cands(k, qs, r, 4)
                rs = sorted({tuple(sum(x) for x in q) for q in qs})
                a = dict(ap)
                a[gs] = c
                a[gr] = lambda p, t, rs=rs: list(rs)
                m = Mod(dict(n=k), a)
                m.n, m.RS, m.c, m.q = k, rs, c, None
                yield m
    return gen


def effects(ck, key, args, **kw):
    """(effects, result, condition of a panic)"""
    t_, ip = summary(ck, key, args, POS, **kw)
    return mk("tuple", *t_.a, or_(*[and_(*pc) for what, pc, fn, sp in ip.panics]))


def check(ck):
    U = c12.uninterp(ck)
    gs = ck.key("generate_sequences_with_rowsum")
    gr = ck.key("generate_rowsums")
    ap = {U["dft"]: c12.dft_app, U["idft"]: c12.idft_app}
    un = [U["dft"], U["idft"], gs]
    ka, ks, kc = ck.key("write_pairs_rowsum"), ck.key("write_pair_single_rowsum"), ck.key("create_rowsum_dirs")
    kw, kp = ck.key("write_pairs"), ck.key("write_pair_single")

    for kind, o, p in (("QT", "PSD", "WX"), ("QT", "PSD", "WY"), ("QT", "PSD", "WZ"), ("QT", "CORRELATION", None), ("WTS", "PSD", "WY"), ("WS", "PSD", "WZ")):
        ck.certified_rel("all pairs of a row sum: %s, %s, pairing %s" % (kind, o.lower(), p), ka,
                         lambda kind=kind, o=o, p=p: effects(ck, ka, [S(NAME[kind]), RS, n, opt(o), pairing(p)], uninterp=un),
                         pred_all(kind, p), models(kind, gs, U, ap), "sequence lists, tags, sides and names belong together")
    for kind, o, p in (("QT", "PSD", "WX"), ("QT", "CORRELATION", "WY"), ("QT", "PSD", "WZ"), ("WTS", "CORRELATION", "WX"), ("WS", "PSD", "WY")):
        ck.certified_rel("one pair at a time: %s, %s, pairing %s" % (kind, o.lower(), p), ks,
                         lambda kind=kind, o=o, p=p: mk("tuple", *[effects(ck, ks, [S(NAME[kind]), RS, n, opt(o), pairing(p), I(h)], uninterp=un) for h in (1, 2)]),
                         pred_single(kind, p), models(kind, gs, U, ap), "the halves name and fill the files that all pairs at once does")
    for kind, p in (("QT", "WX"), ("QT", "WY"), ("QT", "WZ"), ("WTS", "WY"), ("WS", "WX")):
        ck.certified_rel("files created in advance: %s, pairing %s" % (kind, p), kc,
                         lambda kind=kind, p=p: effects(ck, kc, [S(NAME[kind]), n, RS, pairing(p)], uninterp=un),
                         pred_create(kind, p), models(kind, gs, U, ap), "the names that pair generation uses")
    for kind, p in (("QT", "WX"), ("WS", "WZ")):
        ck.certified_rel("every row sum decomposition: %s, pairing %s" % (kind, p), kw,
                         lambda kind=kind, p=p: effects(ck, kw, [n, stype(TYPES[kind]), opt("PSD"), pairing(p)], uninterp=un + [gr]),
                         pred_many(kind, p), models_many(kind, gs, gr, U, ap), "all pairs for every row sum")
    for h in (1, 2):
        ck.certified_rel("pair %d of every row sum decomposition" % h, kp,
                         lambda h=h: effects(ck, kp, [stype(TYPES["QT"]), n, opt("PSD"), pairing("WY"), I(h)], uninterp=un + [gr]),
                         pred_many("QT", "WY", h), models_many("QT", gs, gr, U, ap), "one pair for every row sum")
