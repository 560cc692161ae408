"""Generated constraint systems describe the remaining two sequences.

The text of the system is summarised for symbolic sequences of every length, for the six couples of known positions; its
normal form is the reviewed one. The text of another form is read back on valuations: the assignments that satisfy all
constraints have to be exactly the couples which complete the known ones to a perfect quadruple with the given row sums."""
import itertools
import random
import re
from collections import defaultdict
from qsa.spec import *
from qsa.models import FX
from qsa.ob import Mod
from qsa.world import mkdirs, outputs
from rules.c15 import TYPE

FLOOR = 12
ORDER = "WXYZ"
UNKNOWN = {"WX": "ZY", "WY": "ZX", "WZ": "XY", "XY": "ZW", "XZ": "WY", "YZ": "WX"}


def parse(text):
    """(comment letters or None, constraints as [({variables: coefficient}, relation, right side)]) or a message"""
    names, out = None, []
    for l in text.split("\n"):
        l = l.strip()
        if l.startswith("*"):
            m = re.search(r"x1 ?\.\.\. ?xn\b\D*?\b([WXYZ])\b.*?xn\+1 ?\.\.\. ?x2n\b\D*?\b([WXYZ])\b", l)
            if m:
                names = m.group(1) + m.group(2)
            continue
        if not l:
            continue
        m = re.fullmatch(r"(?P<lhs>(?:[+-]? ?\d+(?: x\d+)+ *)+)(?P<rel>>=|=) (?P<rhs>[+-]?\d+) ?;", l)
        if not m:
            return "not a constraint: %r" % l
        p = {}
        for c, vs in re.findall(r"([+-]? ?\d+)((?: x\d+)+)", m.group("lhs")):
            k = tuple(sorted(int(x) for x in re.findall(r"x(\d+)", vs)))
            p[k] = p.get(k, 0) + int(c.replace(" ", ""))
        out.append((p, m.group("rel"), int(m.group("rhs"))))
    return names, out


def cc(a, b, t):
    k = len(a)
    return sum(a[i] * b[(i + t) % k] for i in range(k))


_T = {}


def tables(k):
    """sequences, autocorrelations and commutators of length k"""
    if k not in _T:
        S = list(itertools.product((1, -1), repeat=k))
        paf = {a: tuple(cc(a, a, t) for t in range(1, k)) for a in S}
        com = {(a, b): tuple(cc(a, b, t) - cc(b, a, t) for t in range(1, k)) for a in S for b in S}
        _T[k] = S, paf, com
    return _T[k]


def perfect(q, paf, com):
    a, b, c, d = q
    return (not any(map(sum, zip(paf[a], paf[b], paf[c], paf[d])))
            and not any(map(sum, zip(com[a, b], com[c, d])))
            and not any(map(sum, zip(com[a, c], com[d, b])))
            and not any(map(sum, zip(com[a, d], com[b, c]))))


def completions(k, known, s, t):
    """couples (in the order of UNKNOWN) that complete s, t to a perfect quadruple"""
    S, paf, com = tables(k)
    out = []
    need = tuple(-x - y for x, y in zip(paf[s], paf[t]))
    for u in S:
        for v in S:
            if all(x + y == z for x, y, z in zip(paf[u], paf[v], need)):
                q = [None] * 4
                for l, x in zip(known + UNKNOWN[known], (s, t, u, v)):
                    q[ORDER.index(l)] = x
                if perfect(q, paf, com):
                    out.append((u, v))
    return out


def models(known):
    def g(lits):
        r = random.Random(31)
        for k, reps in ((3, 6), (2, 4), (1, 2), (4, 14), (5, 4), (3, 6), (4, 20), (6, 2)):
            S, paf, com = tables(k)
            for rep in range(reps):
                s, t = r.choice(S), r.choice(S)
                if rep % 2:
                    # a couple whose sequences do not commute, if there is one
                    for _ in range(60):
                        if any(com[s, t]):
                            break
                        s, t = r.choice(S), r.choice(S)
                    u, v = r.choice(S), r.choice(S)
                    if k <= 4:
                        # unknown ones that satisfy as many conditions as possible
                        def score(uv):
                            q = [None] * 4
                            for l, x in zip(known + UNKNOWN[known], (s, t) + uv):
                                q[ORDER.index(l)] = x
                            a, b, c, d = q
                            z = [any(map(sum, zip(paf[a], paf[b], paf[c], paf[d])))]
                            z += [any(map(sum, zip(x, y))) for x, y in ((com[a, b], com[c, d]), (com[a, c], com[d, b]), (com[a, d], com[b, c]))]
                            return sum(z)
                        u, v = min(itertools.product(S, S), key=lambda uv: (score(uv), r.random()))
                else:
                    for _ in range(200):
                        w = completions(k, known, s, t) if k <= 4 or _ < 20 else []
                        if w:
                            u, v = r.choice(w)
                            break
                        s, t = r.choice(S), r.choice(S)
                    else:
                        u, v = r.choice(S), r.choice(S)
                rs = [0] * 4
                for l, x in zip(known + UNKNOWN[known], (s, t, u, v)):
                    rs[ORDER.index(l)] = sum(x)
                m = Mod(dict(n=k, s=list(s), t=list(t), r0=rs[0], r1=rs[1], r2=rs[2], r3=rs[3]))
                m.known, m.s, m.t, m.rs, m.k = known, s, t, rs, k
                yield m
    return g


def pred(m, text):
    if not isinstance(text, str):
        return "not a text"
    p = parse(text)
    if isinstance(p, str):
        return p
    names, cons = p
    k = m.k
    vars_ = {x for c, _, _ in cons for vs in c for x in vs}
    if not vars_ <= set(range(1, 2 * k + 1)):
        return "variable x%s in a system over x1 .. x%d (known: %s = %s, %s = %s)" % (min(vars_ - set(range(1, 2 * k + 1))), 2 * k, m.known[0], m.s, m.known[1], m.t)
    unk = UNKNOWN[m.known]
    if names is None:
        names = unk
    if sorted(names) != sorted(unk):
        return "the variables are said to stand for %s, the unknown sequences are %s" % (names, unk)
    S, paf, com = tables(k)
    want = set()
    for u, v in completions(k, m.known, m.s, m.t):
        if sum(u) == m.rs[ORDER.index(unk[0])] and sum(v) == m.rs[ORDER.index(unk[1])]:
            want.add((u, v) if names == unk else (v, u))
    # cheap constraints first
    cons = sorted(cons, key=lambda c: len(c[0]))
    got = set()
    for u in S:
        for v in S:
            x = (None,) + tuple((e + 1) // 2 for e in u + v)
            ok = True
            for c, rel, r in cons:
                z = 0
                for vs, a in c.items():
                    if all(x[i] for i in vs):
                        z += a
                if (z != r) if rel == "=" else (z < r):
                    ok = False
                    break
            if ok:
                got.add((u, v))
    where = "(known: %s = %s, %s = %s, row sums %s; %s)" % (m.known[0], m.s, m.known[1], m.t, tuple(m.rs), names)
    for u, v in sorted(want - got):
        return "the system excludes the solution %s, %s %s" % (u, v, where)
    for u, v in sorted(got - want):
        return "the system accepts %s, %s, which does not complete the known ones to a perfect quadruple with these row sums %s" % (u, v, where)
    return None


def check(ck):
    for known in UNKNOWN:
        name = "system for the known sequences %s and %s" % tuple(known)

        def go(known=known, name=name):
            k = ck.key("generate_equations")
            ip = ck.ip()
            s, t = parr("s"), parr("t")
            v, st = ip.run(k, [s, tag(known[0]), t, tag(known[1]), TYPE["qts"], mk("tuple", *[Sym("r%d" % i, "int") for i in range(4)])], assume=POS)
            ck.certified_rel(name, k, v, pred, models(known), "solutions of the constraints are the completing couples")
            ck.no_panic("no panic: " + name, k, ip)
        ck.run(name, "sequences/equations.rs", go)
    files(ck)


TIE = [(1, 1, 1, 5), (1, 1, 5, 5), (3, 3, 3, 3), (1, 3, 3, 3), (1, 3, 5, -7), (0, 0, 2, 4), (1, 3, 3, 5), (5, 3, 1, 1), (-7, 1, 3, 5), (0, 2, 4, 4), (1, 5, 3, 7), (7, 1, 5, 3), (-1, -3, -5, -7), (0, 0, 0, 6)]

APART = [(1, 1, 1, 5), (3, 3, 3, 3), (0, 2, 4, 6), (1, 7, 3, 9), (-9, -11, -13, -15)]      # no two share a sum


def files(ck):
    """the generated files: one for every couple of candidates, for positions that have those row sums"""
    k = ck.find("find", module="find_with_rowsum")
    if k is None:
        return
    name = "generated files cover the couples of two positions with their row sums"
    U = [ck.key(x) for x in ("generate_rowsums", "generate_sequences_with_rowsum", "iter_over_filtered_dft", "generate_equations", "sequence_to_string")]

    def fmodels(lits):
        r = random.Random(37)
        for rep in range(24):
            rs = [TIE[rep]] if rep < len(TIE) else r.sample(APART, r.choice((0, 2, 3)))
            cnt = {x: r.choice((1, 2, 3)) for q in rs for x in q}
            asked = []

            def eqs(s, t, u, v, ty, q, asked=asked):
                asked.append((s, t, u, v, ty, tuple(q)))
                return "\nEQ %d;\n" % (len(asked) - 1)
            # every sequence of the list with an even number passes the filter
            m = Mod(dict(n=7), {U[0]: lambda z, ty, rs=rs: [tuple(q) for q in rs], U[1]: lambda x, z, cnt=cnt: [("s", x, i) for i in range(2 * cnt[x])],
                                U[2]: lambda l, b: [s for s in l if s[2] % 2 == 0], U[3]: eqs, U[4]: lambda s: "<%s#%d>" % (s[1], s[2])})
            m.rs, m.cnt, m.asked = rs, cnt, asked
            yield m

    def fpred(m, evs):
        out = {p: c for p, c in outputs(evs).items()}
        got = {}
        for p, c in out.items():
            g = re.findall(r"EQ (\d+);", c)
            if len(g) != 1:
                return "%s holds %d systems" % (p, len(g))
            s, t, u, v, ty, q = m.asked[int(g[0])]
            t, v = t[1] if isinstance(t, tuple) else t, v[1] if isinstance(v, tuple) else v
            i, j = ORDER.index(t), ORDER.index(v)
            if i >= j:
                return "%s: positions %s and %s" % (p, t, v)
            for x, z in ((s, i), (u, j)):
                if x[1] != q[z]:
                    return "%s: a sequence with row sum %d is used at position %s of the row sums %s" % (p, x[1], ORDER[z], q)
            h = c[:c.index("EQ")].split("\n")
            for x, z in ((s, t), (u, v)):
                if not any(l.startswith("*") and re.search(r"\b%s\b" % z, l) and "<%d#%d>" % x[1:] in l for l in h):
                    return "%s: the comment does not name the sequence at %s: %r" % (p, z, h)
            if not any(l.startswith("*") and [int(x) for x in re.findall(r"-?\d+", l)] == list(q) for l in h):
                return "%s: the comment does not name the row sums %s: %r" % (p, q, h)
            got.setdefault(q, []).append((i, j, s[2], u[2]))
        dirs = set(mkdirs(evs))
        for p in out:
            if p.rsplit("/", 1)[0] not in dirs:
                return "%s is written to a directory that is not created" % p
        for q in m.rs:
            g = got.get(tuple(q), [])
            if len({x[:2] for x in g}) != 1:
                return "row sums %s: files for %s couples of positions" % (q, len({x[:2] for x in g}))
            i, j = g[0][:2]
            want = sorted((i, j, a, b) for a in range(0, 2 * m.cnt[q[i]], 2) for b in range(0, 2 * m.cnt[q[j]], 2))
            if sorted(g) != want:
                return "row sums %s: couples %s have a file, the filtered candidates of %s and %s are %s" % (q, sorted(x[2:] for x in g), ORDER[i], ORDER[j], [x[2:] for x in want])
        return None

    def go():
        ip = ck.ip(uninterp=U)
        _, st = ip.run(k, [n, TYPE["qts"]], assume=POS)
        ck.certified_rel(name, k, st.env.get(FX, mk("vec")), fpred, fmodels, "one file per couple; the positions are those of the two sums used")
    ck.run(name, k, go)
