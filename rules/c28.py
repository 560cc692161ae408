"""The in-memory matching table keeps every couple.

The table is summarised for symbolic lists of sequences as a recurrence over the couples of a filter that is summarised with
the transform as an opaque function; its normal form is the reviewed one, another form is judged on valuations of the lists
and spectra, with the two vectors of match data opaque functions that coincide for some couples. Two match data are one key
exactly if both vectors are equal, and the vector of auto-correlations has every offset."""
import random
from qsa.spec import *
from qsa.ob import Mod, Undecided
from qsa.teval import keyof
from rules import c03

FLOOR = 5
MD = "sequences::matching::MatchData"


def cx(z):
    return ("S", ("re", z[0]), ("im", z[1]))


def spectra(r, k):
    """|F|^2 of small integers, sums often exactly at or close to the bound 4k"""
    out = []
    for _ in range(k // 2 + 1):
        out.append((r.randint(-2, 2), r.randint(-2, 2)))
    return out


def models_for(D, A, X):
    def models(lits):
        r = random.Random(28)
        for rep in range(60):
            k = r.choice((1, 2, 3, 4, 5, 6, 8))
            la, lb = r.choice(((2, 3), (1, 1), (3, 2), (4, 4), (0, 2), (2, 0), (5, 3)))
            s1 = [[r.choice((1, -1)) for _ in range(k)] for _ in range(la)]
            s2 = [[r.choice((1, -1)) for _ in range(k)] for _ in range(lb)]
            for s in (s1, s2):       # the lists hold distinct sequences
                u = []
                for x in s:
                    if x not in u:
                        u.append(x)
                s[:] = u
            tab = {}

            def dft(x, tab=tab, r=r, k=k):
                x = tuple(x)
                if x not in tab:
                    tab[x] = spectra(r, k)
                return [cx(z) for z in tab[x]]
            for x in s1 + s2:
                dft(x)
            m = Mod(dict(n=k, s1=s1, s2=s2, bound=4 * k, t1=("E", "X"), t2=("E", "Z")), {
                D: dft, A: lambda x, y: [sum(x) + sum(y)], X: lambda x, y, t, k=k: [x[0] - 2 * y[0]] + [t] * (1 if k < 4 else 0)})
            m.s1, m.s2, m.tab, m.k, m.A, m.X = s1, s2, tab, k, A, X
            yield m
    return models


def passes(m, x, y, skip0):
    return all(a * a + b * b + c * c + d * d <= 4 * m.k for (a, b), (c, d) in list(zip(m.tab[tuple(x)], m.tab[tuple(y)]))[1 if skip0 else 0:])


def couples_pred(m, v):
    got = [(tuple(x), tuple(y)) for x, y in v]
    for x in m.s1:
        for y in m.s2:
            c = got.count((tuple(x), tuple(y)))
            if passes(m, x, y, False) and c != 1:
                return "the couple %s, %s whose spectral densities sum to at most 4n everywhere is delivered %d times" % (x, y, c)
            if c > 1:
                return "the couple %s, %s is delivered %d times" % (x, y, c)
    for c in got:
        if list(c[0]) not in m.s1 or list(c[1]) not in m.s2:
            return "%s is no couple of the lists" % (c,)
    return None


def table_pred(m, v):
    if not hasattr(v, "d"):
        raise Undecided("not a map")
    seen = []
    for key, lst in v.d.values():
        f = dict(key[1:])
        if set(f) != {"auto_correlation_values", "cross_correlation_values"}:
            raise Undecided("match data of another shape")
        for x, y in lst:
            want = (m.apps[m.A](x, y), m.apps[m.X](x, y, (m.syms["t1"], m.syms["t2"])))
            if keyof(list(want[0])) != keyof(list(f["auto_correlation_values"])) or keyof(list(want[1])) != keyof(list(f["cross_correlation_values"])):
                return "the couple %s, %s is listed under the match data of another one" % (x, y)
            seen.append((x, y))
    return couples_pred(m, seen)


def check(ck):
    D = ck.key("dft_sequence")
    A = ck.key("compute_auto_correlation_pair")
    X = ck.key("compute_cross_correlations")
    s1, s2 = Sym("s1", "list"), Sym("s2", "list")
    tg = mk("tuple", Sym("t1", "sequences::williamson::SequenceTag"), Sym("t2", "sequences::williamson::SequenceTag"))
    ms = models_for(D, A, X)

    k = ck.find("iter_over_filtered_couples")
    if k is not None:
        def couples():
            ip = ck.ip(uninterp=[D])
            v, _ = ip.run(k, [s1, s2, Sym("bound", "f64")])
            ck.certified_rel("the filter delivers every couple below the bound once", k, v, couples_pred, ms)
            ck.no_panic("the filter does not panic", k, ip, ms)
        ck.run("the filter delivers every couple below the bound once", k, couples)

    g = ck.key("generate_matching_table")

    def table():
        ip = ck.ip(uninterp=[D, A, X])
        v, _ = ip.run(g, [s1, s2, tg, n], assume=POS)
        ck.certified_rel("every couple that passes is listed once under its own match data", g, v, table_pred, ms,
                         lemma="a couple whose match data are known is appended to their list, otherwise a list of that couple is entered")
        ck.no_panic("building the table does not panic", g, ip, ms)
    ck.run("every couple that passes is listed once under its own match data", g, table)

    # keys
    eqs = [b["key"] for b in ck.dump["bodies"] if b.get("name") == "eq" and str(b.get("implfor") or "").endswith("MatchData")]
    if eqs:
        def M(i):
            return mk("struct", MD, (("auto_correlation_values", Sym("a" + i, "list")), ("cross_correlation_values", Sym("c" + i, "list"))))
        L = ([], [1], [2], [1, 2], [1, 2, 3], [2, 1])
        ck.same("match data are one key exactly if both vectors are equal", eqs[0], lambda: ck.ip().run(eqs[0], [M("1"), M("2")])[0],
                and_(eq(Sym("a1", "list"), Sym("a2", "list")), eq(Sym("c1", "list"), Sym("c2", "list"))),
                lambda lits: [Mod(dict(a1=a, a2=b, c1=c, c2=d)) for a in L for b in L for c in L for d in L])
    x, y = parr("x"), parr("y")
    h = mk_div(n, I(2))
    ck.same("the auto-correlation vector has every offset up to n/2", A, lambda: ck.ip().run(A, [x, y], assume=POS)[0],
            Lam(h, lambda i: add(paf(x, add(i, ONE)), paf(y, add(i, ONE)))), models_seqs(["x", "y"]))
