"""The graph of a matrix encodes it faithfully for Hadamard equivalence.

The node count and the edge list of the graph are summarised for a symbolic matrix; merging is summarised with the
canonical label of the graph kept uninterpreted (the labelling library is foreign code, C35)."""
import random
from rules.c18 import *
from qsa.models import FX, GRAPH
from qsa.teval import keyof
from qsa.world import outputs, WorldError, norm

FLOOR = 5


def A(i, j):
    return mk("app", "$A", i, j)


def wanted(M):
    """signed rows 0..2k, signed columns 2k..4k"""
    k = len(M)
    E = set()
    for i in range(2 * k):
        E.add((i, i))
    for r in range(k):
        for c in range(k):
            for s in (0, 1):
                same = M[r][c] == 1
                E.add((s * k + r, 2 * k + (s if same else 1 - s) * k + c))
    return 4 * k, E


def isomorphic(N, E, F):
    """backtracking search for a bijection of the nodes taking E to F (undirected, loops allowed)"""
    def adj(X):
        a = [set() for _ in range(N)]
        for x, y in X:
            a[x].add(y)
            a[y].add(x)
        return a
    a, b = adj(E), adj(F)

    def colour(a):
        c = [(len(a[i]), i in a[i]) for i in range(N)]
        for _ in range(4):
            c = [hash((c[i], tuple(sorted(map(hash, (c[j] for j in a[i])))))) for i in range(N)]
        return c
    ca, cb = colour(a), colour(b)
    if sorted(ca) != sorted(cb):
        return False
    order = sorted(range(N), key=lambda i: (ca.count(ca[i]), i))
    # prefer nodes adjacent to the ones already placed
    out = []
    rest = set(order)
    while rest:
        i = min(rest, key=lambda i: (-len(a[i] & set(out)), ca.count(ca[i]), i))
        out.append(i)
        rest.discard(i)
    m, used = {}, set()
    budget = [200000]

    def go(p):
        if p == N:
            return True
        budget[0] -= 1
        if budget[0] < 0:
            raise Undecided("isomorphism search too long")
        i = out[p]
        for j in range(N):
            if j in used or cb[j] != ca[i] or ((i in a[i]) != (j in b[j])):
                continue
            if all((q in a[i]) == (m[q] in b[j]) for q in out[:p]):
                m[i] = j
                used.add(j)
                if go(p + 1):
                    return True
                used.discard(j)
                del m[i]
        return False
    return go(0)


def graph_pred(m, x):
    d = dict(x[1:])
    k = m.syms["n"]
    M = [[m.apps["$A"](i, j) for j in range(k)] for i in range(k)]
    N, E = wanted(M)
    if d["kind"] != "undirected":
        return "a directed graph"
    if d["nodes"] != N:
        return "%s nodes for a matrix of size %d" % (d["nodes"], k)
    L = [tuple(sorted(e)) for e in d["edges"]]
    if any(y >= N or y < 0 for e in L for y in e):
        return "an edge to a missing node"
    got = set(L)
    mult = {L.count(e) for e in got}
    if len(mult) > 1:
        return "some edges occur more often than others, so the edge count is no invariant: %s" % sorted(L)
    cols = {(x, y) for x, y in E if x != y} | {(i, i) for i in range(2 * k, 4 * k)}
    if got == E or isomorphic(N, got, E) or isomorphic(N, got, cols):
        return None
    return "the graph of %s is not (isomorphic to) its signed incidence graph with marked rows: edges %s, expected %s" % (M, sorted(got), sorted(E))


def gmodels(lits):
    r = random.Random(11)
    for k in (1, 2, 3, 2, 3, 4, 2, 3, 4, 5):
        M = [[r.choice((1, -1)) for _ in range(k)] for _ in range(k)]
        yield Mod(dict(n=k), {"$A": lambda i, j, M=M: M[i][j]})


def graph_spec():
    i, r, c = fresh(rng(ZERO, scale(n, 4))), fresh(rng(ZERO, n)), fresh(rng(ZERO, n))
    n2, n3 = scale(n, 2), scale(n, 3)
    one = eq0(sub(A(r, c), ONE))

    def e(x, y):
        return mk("tuple", x, y)
    loops = TM.flatmany(i, rng(ZERO, scale(n, 4)), ge0(sub(sub(n2, ONE), i)), mk("vec", e(i, i)))
    pairs = mk("vec", ite(one, e(r, add(c, n2)), e(r, add(c, n3))), ite(one, e(add(n, r), add(c, n3)), e(add(n, r), add(c, n2))))
    return mk("struct", GRAPH, (("kind", S("undirected")), ("nodes", scale(n, 4)), ("edges", cat(loops, TM.flatmany(r, rng(ZERO, n), TRUE, TM.flatmany(c, rng(ZERO, n), TRUE, pairs))))))


def check(ck):
    g = ck.key("graph_from_hm")

    def f():
        ip = ck.ip()
        v, _ = ip.run(g, [hm("A", n)], assume=POS)
        ck.no_panic("building the graph does not panic", g, ip, gmodels)
        if v is graph_spec():
            ck.ok("signed incidence graph with marked rows", "node count and edge list equal the specification", g, show(v)[:800])
            return
        ck.certified_rel("signed incidence graph with marked rows", g, v, graph_pred, gmodels)
    ck.run("signed incidence graph with marked rows", g, f)

    k = ck.key("reduce_to_hadamard_equivalence")

    def red():
        v, _ = ck.ip(uninterp=[g]).run(k, [Sym("ms", "list")])
        a = fresh(None, "x")
        TM.NUMARR.discard(a)
        b, body = TM.close(a, mk("app", "canonlabel", mk("app", g, a)))
        want = mk("uniqby", b, Sym("ms", "list"), body)
        if v is want:
            ck.ok("one matrix per canonical label", "first matrix of every label, by the label of its graph", k, show(v))
            return
        ck.certified_rel("one matrix per canonical label", k, v, lambda m, x: one_each(m.syms["ms"], x, lambda y: m.apps["canonlabel"](m.apps[g](y))), lambda l: listmodels(l, g))
    ck.run("one matrix per canonical label", k, red)

    k2 = ck.key("are_isomorphic")
    ck.same("graphs are isomorphic iff their canonical labels are equal", k2, lambda: ck.ip().run(k2, [Sym("g1", "graph"), Sym("g2", "graph")])[0],
            eq(mk("app", "canonlabel", Sym("g1", "graph")), mk("app", "canonlabel", Sym("g2", "graph"))),
            lambda l: [Mod(dict(g1=a, g2=b), {"canonlabel": lambda z: lab(z // 2)}) for a in range(4) for b in range(4)])
    from_file(ck, g)


def lab(x):
    """a canonical label: adjacency, number of edges, number of nodes; graphs of one size differ in the first only"""
    return ("S", ("g", [x, 0]), ("e", 12), ("n", 8), ("dense", ("D", 0)))


def listmodels(lits, g):
    r = random.Random(1)
    for k in (3, 1, 0, 2, 5, 6, 4):
        for _ in range(3):
            yield Mod(dict(ms=[r.randrange(10) for _ in range(k)]), {g: lambda z: ("G", z), "canonlabel": lambda z: lab(z[1] % 3)})


def one_each(src, got, label):
    if any(x not in src for x in got):
        return "a matrix that was not in the list"
    ls = [keyof(label(x)) for x in got]
    if len(set(ls)) != len(ls):
        return "two matrices with one label are kept: %s of %s" % (got, src)
    if set(ls) != {keyof(label(x)) for x in src}:
        return "a class is lost: kept %s of %s" % (got, src)
    return None


def from_file(ck, g):
    k = ck.key("hadamard_equivalence_from_file")
    U = [g, ck.key("from_williamson", "HM"), ck.key("verify", "QuadSeq"), ck.key("from_str", "QS"), ck.key("from_pqs", "QuadSeq"), ck.key("to_string_magma", "HM")]
    name = "result.mat holds one matrix per canonical label"

    def models(lits):
        r = random.Random(1)
        for c in (3, 1, 0, 2, 6, 5):
            for _ in range(3):
                lines = ["s%d" % r.randrange(9) for _ in range(c)]
                m = Mod(dict(path="results/pairs/qts/find_5/result.seq", ty=("E", "QuaternionType")), {
                    U[0]: lambda h: ("G", h[1]), "canonlabel": lambda z: lab(z[1] % 3), U[1]: lambda q, t: ("H", q[1], t), U[2]: lambda q, t: True,
                    U[3]: lambda s: ("QS", int(s[1:])), U[4]: lambda q: ("Q", q[1]), U[5]: lambda h: "<M%d>" % h[1]})
                m.files = lambda p, lines=lines: lines
                m.lines = lines
                yield m

    def pred(m, evs):
        try:
            out = outputs(evs)
        except WorldError as ex:
            return str(ex)
        p = "results/pairs/qts/find_5/result.mat"
        if list(out) != [p]:
            return "writes %s" % sorted(out)
        if out[p] and not out[p].endswith("\n"):
            return "the last line is not terminated"
        got = out[p].split("\n")[:-1]
        src = ["<M%s>" % x[1:] for x in m.lines]
        return one_each(src, got, lambda s: int(s[2:-1]) % 3)

    def f():
        ip = ck.ip(uninterp=U)
        _, st = ip.run(k, [Sym("path", "string"), Sym("ty", STYPE)])
        v = st.env.get(FX, mk("vec"))
        ck.certified_rel(name, k, v, pred, models, lemma="evaluated on files of up to six lines with labels kept opaque: every line becomes a matrix, every label is written exactly once")
    ck.run(name, k, f)
