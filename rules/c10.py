"""Reduction keeps a representative of every class and invents none.

Each reduction is summarised with the class computation abstract and must relate its input list to exactly one
representative per class; the canonical representative is the minimum over the canonical forms of the class."""
import random
from rules.eqv import *
from rules import c08
from qsa.ob import Fail, Undecided, Mod
from qsa.teval import SetVal, keyof

FLOOR = 12


def tok(k, size=1):
    return ("S", ("size", size), ("a", [k]), ("b", [k]), ("c", [k]), ("d", [k]))


def lab(q):
    return dict(q[1:])["a"][0]


def models(ck, kind, seed=11, reps=80, canonical=True):
    """lists over a universe split into classes; abstract class computations"""
    g, c, cf, fm = ck.key("generate_symmetry_group"), ck.key("qt_canonical"), ck.key("generate_equivalence_class_fast"), ck.key("find_minimum")
    gc = ck.key("generate_equivalence_class")

    def gen(lits):
        r = random.Random(seed)
        for rep in range(reps):
            U = r.choice((1, 2, 3, 4, 6, 9))
            cls = [r.randrange(max(1, U // r.choice((1, 2, 3)))) for _ in range(U)]
            m = r.choice((0, 1, 2, 3, 5, 8)) if rep > 1 else rep * 2
            size = r.choice((1, 2, 3))
            L = [tok(r.randrange(U), size) for _ in range(m)]
            if rep == 1:
                cls = [0] * U
            def of(k):
                ks = [tok(j, size) for j in range(U) if cls[j] == cls[k]]
                r.shuffle(ks)
                return SetVal(ks)

            def grp(sz, ty, fns, size=size):
                return ("grp", sz, ty)

            def good(gr, size=size):
                return gr[1] == size and gr[2] == ("E", kind)

            def fast(q, gr):
                return of(lab(q)) if good(gr) else SetVal([q])

            def qc(q, gr, ty):
                return min(of(lab(q)), key=lab) if good(gr) and ty == ("E", kind) else tok(99, size)
            mm = Mod({"m": m, "L": L}, {g: grp, c: qc, cf: fast, fm: lambda s: min(s, key=lab), gc: lambda q, ty, fns, fl: of(lab(q)) if ty == ("E", kind) and fl is False else SetVal([])})
            mm.cls = cls
            yield mm
    return gen


def one_per_class(m, v, canonical=False, members=None):
    if not isinstance(v, list):
        return "result is not a list: %s" % str(v)[:200]
    want = {m.cls[lab(q)] for q in m.syms["L"]}
    got = []
    for q in v:
        k = lab(q)
        if not 0 <= k < len(m.cls):
            return "a result is no member of a class"
        got.append(m.cls[k])
    for c in got:
        if c not in want:
            return "a result of class %s does not come from an input" % c
    if len(set(got)) != len(got):
        return "two results of one class: %s" % [lab(q) for q in v]
    miss = want - set(got)
    if miss:
        return "no representative of class(es) %s; results %s" % (sorted(miss), [lab(q) for q in v])
    if members and any(q not in m.syms["L"] for q in v):
        return "a result is not among the inputs"
    return None


def check(ck):
    g, c, cf, fm = ck.key("generate_symmetry_group"), ck.key("qt_canonical"), ck.key("generate_equivalence_class_fast"), ck.key("find_minimum")
    gc = ck.key("generate_equivalence_class")
    sm = Sym("m", "usize")
    L = Arr("L", sm)
    ops = mk("vec", mk("fn", "$op"))
    for kind in (QT, WTS, WS):
        k = ck.key("reduce_to_canonical_reps")

        def f(kind=kind, k=k):
            v, _ = ck.ip(uninterp=[g, c]).run(k, [L, stype(kind)])
            x = v
            if x.op == "ite" and x.a[0] in (eq0(sm), eq(sm, ZERO)) and x.a[1] is mk("vec"):
                x = x.a[2]
            if x.op == "uniq" and x.a[0].op == "lam" and x.a[0].a[0] is sm:
                b = fresh(rng(ZERO, sm))
                e = sel(x.a[0], b)
                if e.op == "app" and e.a[0] == c and e.a[1] is sel(L, b) and e.a[3] is stype(kind) and e.a[2].op == "app" and e.a[2].a[0] == g and e.a[2].a[1] is mk("fld", sel(L, ZERO), "size") and e.a[2].a[2] is stype(kind):
                    ck.ok("reduce_to_canonical_reps %s" % kind, "the distinct canonical forms of all inputs under the group of the type", k, show(v)[:400])
                    return
            ck.certified_rel("reduce_to_canonical_reps %s" % kind, k, v, lambda m, r: one_per_class(m, r), models(ck, kind))
        ck.run("reduce_to_canonical_reps %s" % kind, k, f)
    for fn, members in (("reduce_to_equivalence", False), ("reduce_to_equivalence_par", False), ("reduce_to_equivalence_set_dif", True)):
        k = ck.key(fn)
        ck.certified_rel(fn, k, lambda k=k: ck.ip(uninterp=[g, cf, fm]).run(k, [L, stype(QT), ops])[0], lambda m, r, members=members: one_per_class(m, r, members=members), models(ck, QT), "exactly one representative per class of the input")
    k = ck.key("generate_equivalent_quad_seqs")

    def allof(m, v):
        want = sorted(j for j in range(len(m.cls)) if m.cls[j] in {m.cls[lab(q)] for q in m.syms["L"]})
        got = sorted(lab(q) for q in v)
        return None if want == got else "members %s, classes of the inputs have %s" % (got, want)
    ck.certified_rel("generate_equivalent_quad_seqs", k, lambda: ck.ip(uninterp=[gc]).run(k, [L, stype(WTS)])[0], allof, models(ck, WTS), "union of the classes of all inputs")
    unique_list(ck)
    c08.comparisons(ck)
    c08.selections(ck, ("find_minimum", "qt_canonical"))
    for fn, even in (("ns_canonical", True), ("sn_ss_canonical", False)):
        merged(ck, fn, even)


def unique_list(ck):
    """the exhaustive search lists one line per class of the sequences it found"""
    k, ka = ck.find("find", module="find_unique"), ck.find("find_aux", module="find_unique")
    if not k or not ka:
        return
    fm, gc = ck.key("find_minimum"), ck.key("generate_equivalence_class")
    tq, tr, ip_ = ck.key("to_qs", "QuadSeq"), ck.key("to_string_raw", "QS"), ck.key("is_perfect", "QS")

    def ms(lits):
        for m in models(ck, "QuaternionType")(lits):
            m.apps.update({ka: lambda z, m=m: list(m.syms["L"]), tq: lambda q: ("qs", lab(q)), tr: lambda q: "s%d" % q[1], ip_: lambda q: True})
            m.syms["n"] = 3
            yield m

    def pred(m, t):
        if not isinstance(t, str):
            return "not a text"
        ls = t.split("\n")
        if ls.pop() != "" or any(not (l[:1] == "s" and l[1:].isdigit()) for l in ls):
            return "the text is not one sequence per line: %r" % t
        return one_per_class(m, [tok(int(l[1:])) for l in ls])

    def f():
        ip = ck.ip(uninterp=[ka, gc, fm, tq, tr, ip_])
        return ip.run(k, [n], assume=POS)[0]
    ck.certified_rel("exhaustive search lists one line per class", k, f, pred, ms, "a sequence opens a class unless a class holds it")


def merged(ck, fn, even):
    """equivalent quadruples have the same canonical form"""
    import itertools
    from qsa.teval import value
    key = ck.key(fn)
    st = {}

    def g():
        st["v"] = ck.ip().run(key, [quadseq()], assume=POS)[0]
        return st["v"]

    def pred(m, v):
        r = m.rng
        q = [m.syms[c] for c in "abcd"]
        for _ in range(3):
            while True:
                p = list(range(4))
                r.shuffle(p)
                sg = [r.choice((-1, 1)) for _ in p]
                if not even or (parity(p) + sg.count(-1)) % 2 == 0:
                    break
            q2 = [[sg[i] * x for x in q[p[i]]] for i in range(4)]
            w = value(Mod(dict(zip("abcd", q2), n=m.syms["n"])), st["v"])
            if w[0] == "bottom" or w[1] != v:
                return "the equivalent quadruple %s has a different canonical form: %s and %s" % (q2, [list(x) for _, x in v[2:]], [list(x) for _, x in w[1][2:]] if w[0] != "bottom" else "none")
        return None

    def models_(lits):
        r = random.Random(4)
        for rep in range(150):
            N = r.choice((1, 2, 3, 4, 6))
            s = [[r.choice((-1, 1)) for _ in range(N)] for _ in range(4)]
            for _ in range(r.choice((0, 0, 1, 2))):
                i, j = r.randrange(4), r.randrange(4)
                s[i] = [r.choice((1, -1)) * 1 * x for x in s[j]] if r.random() < .3 else list(s[j])
            m = Mod(dict(zip("abcd", s), n=N))
            m.rng = r
            yield m
    ck.certified_rel("%s merges equivalent quadruples" % fn, key, g, pred, models_, "constant on the orbits of the preliminary operations")
