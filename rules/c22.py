"""Williamson-type results are expanded to every quaternion-type coset.

The effects of the stage are summarised for a symbolic list of results and a symbolic length; the list handed to the
quaternion-type reduction and the content of result-qts.seq are read off the summary."""
import random
from rules.eqv import *
from rules.c08 import qv
from qsa.models import FX
from qsa.teval import keyof
from qsa.world import outputs, WorldError

FLOOR = 4


def negs(s):
    return [-x for x in s]


def hshift(s):
    h = len(s) // 2
    return s[h:] + s[:h]


def quad(q):
    d = dict(q[1:])
    return tuple(tuple(d[c]) for c in "abcd")


def setup(ck):
    k = ck.key("find_write_quad_seq")
    U = dict(join=ck.key("join_pairs"), reduce=ck.key("reduce_to_canonical_reps"), qs=ck.key("to_qs", "QuadSeq"), raw=ck.key("to_string_raw", "QS"),
             txt=ck.key("to_string", "QuadSeq"), am=ck.key("is_amicable", "QuadSeq"))
    return k, U


def txt(q):
    return "|".join("".join("+" if x > 0 else "-" for x in s) for s in q)


def models_for(U):
    def models(lits):
        r = random.Random(4)
        for rep in range(40):
            N = r.choice((2, 4, 3, 6, 1, 5, 8, 2, 4))
            c = r.choice((2, 1, 3, 0, 1))
            L = [qv(N, [[r.choice((1, -1)) for _ in range(N)] for _ in range(4)]) for _ in range(c)]
            log = []

            def red(lst, ty, log=log):
                log.append((lst, ty))
                # a few of the members stand for the representatives
                return [x for j, x in enumerate(lst) if j % 2 == 0]
            m = Mod(dict(n=N), {U["join"]: lambda p, ty, L=L: list(L), U["reduce"]: red, U["qs"]: lambda q: ("QS", txt(quad(q))), U["raw"]: lambda q: "r" + q[1],
                                U["txt"]: lambda q: "t" + txt(quad(q)), U["am"]: lambda q: True})
            m.L, m.log, m.N = L, log, N
            yield m
    return models


def expanded(m, got):
    """None or what the list lacks"""
    src = [quad(q) for q in m.L]
    have = [quad(q) for q in got]
    hs = set(have)
    fam = set()
    for q in src:
        if q not in hs:
            return "the result %s itself is dropped" % txt(q)
        tags = []
        for t_ in range(4):
            def put(s):
                x = list(q)
                x[t_] = tuple(s)
                return tuple(x)
            s = list(q[t_])
            need = [put(negs(s))]
            if m.N % 2 == 0:
                need += [put(hshift(s)), put(negs(hshift(s)))]
            fam.update(need)
            tags.append([x for x in need if x not in hs])
        if all(tags):
            w = min(tags, key=len)
            return "for %s of length %d the copy %s is not in the list that is reduced" % (txt(q), m.N, txt(w[0]))
    for x in have:
        if x not in fam and x not in src:
            return "%s is neither a result nor one with a sequence negated or half-shifted" % txt(x)
    return None


def check(ck):
    k, U = setup(ck)
    st = {}

    def summary(ty):
        ip = ck.ip(uninterp=list(U.values()))
        _, s = ip.run(k, [n, stype(ty)], assume=POS)
        return s.env.get(FX, mk("vec")), ip

    def pred(m, evs):
        m.log.clear()
        try:
            out = outputs(evs)
        except WorldError as ex:
            return str(ex)
        base = "results/pairs/wts/find_%d/" % m.N
        for f in ("result-qts.seq", "result-qts.qseq"):
            if base + f not in out:
                return "%s is not written (files: %s)" % (base + f, sorted(out))
        return None

    def reduced():
        """the list given to the quaternion-type reduction whose result is written"""
        v, ip = summary(WTS)
        apps = {x for x in find_ops(v, ("app",)) if x.a[0] == U["reduce"]}
        if not apps:
            raise Fail("no reduction up to quaternion-type equivalence before result-qts is written", k)
        if len(apps) > 1:
            raise Undecided("several reductions")
        a, = apps
        if a.a[2] is not stype(QT):
            raise Fail("the expanded list is not reduced up to quaternion-type equivalence but with %s" % show(a.a[2]), k)
        ck.no_panic("the stage does not panic", k, ip, models_for(U))
        return v, a

    def f():
        v, a = reduced()
        ck.certified_rel("every result is accompanied by its coset copies before the reduction", k, a.a[1], lambda m, x: expanded(m, x), models_for(U),
                         lemma="the originals, and for each one sequence negated, for even length also half-shifted and both")

        def content(m, evs):
            w = pred(m, evs)
            if w:
                return w
            return files(m, outputs(evs), "results/pairs/wts/find_%d/" % m.N, "result-qts", m.value_of(a))
        ck.certified_rel("result-qts.seq and result-qts.qseq hold the reduced list", k, v, content, value_models(U, a), lemma="one line per representative")
    ck.run("every result is accompanied by its coset copies before the reduction", k, f)

    def helper(nm, spec):
        key = ck.key(nm)
        x = parr("s")
        ck.same(nm, key, lambda: ck.ip().run(key, [x], assume=POS)[0], spec, onearr)
    helper("negated", lambda: Lam(n, lambda i: neg(sel(parr("s"), i))))
    helper("half_shift", lambda: Lam(n, lambda i: sel(parr("s"), mk_mod(add(i, TM.mk_div(n, I(2))), n))))


def onearr(lits):
    r = random.Random(2)
    for c in (2, 4, 6, 8):
        yield Mod(dict(n=c, s=[r.choice((-1, 1)) for _ in range(c)]))


def value_models(U, a):
    base = models_for(U)

    def gen(lits):
        for m in base(lits):
            m.value_of = lambda t_, m=m: m.ev(t_)
            yield m
    return gen


def files(m, out, base, stem, L):
    want = [quad(q) for q in L]
    for suffix, pre in ((".seq", "r"), (".qseq", "t")):
        c = out[base + stem + suffix]
        lines = c.split("\n")
        if lines.pop() != "":
            return "%s: the last line is not terminated" % (stem + suffix)
        if sorted(lines) != sorted(pre + txt(q) for q in want):
            return "%s holds %s for the representatives %s" % (stem + suffix, lines, [txt(q) for q in want])
    return None
