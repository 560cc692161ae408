"""Generation with a row sum yields all and only the sequences with that sum.

The recursion is decided by one induction step: the body of the generator is summarised with its own recursive calls
replaced by an application of the induction hypothesis (a term whose value is the reference list), for an arbitrary
prefix, position and number of remaining ones; the caller's summary is then compared with the definition."""
import random
from itertools import combinations
from qsa.spec import *
from qsa.ob import Mod, Undecided, Fail, Unsupported

FLOOR = 4
W64 = 1 << 64


def place(s, r, p):
    """every vector obtained from s by setting exactly r ones among the positions from p on (which hold -1)"""
    s = list(s)
    out = []
    if r < 0 or p + r > len(s):
        return out
    for c in combinations(range(p, len(s)), r):
        x = list(s)
        for i in c:
            x[i] = 1
        out.append(x)
    return out


def step_models(key, extra=0):
    def models(lits):
        r = random.Random(3)
        todo = [(k, p, rem) for k in range(1, 7) for p in range(0, k + 1) for rem in range(0, k - p + 3)]
        for c in sorted(lits):
            for k in (c - 1, c, c + 1, c + 2):
                if 6 < k <= 40:
                    todo += [(k, p, rem) for p in (0, 1, k - 3, k - 2, k - 1, k) for rem in (0, 1, 2, k - p - 1, k - p, k - p + 1) if 0 <= rem and (p >= k - 4 or rem < 3 or rem >= k - p - 1)]
        for k, p, rem in todo:
            s = [r.choice((1, -1)) for _ in range(p)] + [-1] * (k - p)
            log = []

            def rec(s2, r2, p2, log=log):
                log.append((list(s2), r2, p2))
                return place(s2, r2, p2) if r2 < W64 // 2 else []
            m = Mod(dict(n=k, s=s, r=rem, p=p), {key: rec})
            m.log, m.s, m.r, m.p = log, s, rem, p
            yield m
    return models


def step_pred(m, v):
    want = place(m.s, m.r, m.p)
    if any(list(x) != m.s and False for x in v):
        pass
    for s2, r2, p2 in m.log:
        if any(x != -1 for x in s2[p2:]) and 0 <= r2 <= len(s2) - p2:
            m.log.clear()
            return "recursive call at position %d on %s, which already has ones from there on" % (p2, s2)
    m.log.clear()
    got = sorted(map(tuple, v))
    ref = sorted(map(tuple, want))
    if got == ref:
        return None
    extra = [x for x in got if x not in set(ref)]
    miss = [x for x in ref if x not in set(got)]
    if miss:
        return "prefix %s, position %d, %d ones to place: %s is missing" % (m.s[:m.p], m.p, m.r, list(miss[0]))
    if extra:
        return "prefix %s, position %d, %d ones to place: %s is generated" % (m.s[:m.p], m.p, m.r, list(extra[0]))
    return "prefix %s, position %d, %d ones to place: an entry is generated %d times instead of once" % (m.s[:m.p], m.p, m.r, max(got.count(x) for x in got))


def top_models(key):
    def models(lits):
        ks = sorted(set(range(1, 8)) | {x for c in lits for x in (c - 1, c, c + 1) if 7 < x <= 60})
        for k in ks:
            for t in sorted(set(range(-k - 3, k + 4)) if k < 9 else {-k - 2, -k - 1, -k, -k + 1, -k + 2, k - 2, k - 1, k, k + 1, k + 2}):
                calls = []

                def rec(s2, r2, p2, calls=calls):
                    calls.append((r2, p2))
                    s2 = list(s2)
                    if r2 >= W64 // 2:
                        r2 -= W64
                        return [] if p2 + r2 < 0 or p2 == 0 else [["wraps"]]
                    return place(s2, r2, p2) if all(x == -1 for x in s2[p2:]) else [["not empty"]]
                m = Mod(dict(n=k, rs=t), {key: rec} if key else {})
                m.k, m.t = k, t
                yield m
    return models


def top_pred(m, v):
    k, t = m.k, m.t
    want = place([-1] * k, (k + t) // 2, 0) if (k + t) % 2 == 0 and -k <= t <= k else []
    got, ref = sorted(map(tuple, v)), sorted(map(tuple, want))
    if got == ref:
        return None
    return "length %d, sum %d: %d sequences, %d expected; e.g. %s" % (k, t, len(got), len(ref), ([list(x) for x in ref if x not in got] + [list(x) for x in got if x not in ref] + ["one twice"])[0])


def check(ck):
    top = ck.key("generate_sequences_with_rowsum")
    try:
        rec = ck.key("gen_seq_rec")
    except Undecided:
        rec = None
    rs = Sym("rs", "isize")
    if rec:
        st = {}

        def run():
            if st:
                return
            ip = ck.ip()

            def h(ip_, s_, args, e):
                vs = [ip_.val(a, s_) for a in args]
                st.setdefault("calls", []).append((list(s_.pc), vs))
                if len(vs) != 3:
                    raise Unsupported("recursive call of another shape")
                return mk("app", rec, *vs)
            ip.keep[rec] = h
            key = ("$t", 0)
            s, r, p = parr("s"), Sym("r", "usize"), Sym("p", "usize")
            v, e = ip.run(rec, [mk("ref", "$t", 0, ()), r, p], env={key: s}, assume=[sub(n, ONE), sub(n, p)])
            st.update(v=v, e=e.env[key], s=s, ip=ip, p=p, r=r)

        def value_():
            run()
            return st["v"]
        L1 = "a vector with r ones left to place at or after p either leaves p at -1 (r placed after p) or has 1 there (r-1 placed after p); the two cases are disjoint"
        ck.certified_rel("induction step: exactly the completions of the prefix", rec, value_, step_pred, step_models(rec), L1)

        def restored():
            run()
            back, s, p = st["e"], st["s"], st["p"]
            # every entry of the vector left behind equals the entry before (which is -1 from p on)
            def models(lits):
                for m in step_models(rec)(lits):
                    yield m
            ck.certified("the vector is restored", rec, back, s, models, "the only position written is p, which held -1")

        ck.run("the vector is restored", rec, restored)

        def ends():
            run()
            bad = []
            if not st.get("calls"):
                return ck.ok("the recursion ends", "no recursive call", rec)
            for pc, vs in st["calls"]:
                d = sub(vs[2], st["p"])
                old = list(TM.ASSUME)
                TM.ASSUME[:] = [sub(n, ONE), sub(n, st["p"])]
                try:
                    if not TM.prove_ge0(sub(d, ONE)):
                        bad.append(vs[2])
                finally:
                    TM.ASSUME[:] = old
            if bad:
                raise Undecided("position of a recursive call not shown to grow: %s" % show(bad[0]))
            ck.ok("the recursion ends", "every recursive call is at a larger position; none is made beyond the length when ones remain", rec)
        ck.run("the recursion ends", rec, ends)

        def nop():
            run()
            ck.no_panic("no access outside the vector", rec, st["ip"], step_models(rec))
        ck.run("no access outside the vector", rec, nop)

    def t():
        ip = ck.ip(uninterp=[rec] if rec else [])
        v, _ = ip.run(top, [rs, n], assume=POS)
        return v
    ck.certified_rel("sequences of a length with a sum", top, t, top_pred, top_models(rec), "with (size+sum)/2 ones the sum is the target; no such number exists for the other parity; a negative number of ones becomes a number larger than any length")
