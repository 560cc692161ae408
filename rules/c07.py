"""Canonicalisation only applies legal moves.

The canonical forms are summarised with the comparisons and tests left abstract. Loops are treated inductively: every
path through the body must map the four sequences to themselves by a legal move. Every path to the result must be a
signed permutation of the four sequences: with an even number of negations and swaps for negate-and-swap (or any
number on paths that tested that two sequences are equal), any for single negations and swaps."""
import itertools
from rules.eqv import *
from qsa.ob import Fail, Undecided

FLOOR = 6


def whole(x, arrs):
    """(source, sign) of a sequence term over whole sequences, else None"""
    if x in arrs:
        return arrs.index(x), 1
    if x.op == "lam":
        f = fresh(rng(ZERO, x.a[0]))
        e = sel(x, f)
        for sg, y in ((1, e), (-1, neg(e))):
            if y.op == "sel" and y.a[1] is f and y.a[0] in arrs and TM.seqlen(y.a[0]) is TM.seqlen(x):
                return arrs.index(y.a[0]), sg
    return None


def tuple_move(xs, arrs):
    mv = [whole(x, arrs) for x in xs]
    if None in mv:
        raise Undecided("component %s" % show(xs[mv.index(None)])[:300])
    return mv


def odd(mv):
    return (sum(1 for m in mv if m[1] < 0) + parity([m[0] for m in mv])) % 2


def judge_paths(ts, arrs, dup, even):
    """raise Fail/Undecided unless every path is a legal signed permutation; returns the number of paths"""
    try:
        cs = TM.cases(ts)
    except OverflowError as ex:
        raise Undecided(str(ex))
    for conds, xs in cs:
        mv = tuple_move(xs, arrs)
        if sorted(m[0] for m in mv) != [0, 1, 2, 3]:
            raise Undecided("a path gives sequences %s" % [("-" if m[1] < 0 else "") + "WXYZ"[m[0]] for m in mv])
        if even and odd(mv) and not any(v and is_dup(a, dup, arrs) for a, v in conds):
            raise Undecided("a path gives the odd signed permutation %s when %s" % ([("-" if m[1] < 0 else "") + "WXYZ"[m[0]] for m in mv], "; ".join(("" if v else "not ") + show(a)[:120] for a, v in conds)))
    return len(cs)


def is_dup(a, dup, arrs):
    """the atom says that two of the four sequences are equal"""
    if a.op == "app" and a.a[0] == dup:
        mv = tuple_move(qfields(a.a[1]), arrs)
        return sorted(m[0] for m in mv) == [0, 1, 2, 3]
    if a.op in ("eq", "forall"):
        for x, y in itertools.combinations(arrs, 2):
            if a is eq(x, y, False) or a is All(ZERO, n, lambda i: eq(sel(x, i), sel(y, i), False)):
                return True
    return False


def result_legal(q, r, even):
    """concrete: is r a signed permutation of q (lists), even if required"""
    for p in itertools.permutations(range(4)):
        for sg in itertools.product((1, -1), repeat=4):
            if even and (parity(p) + sg.count(-1)) % 2:
                continue
            if all(list(r[i]) == [sg[i] * v for v in q[p[i]]] for i in range(4)):
                return True
    return False


def canonical_form(ck, fn, even, lts, dup):
    key = ck.key(fn)

    def f():
        und = None
        try:
            ip = ck.ip(uninterp=lts + [dup])
            ip.havoc, ip.looprecs = True, []
            q = quadseq()
            v, _ = ip.run(key, [q], assume=POS)
            cur = qfields(q)
            if v.op != "struct":
                raise Undecided("result is %s" % v.op)
            paths = 0
            for r in ip.looprecs:
                if len(r["order"]) != 4:
                    raise Undecided("loop over %s" % (r["order"],))
                for m in r["mus"]:
                    TM.NUMARR.add(m)
                paths += judge_paths(r["inits"], cur, dup, even)
                if r["live"]:
                    paths += judge_paths(r["posts"], r["mus"], dup, even)
                for cond, val, lv in r["exits"]:
                    paths += judge_paths(lv, r["mus"], dup, even)
                cur = r["mus"]
            if field(v, "size") is not n:
                raise Undecided("size changed")
            paths += judge_paths(qfields(v), cur, dup, even)
            ck.ok(name, "%d paths, each a legal signed permutation" % paths, key)
            return
        except (Undecided, Unsupported) as ex:
            und = str(ex)
        # a path that cannot be proved legal: look for a quadruple it takes to a different one
        ip = ck.ip()
        v, _ = ip.run(key, [quadseq()], assume=POS)
        from qsa.teval import value
        for m in models_seqs("abcd", small=4, full=2, reps=30, big=False)([]):
            extra = [m]
            if m.syms["n"] > 2:
                s = m.syms
                extra += [Mod(dict(s, b=s["a"])), Mod(dict(s, d=s["c"])), Mod(dict(s, c=s["a"], b=[-x for x in s["d"]])), Mod(dict(s, b=s["a"], c=s["a"]))]
            for mm in extra:
                r = value(mm, v)
                ck.valuations += 1
                if r[0] == "bottom":
                    raise Fail("panics for %s" % mm.describe(), key)
                d = dict(r[1][1:])
                q = [mm.syms[c] for c in "abcd"]
                if not result_legal(q, [d[c] for c in "abcd"], even):
                    raise Fail("%s is taken to %s, which no %s reaches (%s)" % (mm.describe(), [list(d[c]) for c in "abcd"], "even number of negations and swaps" if even else "negations and swaps", und), key)
        raise Undecided(und)
    name = "%s applies legal moves" % fn
    ck.run(name, key, f)
    ip = ck.ip()

    def g():
        ip.run(key, [quadseq()], assume=POS)
        ck.no_panic("%s does not panic" % fn, key, ip, models_seqs("abcd", small=4, full=2, reps=20, big=False))
    ck.run("%s does not panic" % fn, key, g)


from qsa.interp import Unsupported      # noqa: E402


def check(ck):
    lts = [b["key"] for b in ck.dump["bodies"] if b.get("name") == "seq_less_than"]
    dup = ck.key("has_duplicate_seq", "QuadSeq")

    def d():
        ip = ck.ip()
        q = quadseq()
        v, _ = ip.run(dup, [q], assume=POS)
        s = or_(*[All(ZERO, n, lambda i: eq(sel(x, i), sel(y, i), False)) for x, y in itertools.combinations(qfields(q), 2)])
        ck.compare("has_duplicate_seq", dup, v, s, models_seqs("abcd"))
    ck.run("has_duplicate_seq", dup, d)
    canonical_form(ck, "ns_canonical", True, lts, dup)
    canonical_form(ck, "sn_ss_canonical", False, lts, dup)
    ng = ck.key("negated")
    ip = ck.ip()
    x = parr("x")
    ck.same("negated", ng, lambda: ip.run(ng, [x], assume=POS)[0], Lam(n, lambda i: neg(sel(x, i))), models_seqs(["x"]))
