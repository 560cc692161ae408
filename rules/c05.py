"""Every equivalence operation maps valid quadruples to valid quadruples.

Each operation's result set is summarised as families of elements; every family is recognised as a move (per
sequence: source, sign, alternation, index map kV+s) and judged against the moves that preserve the definition of
the type. A summary that is not recognised is judged at concrete lengths on labelled sequences."""
from rules.eqv import *
from qsa.ob import Fail, Undecided

FLOOR = 16


def judge(ck, kind, key, how):
    name = "%s: %s" % (kind, short(key))

    def f():
        v, ip = op_summary(ck, key, kind)
        if v is None or v.op == "never":
            raise Fail("operation never returns", key)
        arrs = qfields(quadseq())
        TM.ASSUME[:] = LIM
        try:
            fam = None
            try:
                fam = families(v)
                reasons = []
                for conds, binds, el in fam:
                    if field(el, "size") is not n:
                        raise Undecided("size of the result is %s" % show(field(el, "size")))
                    r = legal(kind, move(el, arrs, conds), conds, binds)
                    if r:
                        reasons.append((r, el))
                if not reasons:
                    ck.ok(name, "%s: %d families of results, all moves that keep the definition" % (how, len(fam)), key)
                    return
                und = reasons[0][0]
            except Undecided as ex:
                und = str(ex)
                reasons = None
        finally:
            TM.ASSUME[:] = []
        # concrete lengths
        for N in (1, 2, 3, 4, 5, 6, 8, 9, 12, 16):
            for sg in (False, True):
                for q in elements_at(v, N, sg):
                    if not legal_at(kind, N, q):
                        raise Fail("at length %d the result %s is not reached by moves that keep %s sequences valid (entry i of sequence j is labelled j*n+i+1)%s" % (N, q, kind, ("; " + und) if und else ""), key)
        raise Undecided("moves not recognised: %s" % und)
    ck.run(name, key, f)


def check(ck):
    for kind in (QT, WTS, WS):
        def f(kind=kind):
            keys, site = op_list(ck, kind)
            if not keys:
                raise Fail("no operations for %s" % kind, site)
            for k in keys:
                judge(ck, kind, k, "listed for the type")
            ck.ok("%s: operation list" % kind, "%d operations" % len(keys), site)
        ck.run("%s: operation list" % kind, "equivalences", f)

        def g(kind=kind):
            keys, site = canon_list(ck, kind)
            for k in keys:
                n0 = len(ck.obs)
                judge(ck, kind, k, "generator of representatives")
                for o in ck.obs[n0:]:
                    o["name"] = "%s representatives: %s" % (kind, short(k))
            ck.ok("%s: generators of representatives" % kind, "%d generators" % len(keys), site)
        ck.run("%s: generators of representatives" % kind, "reduce_to_canonical_reps", g)
    for kind in ("ItoType", "ExtraTypeI", "ExtraTypeII", "ExtraTypeIII"):
        def h(kind=kind):
            keys, site = op_list(ck, kind)
            if keys:
                raise Undecided("type without definition has operations")
            ck.ok("%s: no operations" % kind, "type without an implemented definition", site)
        ck.run("%s: no operations" % kind, "equivalences", h)
