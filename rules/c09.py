"""The symmetry group applied to a sequence equals applying the operations.

The labels put into the symbolic quadruple, the decoding of a label and the operations are summarised: labels must be
distinct, decoding must return the named entry with the sign of the label, and every operation must move entries
independently of their values, so that acting on labels and then decoding is acting on the entries."""
from rules.eqv import *
from qsa.ob import Fail, Undecided, Mod
from qsa.teval import value

FLOOR = 8
TOP = 31        # 4*31 = 124 labels fit in i8


def check(ck):
    g = ck.key("generate_equivalence_class")
    gs = ck.key("generate_symmetry_group")
    fast = ck.key("generate_equivalence_class_fast")
    ops = mk("vec", mk("fn", "$op"))

    def sg():
        ip = ck.ip(uninterp=[g])
        v, _ = ip.run(gs, [n, stype(QT), ops], assume=LIM)
        if v.op != "app" or v.a[0] != g:
            raise Undecided("symmetry group is %s" % show(v)[:300])
        q, ty, fns, flag = v.a[1:5]
        if ty is not stype(QT) or fns is not ops:
            raise Fail("the group is not generated by the operations that were passed: %s" % show(fns)[:200], gs)
        ck.ok("the class of the labelled quadruple under the given operations", "arguments are passed through", gs, show(v)[:500])
        for lo, hi, nm in ((1, TOP, "labels are distinct and non-zero"), (TOP + 1, 100, "labels are distinct for lengths above %d" % TOP)):
            def f(lo=lo, hi=hi):
                for N in range(lo, hi + 1):
                    r = value(Mod({"n": N}), mk("tuple", *[field(q, c) for c in "abcd"]))
                    ck.valuations += 1
                    if r[0] == "bottom":
                        raise Fail("labels are undefined at length %d" % N, gs)
                    flat = [x for c in r[1] for x in c]
                    if len(flat) != 4 * N or 0 in flat or -128 in flat or len({abs(x) for x in flat}) != 4 * N:
                        raise Fail("at length %d the labels are %s" % (N, [list(c)[:6] for c in r[1]]), gs)
                    if N <= TOP and any(list(c) != [j * N + i + 1 for i in range(N)] for j, c in enumerate(r[1])):
                        raise Undecided("different labelling")
                ck.ok(nm, "every length from %d to %d" % (lo, hi), gs)
            ck.run(nm, gs, f)
    ck.run("the class of the labelled quadruple under the given operations", gs, sg)

    # decoding
    q, s = quadseq(), quadseq("stuv")
    ip = ck.ip()
    st = {}

    def dec():
        v, _ = ip.run(fast, [q, mk("set", mk("vec", s))], assume=[sub(n, ONE), sub(I(TOP), n)])
        st["v"] = v
        fam = families(v)
        if len(fam) != 1 or fam[0][0] or len(fam[0][1]) > 1:
            raise Undecided("a single symmetry gives %d families" % len(fam))
        el = fam[0][2]
        for b, d, g_ in fam[0][1]:
            while d.op in ("elems", "set"):
                d = d.a[0]
            if g_ is not TRUE or d is not mk("vec", s):
                raise Undecided("results range over %s" % show(d)[:200])
            TM.ASSUME[:] = [sub(n, ONE), sub(I(TOP), n)]
            try:
                el = subst(el, {b: s})
            finally:
                TM.ASSUME[:] = []
        got = mk("tuple", *[field(el, c) for c in "abcd"])
        want = mk("tuple", *[mk("app", "$dec", x, *qfields(q)) for x in qfields(s)])

        def dc(lab, *seqs):
            cat = [x for sq in seqs for x in sq]
            return [cat[abs(l) - 1] * (1 if l > 0 else -1) for l in lab]

        def models(lits):
            import random
            r = random.Random(2)
            for N in range(1, TOP + 1):
                base = {c: [((j * N + i) % 60) + 1 for i in range(N)] for j, c in enumerate("abcd")}
                labs = [x for k in range(1, 4 * N + 1) for x in (k, -k)]
                for rep in range(3):
                    r.shuffle(labs)
                    for off in range(0, len(labs), 4 * N):
                        L = labs[off:off + 4 * N]
                        yield Mod(dict(base, n=N, s=L[:N], t=L[N:2 * N], u=L[2 * N:3 * N], v=L[3 * N:]), {"$dec": dc})
        ck.certified("every label is replaced by the entry it names, with its sign", fast, got, want, models, "decoded for every label of every length up to %d" % TOP)
    ck.run("every label is replaced by the entry it names, with its sign", fast, dec)

    def panics():
        def models(lits):
            for N in (1, 2, 3, 5, 8, 16, 30, TOP):
                for sg_ in (1, -1):
                    lab = [sg_ * (k + 1) for k in range(4 * N)]
                    yield Mod(dict({c: [1] * N for c in "abcd"}, n=N, s=lab[:N], t=lab[N:2 * N], u=lab[2 * N:3 * N], v=lab[3 * N:]))
        cs = or_(*[and_(*pc) for what, pc, fn, sp in ip.panics])
        # labels outside the alphabet may panic: only legal labels must not
        w, k = ck.separate(cs, FALSE, models)
        if w is not None:
            raise Fail("decoding panics for %s" % w[0][:400], fast)
        ck.ok("no legal label panics", "panic condition false for every legal label among %d label sets" % k, fast)
    ck.run("no legal label panics", fast, panics)

    def each():
        sm = Sym("m", "usize")
        L = Arr("L", sm)
        ip2 = ck.ip()
        v, _ = ip2.run(fast, [q, mk("set", L)], assume=[sub(n, ONE), sub(I(TOP), n), sub(sm, ONE)])
        fam = families(v)
        if len(fam) == 1 and not fam[0][0] and len(fam[0][1]) == 1:
            b, d, gd = fam[0][1][0]
            src = d
            while src.op in ("elems", "set"):
                src = src.a[0]
            if gd is TRUE and (src is L or src.op == "range"):
                ck.ok("every symmetry contributes", "one result per element of the group", fast)
                return
        raise Undecided("class is %s" % show(v)[:300])
    ck.run("every symmetry contributes", fast, each)

    from rules.c06 import closure
    closure(ck, g, 2)
    # operations move entries independently of their values
    for kind in (QT, WTS, WS):
        for src in (op_list, canon_list):
            def f(kind=kind, src=src):
                keys, site = src(ck, kind)
                k = 0
                for key in keys:
                    for flag in (TRUE, FALSE):
                        v, _ = op_summary(ck, key, kind, flag)
                        arrs = qfields(quadseq())
                        fam = families(v)
                        TM.ASSUME[:] = LIM
                        try:
                            for conds, binds, el in fam:
                                for c in conds + [g_ for _, _, g_ in binds]:
                                    if any(x in arrs for x in subterms(c)):
                                        raise Undecided("%s depends on the entries: %s" % (short(key), show(c)[:200]))
                                move(el, arrs, conds)
                                k += 1
                        finally:
                            TM.ASSUME[:] = []
                ck.ok(nm, "%d families of results, each a fixed rearrangement with signs" % k, site)
            nm = "%s: %s act on positions only" % (kind, "operations" if src is op_list else "generators of representatives")
            ck.run(nm, "equivalences", f)
    for kind in (QT, WTS, WS):
        def h(kind=kind):
            keys, site = op_list(ck, kind)
            for key in keys:
                a, _ = op_summary(ck, key, kind, TRUE)
                b, _ = op_summary(ck, key, kind, FALSE)
                if a is not b:
                    for N in range(1, 9):
                        x, y = (sorted(map(str, elements_at(z, N, fl))) for z, fl in ((a, True), (b, False)))
                        if x != y:
                            raise Fail("%s moves labels and sequences differently at length %d" % (short(key), N), key)
                    raise Undecided("%s depends on the symbolic flag" % short(key))
            ck.ok("%s: labels and sequences are moved alike" % kind, "%d operations" % len(keys), site)
        ck.run("%s: labels and sequences are moved alike" % kind, "equivalences", h)
