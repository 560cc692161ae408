"""The operations of a type generate its whole documented equivalence.

The result families of the operations listed for a type are recognised as moves; the documented generators of the
type's equivalence must be among them for every length. Where a summary is not recognised, the group generated by the
summarised results at concrete lengths is compared with the documented group."""
import itertools
from rules.eqv import *
from qsa.ob import Fail, Undecided

FLOOR = 10


def required(kind):
    """[(name, needs even, test on (mv, conds, binds))] documented generators as symbolic moves"""
    out = []
    ident = [(i, 1, False, ONE, ZERO) for i in range(4)]

    def exact(want):
        def t(mv, conds, binds):
            return mv == want
        return t

    def variant(negs=(), swap=None, half=(), alt=False):
        w = []
        perm = [0, 1, 2, 3]
        if swap:
            perm[swap[0]], perm[swap[1]] = perm[swap[1]], perm[swap[0]]
        for i in range(4):
            src = perm[i]
            w.append((src, -1 if src in negs else 1, alt, ONE, mk_div(n, I(2)) if src in half else ZERO))
        return w
    pairs = list(itertools.combinations(range(4), 2))
    L = "WXYZ"
    if kind == QT:
        for i, j in pairs:
            for m in range(4):
                out.append(("negate %s and swap %s%s" % (L[m], L[i], L[j]), False, exact(variant(negs=(m,), swap=(i, j)))))
    else:
        for m in range(4):
            out.append(("negate %s" % L[m], False, exact(variant(negs=(m,)))))
        for i, j in pairs:
            out.append(("swap %s%s" % (L[i], L[j]), False, exact(variant(swap=(i, j)))))
    if kind != WS:
        def shifts(mv, conds, binds):
            if len(set(m[1:] for m in mv)) != 1 or [m[0] for m in mv] != [0, 1, 2, 3] or mv[0][1:4] != (1, False, ONE) or len(binds) != 1:
                return False
            v, d, g = binds[0]
            c = sub(mv[0][4], v)
            if g is not TRUE or d.op != "range" or v in fvs_syms(c):
                return False
            return TM.prove_ge0(sub(ONE, add(d.a[0], c))) and TM.prove_ge0(sub(add(d.a[1], c), n))
        out.append(("every cyclic shift", False, shifts))

    def units(mv, conds, binds):
        if [(m[0], m[1], m[2], m[4]) for m in mv] != [(i, 1, False, ZERO) for i in range(4)] or len(binds) != 1:
            return False
        from qsa.interp import gcd_
        v, d, g = binds[0]
        return all(m[3] is v for m in mv) and g in (eq0(sub(gcd_(n, v), ONE)), eq(gcd_(n, v), ONE)) and d.op == "range" and d.a[0] is ONE and d.a[1] in (add(n, ONE), n)
    out.append(("every multiplication by a unit", False, units))
    out.append(("alternating negation", True, exact(variant(alt=True))))
    if kind == QT:
        for i, j in pairs:
            out.append(("half shift of %s and %s" % (L[i], L[j]), True, exact(variant(half=(i, j)))))
    else:
        for i in range(4):
            out.append(("half shift of %s" % L[i], True, exact(variant(half=(i,)))))
    return out


def canon_moves(r):
    return r[0].startswith(("negate", "swap"))


def decide(ck, kind, keys, site, name, drop):
    """drop: requirements supplied by the canonical form"""
    sums = []
    for k in keys:
        v, ip = op_summary(ck, k, kind)
        sums.append((k, v))
    TM.ASSUME[:] = LIM
    try:
        fams = []
        for k, v in sums:
            try:
                for conds, binds, el in families(v):
                    try:
                        fams.append((move(el, qfields(quadseq()), conds), conds, binds))
                    except Undecided:
                        pass
            except Undecided:
                pass
        missing = []
        for nm, even, test in required(kind):
            if drop and (nm.startswith("negate") or nm.startswith("swap")):
                continue
            ok = False
            for mv, conds, binds in fams:
                good = all((even and (c is not_(EVEN) or c is eq0(mk_mod(n, I(2))))) for c in conds)
                if good and test(mv, conds, binds):
                    ok = True
                    break
            if not ok:
                missing.append(nm)
    finally:
        TM.ASSUME[:] = []
    if not missing:
        ck.ok(name, "all %d documented generators are results of the listed operations, for every length" % len(required(kind)), site)
        return
    for N in (1, 2, 3, 4, 5, 6, 7, 8):
        els = []
        for k, v in sums:
            els += elements_at(v, N)
        if drop:
            els += [q for nm, q in ref_generators(kind, N) if nm.startswith(("negate", "swap"))]
        G = closure_group(N, els)
        for nm, q in ref_generators(kind, N):
            if not G.contains(to_perm(N, q)):
                raise Fail("at length %d the operations %s do not generate: %s (not recognised for every length: %s)" % (N, [short(k) for k in keys], nm, "; ".join(missing)[:300]), site)
    # longer lengths: unit and shift moves on the table's whole range
    for N in (9, 12, 16, 25, 30, 49, 64, 77, 100):
        els = []
        for k, v in sums:
            els += elements_at(v, N)
        have = {tuple(map(tuple, q)) for q in els}
        for nm, q in ref_generators(kind, N):
            if drop and nm.startswith(("negate", "swap")):
                continue
            if tuple(map(tuple, q)) not in have and not (len(els) < 60 and N < 13 and closure_group(N, els).contains(to_perm(N, q))):
                if nm.startswith("multiply"):
                    if not unit_generated(N, els, q):
                        raise Fail("at length %d the operations %s do not generate: %s" % (N, [short(k) for k in keys], nm), site)
    raise Undecided("not recognised for every length: %s (generated at all lengths tried)" % "; ".join(missing))


def unit_generated(N, els, q):
    """index multiplications only: subgroup of the units generated by the multipliers met"""
    ks = set()
    for e in els:
        for k in range(1, N + 1):
            if math.gcd(k, N) == 1 and e[0] == [abs(e[0][0]) and (i * k % N + 1) for i in range(N)]:
                ks.add(k % N)
    grp = {1 % N}
    while True:
        new = {a * b % N for a in grp | ks for b in ks} | grp
        if new == grp:
            break
        grp = new
    want = q[0][1 % N] - 1 if N > 1 else 0
    return want % N in grp


def check(ck):
    for kind in (QT, WTS, WS):
        def f(kind=kind):
            keys, site = op_list(ck, kind)
            decide(ck, kind, keys, site, "%s: operations generate the equivalence" % kind, False)
        ck.run("%s: operations generate the equivalence" % kind, "equivalences", f)

        def g(kind=kind):
            keys, site = canon_list(ck, kind)
            decide(ck, kind, keys, site, "%s: generators of representatives" % kind, True)
        ck.run("%s: generators of representatives" % kind, "reduce_to_canonical_reps", g)
    # the unit table
    def u():
        k = ck.key("coprime")
        i, j = Sym("i", "usize"), Sym("j", "usize")
        from qsa.interp import gcd_
        def m(lits):
            for a in range(1, 41):
                for b in range(1, a + 1):
                    yield Mod(dict(i=a, j=b))
            for a in (60, 77, 91, 96, 97, 100):
                for b in range(1, a + 1):
                    yield Mod(dict(i=a, j=b))
        v, _ = ck.ip().run(k, [i, j], assume=[sub(i, j), sub(j, ONE)])
        ck.compare("coprimality test", k, v, eq0(sub(gcd_(i, j), ONE)), m, "Euclid's algorithm: gcd equals 1")
    ck.run("coprimality test", "coprime", u)
    # closure
    k = ck.key("generate_equivalence_class")
    for count in (1, 2, 3):
        closure(ck, k, count)


def closure(ck, k, count):
    fs = [Sym("f%d" % i, "fn") for i in range(count)]
    q0 = Sym("q0", "quad")

    def g():
        v, _ = ck.ip().run(k, [q0, stype(WTS), mk("vec", *fs), SG])
        return v
    ck.certified("closure under %d operations" % count, k, g, mk("app", "$closure", q0), lambda l: closure_models(count),
                 "least set containing the argument and closed under the operations", cid="C06/closure under %d operations" % count)


def closure_models(count):
    import random
    from qsa.teval import SetVal
    r = random.Random(7)
    for rep in range(60):
        U = r.choice((1, 2, 3, 6, 12))
        tabs = [[[x for x in range(U) if r.random() < r.choice((0.05, 0.2, 0.5))] for _ in range(U)] for _ in range(count)]
        if rep % 3 == 0:
            # orbits of permutations: long chains
            tabs = []
            for _ in range(count):
                p = list(range(U))
                r.shuffle(p)
                tabs.append([[p[x], x] for x in range(U)])

        def clo(x, tabs=tabs):
            seen, todo = {x}, [x]
            while todo:
                y = todo.pop()
                for tb in tabs:
                    for z in tb[y]:
                        if z not in seen:
                            seen.add(z)
                            todo.append(z)
            return SetVal(sorted(seen))
        apps = {"$closure": clo}
        for i, tb in enumerate(tabs):
            apps["$f%d" % i] = lambda x, *rest, tb=tb: SetVal(tb[x])
        d = {"q0": r.randrange(U), "symbolic": rep % 2 == 0}
        for i in range(count):
            d["f%d" % i] = i
        yield Mod(d, apps)
