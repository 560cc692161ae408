"""A quadruple is reported only if it satisfies the definition of its type.

The dispatch of definitions by type is compared with the closed forms of rule C02. The join is summarised with the predicates
as opaque functions and judged with their defining conditions: what it returns are exactly those combinations of the listed
indices for which the definition of the requested type holds for the four sequences that are returned; a type without
definition gives nothing. The composition of encoding and perfection is compared with the quaternion-type condition, and the
conversion to Hadamard matrices panics exactly if a sequence of the file does not satisfy its type."""
import random
from qsa.spec import *
from qsa.ob import Mod, Undecided
from qsa.models import FX
from qsa.world import outputs, WorldError
from rules import c02, c14, c27

FLOOR = 12
KINDS = ("QuaternionType", "WilliamsonType", "Williamson")


def holds(qd):
    """which atomic conditions fail, by kind"""
    return {b[0] for b in c02.conds(qd)}


def defn(kind, qd):
    bad = holds(qd)
    need = {"QuaternionType": ("comp", "cr"), "WilliamsonType": ("comp", "am"), "Williamson": ("comp", "sym")}.get(kind)
    return need is not None and not any(x in bad for x in need)


def seqs(v):
    f = dict(v[1:])
    return [list(f[c]) for c in "abcd"]


def predicates(ck):
    """meaning of the predicates, on a quadruple (its quaternion sequence is represented by the quadruple)"""
    ap = {}

    def put(nm, t, f):
        k = ck.find(nm, t)
        if k:
            ap[k] = f
    put("is_perfect", "QS", lambda q: defn("QuaternionType", seqs(q)))
    put("verify", "QuadSeq", lambda q, t: defn(t[1], seqs(q)))
    put("verify_qts", "QuadSeq", lambda q: defn("QuaternionType", seqs(q)))
    put("verify_wts", "QuadSeq", lambda q: defn("WilliamsonType", seqs(q)))
    put("verify_ws", "QuadSeq", lambda q: defn("Williamson", seqs(q)))
    put("is_periodic_complementary", "QuadSeq", lambda q: "comp" not in holds(seqs(q)))
    put("is_amicable", "QuadSeq", lambda q: "am" not in holds(seqs(q)))
    put("is_symmetric", "QuadSeq", lambda q: "sym" not in holds(seqs(q)))
    put("verify_cross_correlation", "QuadSeq", lambda q: "cr" not in holds(seqs(q)))
    put("to_qs", "QuadSeq", lambda q: q)
    return ap


def batches(lits):
    """lists of quadruples of one length: valid ones of each type and ones that fail few conditions"""
    by = {}
    for qd in c02.quads(lits):
        by.setdefault(len(qd[0]), []).append(qd)
    r = random.Random(2)
    for k in sorted(by, key=lambda k: (k not in (4, 5, 6, 7, 3), k)):
        L = by[k]
        if len(L) > 60:
            L = r.sample(L, 60)
        if k <= 8:
            from rules import c13
            L = L + [list(map(list, q)) for sym in (True, False) for q in c13.quads(k, sym)[:8]]
        if k <= 40:
            yield k, L


def join_models(ap):
    def gen(lits):
        for k, L in batches(lits):
            S_ = [[q[j] for q in L] for j in range(4)]
            left = sorted("k%04d_:_%d_%d" % (i, i, i) for i in range(len(L)))
            m = Mod(dict(f1="a/pair_1", f2="a/pair_2", s0=S_[0], s1=S_[1], s2=S_[2], s3=S_[3]), ap)
            m.files = lambda p, left=left: left
            m.Q = L
            yield m
    return gen


def join_pred(kind):
    def f(m, v):
        got = [tuple(map(tuple, seqs(q))) for q in v]
        for q in v:
            if dict(q[1:])["size"] != len(dict(q[1:])["a"]):
                return "size field %s of a quadruple of length %d" % (dict(q[1:])["size"], len(dict(q[1:])["a"]))
        for q in got:
            if not defn(kind, [list(x) for x in q]):
                return "reported as %s without satisfying the definition: %s (fails %s)" % (kind, [list(x) for x in q], sorted(holds(q)))
        want = {tuple(map(tuple, q)) for q in m.Q if defn(kind, q)}
        if set(got) != want:
            w = sorted(want ^ set(got))[0]
            return "%s: %s is %s" % (kind, [list(x) for x in w], "not reported" if w in want else "reported, not a listed combination")
        return None
    return f


def check(ck):
    q = quadseq()
    ck.support(lambda: c02.check(ck))
    kv = ck.key("verify", "QuadSeq")
    spec = dict(QuaternionType=and_(c02.comp_spec(q), c02.cross_spec(q)), WilliamsonType=and_(c02.comp_spec(q), c02.amic_spec(q)), Williamson=and_(c02.comp_spec(q), c02.sym_spec(q)))
    for kind in KINDS + OTHER_TYPES:
        ck.same("definition chosen for type %s" % kind, kv, lambda kind=kind: ck.ip().run(kv, [q, stype(kind)], assume=POS)[0], spec.get(kind, FALSE), c02.qmodels)

    kt, kp = ck.key("to_qs", "QuadSeq"), ck.key("is_perfect", "QS")

    def encoded():
        v, st = ck.ip().run(kt, [q], assume=POS)
        return ck.ip().run(kp, [v], assume=POS)[0]
    ck.certified("perfection of the encoded quadruple", kp, encoded, spec["QuaternionType"], c02.qmodels,
                 "the real part of the quaternion correlation is a fourth of the summed autocorrelations; its i, j, k parts vanish with the signed cross-correlation differences")

    ap = predicates(ck)
    kj = ck.key("join_pairs_files")

    def joined(order, kind):
        ip = ck.ip(uninterp=list(ap))
        o = mk("tuple", *[tag(c) for c in order])
        s = mk("tuple", *[Sym("s%d" % i, "list") for i in range(4)])
        return ip.run(kj, [mk("tuple", Sym("f1", "str"), Sym("f2", "str")), stype(kind), o, s], assume=POS)[0]
    for kind in KINDS + OTHER_TYPES:
        ck.certified_rel("join reports only %s" % kind if kind in KINDS else "join reports nothing for %s" % kind, kj, lambda kind=kind: joined("WZXY", kind),
                         join_pred(kind), join_models(ap), "the quadruple pushed is the one the condition of the type was decided for")
    conversion(ck, ap)
    c27.steps(ck, False)
    conditions(ck)


def conditions(ck):
    """the conditions that the drivers of the condition search pass on"""
    kf = ck.find("find", module="find_williamson")
    q = quadseq()
    for nm, kind, spec in (("find_williamson_of_size", "Williamson", and_(c02.comp_spec(q), c02.sym_spec(q))), ("find_williamson_type_of_size", "Williamson-type", and_(c02.comp_spec(q), c02.amic_spec(q)))):
        k = ck.find(nm)
        if not k or not kf:
            continue

        def run(k=k):
            ip = ck.ip()
            got = []

            def h(ip_, st, args, e):
                got.append(ip_.apply(args[1], [q], st))
                return Sym("count", "usize")
            ip.keep[kf] = h
            ip.run(k, [n], assume=POS)
            if len(got) != 1:
                raise Undecided("search started %d times" % len(got))
            return got[0]
        ck.same("condition of the %s search" % kind, k, run, spec, c02.qmodels)


def conversion(ck, ap0):
    k = ck.key("hadamard_equivalence_from_file")
    un = {nm: ck.find(nm, t) for nm, t in (("from_williamson", "HM"), ("from_str", "QS"), ("from_pqs", "QuadSeq"), ("to_string_magma", "HM"), ("canon_hm", None), ("graph_from_hm", None))}
    if not all(un[x] for x in ("from_williamson", "from_str", "from_pqs", "to_string_magma")):
        ck.und("conversion refuses other sequences", "a stage of the conversion is not there", k)
        return

    def models(kind):
        def gen(lits):
            for n_, L in batches(lits):
                good = [q for q in L if defn(kind, q)]
                bad = [q for q in L if not defn(kind, q)]
                sets = [good[:3], good[:2] + bad[:1], bad[:1] + good[:2], good[:1] + bad[1:2] + good[1:2]] + [[b] for b in [x for x in bad if any(defn(o, x) for o in KINDS)][:6] + bad[:20]] + [[g] for g in good[:4]]
                for Q in sets:
                    a = dict(ap0)
                    lines = ["L%d" % i for i in range(len(Q))]
                    a[un["from_str"]] = lambda s, Q=Q: ("S", ("size", len(Q[0][0]))) + tuple(zip("abcd", Q[int(s[1:])]))
                    a[un["from_pqs"]] = lambda z: z
                    a[un["from_williamson"]] = lambda z, t: z
                    a[un["to_string_magma"]] = lambda z: "M%r" % (seqs(z),)
                    a["canonlabel"] = lambda z: ("S", ("g", [sum(v * 3 ** i for i, v in enumerate(sum(seqs(z), []))), 0]), ("e", 1), ("n", 8), ("dense", ("D", 0)))
                    if un["canon_hm"]:
                        a[un["canon_hm"]] = a["canonlabel"]
                    if un["graph_from_hm"]:
                        a[un["graph_from_hm"]] = lambda z: z
                    m = Mod(dict(path="results/x/result.seq"), a)
                    m.files = lambda p, lines=lines: lines
                    m.Q = Q
                    yield m
        return gen

    def pred(kind):
        def f(m, v):
            fx, stop = v
            bad = [q for q in m.Q if not defn(kind, q)]
            if stop:
                return None if bad else "the conversion stops on sequences that satisfy %s: %s" % (kind, m.Q)
            if not bad:
                return None
            try:
                out = "".join(outputs(fx).values())
            except WorldError as ex:
                return str(ex)
            for q in bad:
                if "M%r" % (q,) in out:
                    return "a matrix is written for %s, which is not %s" % (q, kind)
            return None
        return f
    for kind in KINDS:
        def run(kind=kind):
            ip = ck.ip(uninterp=list(ap0) + [x for x in un.values() if x and x != un["graph_from_hm"]])
            _, st = ip.run(k, [Sym("path", "str"), stype(kind)], assume=POS)
            return mk("tuple", st.env.get(FX, mk("vec")), or_(*[and_(*pc) for what, pc, fn, sp in ip.panics]))
        ck.certified_rel("conversion refuses what is not %s" % kind, k, run, pred(kind), models(kind), "the assertion of the type's definition precedes every use")
