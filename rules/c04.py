"""Sequence encodings are bijective and mutually inverse.

The conversion functions are summarised for symbolic sequences of every length; the summary at one position
mentions that position only, so the finite case split over the 16 sign quadruples / 24 symbols decides all inputs."""
import itertools
from fractions import Fraction as F
from qsa.spec import *
from qsa.ob import Fail, Undecided
from qsa.teval import value

V = Sym("v", "usize")


def unit24():
    out = []
    for i in range(4):
        for s in (1, -1):
            q = [0] * 4
            q[i] = s
            out.append(tuple(map(F, q)))
    return out + list(itertools.product((F(1, 2), F(-1, 2)), repeat=4))


def qp(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return (a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g + c * e + d * f - b * h, a * h + d * e + b * g - c * f)


def q_of(a, b, c, d):
    """quaternion of a sign quadruple"""
    h = F(1, 4)
    return (h * (-a - b - c - d), h * (a - b - c + d), h * (a + b - c - d), h * (a - b + c - d))


def alphabet():
    one, i, j, k = [(F(x == 0), F(x == 1), F(x == 2), F(x == 3)) for x in range(4)]
    q = (F(1, 2),) * 4
    m = {"+": one, "i": i, "j": j, "k": k, "q": q, "x": qp(q, i), "y": qp(q, j), "z": qp(q, k)}
    out = dict(m)
    for c, x in m.items():
        out["-" if c == "+" else c.upper()] = tuple(-y for y in x)
    return out


def lit(x):
    x = F(x)
    return mk_lit(x)


def mk_lit(x):
    return I(int(x)) if x.denominator == 1 else div_lit(x)


def div_lit(x):
    for y in (mk("int", x),):
        return y


def qt(u):
    return quat(*[mk_lit(F(c)) for c in u])


def num(tm):
    if tm.op == "int":
        return F(tm.a[0])
    v = value(Mod({}), tm)
    if v[0] != "v" and v[0] != "val":
        raise Undecided("not a literal: %s" % show(tm)[:200])
    return F(v[1])


def qlit(tm):
    return tuple(num(x) for x in qparts(tm))


def positions(ck, name, key, lam_, arrs, mk_case):
    """lam_: array term whose element at v mentions only entries v of arrs"""
    if lam_.op == "lam" and lam_.a[1] is not n and lam_.a[0] is not n:
        pass
    e = sel(lam_, V)
    for s in atoms_sel(e):
        if s.a[0] not in arrs or s.a[1] is not V:
            raise Undecided("element depends on %s" % show(s))
    return e


def atoms_sel(tm):
    out, st, seen = [], [tm], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "sel" and x.a[0].op == "arr":
            out.append(x)
            continue
        st.extend(x.a)
    return out


def check(ck):
    U = unit24()
    A = alphabet()
    quads = list(itertools.product((1, -1), repeat=4))

    # --- quaternion <-> sign quadruple, single element
    k = ck.key("quaternion_to_quad", module="williamson")
    back = {}

    def f():
        for a in quads:
            ip = ck.ip()
            v, _ = ip.run(k, [qt(q_of(*a))])
            if v is None or v is NEVER_ or v.op != "tuple":
                raise Fail("quaternion %s of the sign quadruple %s has no sign quadruple" % (show(qt(q_of(*a))), a))
            got = tuple(int(num(x)) for x in v.a)
            back[a] = got
            if got != a:
                raise Fail("quaternion %s is decoded as %s, its sign quadruple is %s" % (show(qt(q_of(*a))), got, a))
        ck.ok("quaternion to sign quadruple, 16 cases", "constant folding of the function on each of the 16 quaternions", k)
    ck.run("quaternion to sign quadruple, 16 cases", k, f)

    # --- written symbols
    kw = ck.key("quaternion_to_string", module="sequence")
    kr = ck.key("from_str", "QS")
    chars = {}

    def g():
        for u in U:
            ip = ck.ip()
            v, _ = ip.run(kw, [qt(u)])
            if v is None or v is NEVER_ or v.op != "str":
                raise Fail("unit quaternion %s has no symbol" % (show(qt(u))))
            c = v.a[0]
            if len(c) != 1:
                raise Fail("unit quaternion %s is written with %d characters" % (show(qt(u)), len(c)))
            if c in chars.values():
                raise Fail("symbol %r is written for two quaternions" % c)
            chars[u] = c
        ck.ok("24 distinct one-character symbols", "constant folding of the writer on each unit quaternion", kw)
    ck.run("24 distinct one-character symbols", kw, g)

    def h():
        for u, c in chars.items():
            ip = ck.ip()
            v, _ = ip.run(kr, [S(c)])
            if v is None or v is NEVER_ or v.op != "struct":
                raise Fail("written symbol %r is not read" % c)
            vals = field(v, "values")
            got = qlit(sel(vals, ZERO))
            if got != u:
                raise Fail("symbol %r is written for %s and read as %s" % (c, show(qt(u)), show(qt(got))))
        if not chars:
            raise Undecided("no symbols")
        ck.ok("reading a written symbol gives the same quaternion", "constant folding of the reader on each written symbol", kr)
    ck.run("reading a written symbol gives the same quaternion", kr, h)

    def h2():
        for c, u in A.items():
            if chars.get(u) != c:
                raise Fail("documented symbol %r stands for %s, which is written as %r" % (c, show(qt(u)), chars.get(u)))
        ck.ok("documented alphabet", "written symbols equal the alphabet of README.md", kw)
    ck.run("documented alphabet", kw, h2)

    # --- sequences of any length
    kq = ck.key("to_qs", "QuadSeq")
    q = quadseq()

    def to():
        ip = ck.ip()
        v, _ = ip.run(kq, [q], assume=POS)
        if field(v, "size") is not n:
            ck.bad("quadruple to quaternion sequence: length", "size of the result", kq, show(field(v, "size")))
        vals = field(v, "values")
        arrs = qfields(q)
        ln = ip_len(vals)
        ck.compare("quadruple to quaternion sequence: number of entries", kq, ln, n, models_seqs(list("abcd")))
        e = positions(ck, "", kq, vals, arrs, None)
        bad = []
        for a in quads:
            sub_ = {sel(x, V): I(s) for x, s in zip(arrs, a)}
            r = subst(e, sub_)
            if qlit(r) != q_of(*a):
                bad.append("%s -> %s, expected %s" % (a, show(r), show(qt(q_of(*a)))))
        if bad:
            raise Fail("sign quadruple mapped to the wrong quaternion: " + "; ".join(bad))
        ck.ok("quadruple to quaternion sequence, all positions", "pointwise summary, 16 cases", kq)
        # the panic branch
        for what, pc, fn, sp in ip.panics:
            c = and_(*pc)
            for s in atoms_sel(c):
                if s.a[0] not in arrs:
                    raise Undecided("panic condition %s" % show(c)[:200])
            body = c
            ok = True
            for a in quads:
                if not cover(body, arrs, a):
                    ok = False
            if not ok:
                raise Fail("a sign quadruple is rejected (panic): %s" % show(c)[:300])
    ck.run("quadruple to quaternion sequence, all positions", kq, to)

    kf = ck.key("from_pqs", "QuadSeq")

    def fr():
        # the quaternion sequence is given by its sign quadruples
        arrs = qfields(q)
        v0 = fresh(rng(ZERO, n))
        # element-wise: summary over an abstract element
        vals, parts = qarr("q")
        qs = mk("struct", QS, (("size", n), ("values", vals), ("symmetry", NONE_)))
        ip = ck.ip()
        v, _ = ip.run(kf, [qs], assume=POS)
        for j, fl in enumerate("abcd"):
            x = field(v, fl)
            ck.compare("quaternion to sign sequence %s: number of entries" % fl.upper(), kf, ip_len(x), n, unit_models)
            e = sel(x, V)
            for s in atoms_sel(e):
                if s.a[0] not in parts or s.a[1] is not V:
                    raise Undecided("element depends on %s" % show(s))
            for a in quads:
                u = q_of(*a)
                r = subst(e, {sel(p, V): mk_lit(c) for p, c in zip(parts, u)})
                if r.op != "int" or r.a[0] != a[j]:
                    raise Fail("position with quaternion %s: sequence %s gets %s, expected %d" % (show(qt(u)), "WXYZ"[j], show(r), a[j]))
        ck.compare("quaternion to sign sequence: length", kf, field(v, "size"), n, unit_models)
        ck.ok("quaternion sequence to quadruple, all positions", "pointwise summary, 16 cases", kf)
    ck.run("quaternion sequence to quadruple, all positions", kf, fr)

    # written sequence: concatenation of the symbols in order; reader: one quaternion per character
    vals, parts = qarr("q")
    qs = mk("struct", QS, (("size", n), ("values", vals), ("symmetry", NONE_)))
    for fn_, key, pre, post in (("raw form", ck.key("to_string_raw", "QS"), "", ""), ("bracketed form", ck.key("to_string", "QS"), "[", "]")):
        def w(fn_=fn_, key=key, pre=pre, post=post):
            ip = ck.ip()
            v, _ = ip.run(key, [qs], assume=POS)
            ip2 = ck.ip()
            x = fresh(rng(ZERO, n))
            c, _ = ip2.run(kw, [sel(vals, x)])
            spec = scat(S(pre), smap(x, rng(ZERO, n), TRUE, c), S(post))
            ck.compare("written sequence, %s" % fn_, key, v, spec, unit_models)
        ck.run("written sequence, %s" % fn_, key, w)

    def r():
        w = Sym("w", "str")
        ip = ck.ip()
        v, _ = ip.run(kr, [w])
        inv = {c: u for u, c in chars.items()}
        vals = field(v, "values")
        e = sel(vals, V)
        ch = [x for x in subterms(e) if x.op == "sel" and x.a[0].op == "chars"]
        if any(x.a[0].a[0] is not w or x.a[1] is not V for x in ch) or not ch:
            raise Undecided("element depends on %s" % [show(x) for x in ch][:3])
        for c, u in inv.items():
            got = qlit(subst(e, {x: mk("str", c) for x in ch}))
            if got != u:
                raise Fail("symbol %r at any position is read as %s, it is written for %s" % (c, show(qt(got)), show(qt(u))))
        L = (len_of_str(w), ip_len(mk("chars", w)))
        for what, x in (("number of entries", ip_len(vals)), ("size", field(v, "size"))):
            if x not in L:
                raise Undecided("%s read is %s" % (what, show(x)))
        sy = field(v, "symmetry")
        if sy is not NONE_:
            raise Fail("a read sequence has a symmetry: %s" % show(sy))
        ck.ok("reader keeps length and order", "pointwise summary in the character at the position, 24 cases", kr)
    ck.run("reader keeps length and order", kr, r)


def unit_models(lits):
    import random
    rr = random.Random(2)
    U = unit24()
    for k in (1, 2, 3, 5, 24):
        for _ in range(4):
            us = [rr.choice(U) for _ in range(k)]
            yield Mod(dict(n=k, qs=[u[0] for u in us], qx=[u[1] for u in us], qy=[u[2] for u in us], qz=[u[3] for u in us]))


def cover(c, arrs, a):
    """panic condition must be false when every entry is the sign a of its sequence"""
    r = map_sel(c, {x: I(s) for x, s in zip(arrs, a)})
    return r is FALSE


def map_sel(tm, m):
    sub_ = {}
    for s in atoms_sel(tm):
        if s.a[0] in m:
            sub_[s] = m[s.a[0]]
    return subst(tm, sub_)


from qsa.interp import NEVER as NEVER_, NONE as NONE_
from qsa import models as MM


def ip_len(v):
    return MM._lenof(v)


def subterms(tm):
    out, st = set(), [tm]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in out:
            continue
        out.add(x)
        st.extend(x.a)
    return out


def len_of_str(w):
    return MM._lenof(w)
