"""Products and tensors have the right entries and dimensions.

Each operation is summarised for symbolic sizes and symbolic entries (entries are pairs of opaque functions of row and
column). Operations whose result has a closed form are compared with it; the ones written as index arithmetic over nested
loops have a reviewed normal form, any other form is judged against the Kronecker (cyclic) product on valuations with sizes
whose sums, products and remainders differ."""
import random
from fractions import Fraction
from qsa.spec import *
from qsa.ob import Mod
from qsa.models import cplx
from rules.c19 import pmul, qval, UNITS, qmat, QHMT

FLOOR = 12
OP = "sequences::mum::Operator"
HMUO = "sequences::mum::HMUO"
MUM = "sequences::mum::MUM"
m_ = Sym("m", "usize")
BOTH = [sub(n, ONE), sub(m_, ONE)]
SIZES = [(2, 3), (3, 2), (1, 1), (1, 4), (4, 1), (2, 2), (3, 3), (3, 4), (4, 6), (5, 2), (6, 4), (2, 5), (7, 3), (3, 7)]


def entry(nm, i, j):
    return cplx(mk("app", "$R" + nm, i, j), mk("app", "$I" + nm, i, j))


def cmat(k, e):
    i, j = fresh(rng(ZERO, k)), fresh(rng(ZERO, k))
    return lam(k, i, lam(k, j, e(i, j)))


def oper(nm, k):
    return mk("struct", OP, (("size", k), ("values", cmat(k, lambda i, j: entry(nm, i, j)))))


def cval(x):
    d = dict(x[1:])
    return (Fraction(d["re"]), Fraction(d["im"]))


def rand(r, k):
    return {(i, j): (Fraction(r.randint(-3, 3)), Fraction(r.randint(-3, 3))) for i in range(k) for j in range(k)}


def pairs(lits):
    out = list(SIZES)
    for c in sorted(lits):
        if 4 < c <= 40:
            out += [(c, 2), (2, c), (c + 1, 1)]
    return out


def models(lits):
    r = random.Random(29)
    for a, b in pairs(lits):
        A, B, C = rand(r, a), rand(r, b), rand(r, a)
        m = Mod(dict(n=a, m=b, zr=Fraction(r.randint(-3, 3)), zi=Fraction(r.randint(-3, 3)), sa=a, sb=b))
        for nm, T in (("A", A), ("B", B), ("C", C)):
            m.apps["$R" + nm] = lambda i, j, T=T: T[(i, j)][0]
            m.apps["$I" + nm] = lambda i, j, T=T: T[(i, j)][1]
        m.A, m.B = A, B
        yield m


def cmul(x, y):
    return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])


def kron(m, x):
    d = dict(x[1:])
    a, b = m.syms["n"], m.syms["m"]
    if d["size"] != a * b:
        return "the recorded dimension is %s for operators of dimensions %d and %d" % (d["size"], a, b)
    V = d["values"]
    if len(V) != a * b or any(len(w) != a * b for w in V):
        return "the result has %d rows of lengths %s, expected %d" % (len(V), sorted({len(w) for w in V}), a * b)
    for i in range(a):
        for j in range(a):
            for p in range(b):
                for q in range(b):
                    w = cmul(m.A[(i, j)], m.B[(p, q)])
                    g = cval(V[i * b + p][j * b + q])
                    if g != w:
                        return "entry (%d,%d) is %s instead of A[%d][%d]*B[%d][%d] = %s" % (i * b + p, j * b + q, g, i, j, p, q, w)
    return None


def seqs(nm, k):
    i = fresh(rng(ZERO, k))
    return mk("struct", QS, (("size", k), ("values", lam(k, i, quat(*[sel(Arr(nm + c, k), i) for c in "sxyz"]))), ("symmetry", Sym("sy" + nm, "sym"))))


def seqmodels(lits):
    r = random.Random(30)
    for a, b in pairs(lits):
        u = [r.choice(UNITS) for _ in range(a)]
        w = [r.choice(UNITS) for _ in range(b)]
        d = dict(n=a, m=b)
        for k, c in enumerate("sxyz"):
            d["u" + c] = [x[k] for x in u]
            d["w" + c] = [x[k] for x in w]
        d["syu"] = d["syw"] = ("E", "None")
        m = Mod(d)
        m.u, m.w = u, w
        yield m


def cyclic(m, x):
    d = dict(x[1:])
    a, b = len(m.u), len(m.w)
    if d["size"] != a * b or len(d["values"]) != a * b:
        return "recorded length %s, %d entries for sequences of lengths %d and %d" % (d["size"], len(d["values"]), a, b)
    if d["symmetry"] != ("E", "None"):
        return "the product claims the symmetry type %s" % (d["symmetry"],)
    for k, v in enumerate(d["values"]):
        want = pmul(m.u[k % a], m.w[k % b])
        if qval(v) != tuple(Fraction(c) for c in want):
            return "entry %d is %s instead of a[%d]*b[%d] = %s (lengths %d, %d)" % (k, qval(v), k % a, k % b, want, a, b)
    return None


def listmodels(name):
    def f(lits):
        for x, (a, b) in enumerate(pairs(lits)):
            ka, kb = ((3, 5), (2, 2), (1, 4), (4, 1), (1, 1), (6, 2))[x % 6]
            m = Mod(dict(n=a, m=b, ka=ka, kb=kb, sa=["a%d" % i for i in range(a)], sb=["b%d" % i for i in range(b)]), {name: lambda x, y: (x, y)})
            yield m
    return f


def mumprod(m, x):
    d = dict(x[1:])
    a, b = m.syms["n"], m.syms["m"]
    if d["matrix_size"] != m.syms["ka"] * m.syms["kb"]:
        return "the recorded dimension is %s for dimensions %d and %d" % (d["matrix_size"], m.syms["ka"], m.syms["kb"])
    s = d["sequence"]
    if len(s) != a * b:
        return "the product of sequences of lengths %d and %d has %d entries" % (a, b, len(s))
    for k, v in enumerate(s):
        if tuple(v) != ("a%d" % (k % a), "b%d" % (k % b)):
            return "entry %d is the tensor of %s, expected a[%d] with b[%d] (lengths %d, %d)" % (k, v, k % a, k % b, a, b)
    return None


def qhmmodels(lits):
    r = random.Random(31)
    for k in (2, 3, 1, 4):
        A = {(i, j): r.choice(UNITS) for i in range(k) for j in range(k)}
        m = Mod(dict(n=k), {"$Q" + c: lambda i, j, A=A, x=x: A[(i, j)][x] for x, c in enumerate("sxyz")})
        m.Q = A
        yield m


def op2(q):
    """the complex 2x2 matrix of a quaternion: 1, i, j, k go to I, iX, -iY, iZ"""
    s, x, y, z = q
    return {(0, 0): (s, z), (0, 1): (-y, x), (1, 0): (y, x), (1, 1): (s, -z)}


def conj(q):
    return (q[0], -q[1], -q[2], -q[3])


def blocks(length):
    """entries of the operators built from a quaternion matrix"""
    def pred(m, x):
        w = dims(length)(m, x)
        if w:
            return w
        d = dict(x[1:])
        k = m.syms["n"]
        ops = d["sequence"] if length else [d["operator"]]
        for b, o in enumerate(ops):
            V = dict(o[1:])["values"]
            for i in range(k):
                for j in range(k):
                    Q = op2(pmul(m.Q[b, i], conj(m.Q[b, j])) if length else conj(m.Q[i, j]))
                    for p in range(2):
                        for q in range(2):
                            r, c = (p * k + i, q * k + j) if length else (2 * i + p, 2 * j + q)
                            g, e = cval(V[r][c]), tuple(Fraction(z) for z in Q[p, q])
                            if g != e:
                                return "operator %d, entry (%d,%d) is %s, expected %s (block %d,%d of a quaternion matrix of size %d)" % (b, r, c, g, e, i, j, k)
        return None
    return pred


def dims(length):
    def pred(m, x):
        d = dict(x[1:])
        k = m.syms["n"]
        if d["matrix_size"] != 2 * k:
            return "recorded dimension %s for a quaternion matrix of size %d" % (d["matrix_size"], k)
        ops = d["sequence"] if length else [d["operator"]]
        if length and len(ops) != k:
            return "%d operators for a matrix of size %d" % (len(ops), k)
        for o in ops:
            o = dict(o[1:])
            if o["size"] != 2 * k or len(o["values"]) != 2 * k or any(len(w) != 2 * k for w in o["values"]):
                return "an operator of dimension %s (recorded %s) inside a wrapper of dimension %d" % (len(o["values"]), o["size"], 2 * k)
        return None
    return pred


def wrap(ty, fields):
    return mk("struct", ty, tuple(fields))


def check(ck):
    R = lambda name, key, f: ck.run(name, key, f)

    def op(name, key, args, spec=None, pred=None, ms=models, A=BOTH, **kw):
        def f():
            ip = ck.ip(**kw)
            v, _ = ip.run(key, args, assume=A)
            ck.no_panic(name + ": no panic", key, ip, ms)
            if spec is not None:
                ck.compare(name, key, v, spec, ms)
            else:
                ck.certified_rel(name, key, v, pred, ms)
        R(name, key, f)

    T = ck.key("tensor", "Operator")
    op("tensor product of operators is the Kronecker product", T, [oper("A", n), oper("B", m_)], pred=kron)
    op("conjugate transpose entry by entry", ck.key("conjugate_transpose", "Operator"), [oper("A", n)],
       spec=wrap(OP, (("size", n), ("values", cmat(n, lambda i, j: cplx(mk("app", "$RA", j, i), neg(mk("app", "$IA", j, i))))))))
    op("sum of operators entry by entry", ck.key("add", "Operator"), [oper("A", n), oper("C", n)],
       spec=wrap(OP, (("size", n), ("values", cmat(n, lambda i, j: cplx(add(mk("app", "$RA", i, j), mk("app", "$RC", i, j)), add(mk("app", "$IA", i, j), mk("app", "$IC", i, j))))))))
    zr, zi = Sym("zr", "f32"), Sym("zi", "f32")

    def scaled(i, j):
        a, b = mk("app", "$RA", i, j), mk("app", "$IA", i, j)
        return cplx(sub(mul(a, zr), mul(b, zi)), add(mul(a, zi), mul(b, zr)))
    op("scalar multiple of an operator entry by entry", ck.key("mul", "Operator"), [oper("A", n), cplx(zr, zi)],
       spec=wrap(OP, (("size", n), ("values", cmat(n, scaled)))))
    op("recorded dimension is reported", ck.key("size", "Operator"), [oper("A", n)], spec=n)

    # wrappers
    H = lambda nm, k: wrap(HMUO, (("matrix_size", k), ("operator", oper(nm, k))))

    def hkron(m, x):
        d = dict(x[1:])
        if d["matrix_size"] != m.syms["n"] * m.syms["m"]:
            return "the recorded dimension of the wrapper is %s for dimensions %d and %d" % (d["matrix_size"], m.syms["n"], m.syms["m"])
        return kron(m, d["operator"])
    op("tensor product of unitary operators", ck.key("tensor", "HMUO"), [H("A", n), H("B", m_)], pred=hkron)
    sa, sb = Arr("sa", n), Arr("sb", m_)
    M = lambda k, s: wrap(MUM, (("matrix_size", Sym(k, "usize")), ("sequence", s)))
    op("product of measurement sequences", ck.key("mum_product"), [M("ka", sa), M("kb", sb)], pred=mumprod, ms=listmodels(T), uninterp=[T])
    op("product of quaternion sequences", ck.key("sequence_product"), [seqs("u", n), seqs("w", m_)], pred=cyclic, ms=seqmodels)
    for ty, nm in ((HMUO, "HMUO"), (MUM, "MUM")):
        k = ck.find("from_qhm", nm)
        if k is not None:
            op("%s of a quaternion matrix: dimensions and entries" % nm, k, [qmat()], pred=blocks(nm == "MUM"), ms=qhmmodels, A=POS)
