"""Specifications as closed-form terms, and valuation families for them."""
import random
from .terms import *
from . import terms as TM
from . import interp as IP
from .models import QUAT, VEC3, CPLX, quat, qparts, qmul, cplx, cparts
from .ob import Mod, lens, pm, all_pm

QUADSEQ = "sequences::williamson::QuadSeq"
QS = "sequences::sequence::QS"
TAG = "sequences::williamson::SequenceTag"
STYPE = "sequences::symmetries::SequenceType"

n = Sym("n", "usize")
t = Sym("t", "usize")


def parr(name, ln=None):
    a = Arr(name, n if ln is None else ln)
    IP.ARRDOM[a] = (-1, 1)
    TM.BINARR.add(a)
    TM.NUMARR.add(a)
    return a


def qarr(name):
    """quaternion valued sequence"""
    parts = [Arr(name + c, n) for c in "sxyz"]
    TM.NUMARR.update(parts)
    v = fresh(mk("range", ZERO, n))
    return lam(n, v, quat(*[sel(p, v) for p in parts])), parts


def quadseq(names="abcd", size=None):
    return mk("struct", QUADSEQ, (("size", n if size is None else size),) + tuple((f, parr(nm, size)) for f, nm in zip("abcd", names)))


def qfields(q):
    return [field(q, f) for f in "abcd"]


def mkquad(a, b, c, d, size=None):
    return mk("struct", QUADSEQ, (("size", n if size is None else size), ("a", a), ("b", b), ("c", c), ("d", d)))


def tag(l):
    return mk("enum", TAG, l, ())


def stype(nm):
    return mk("enum", STYPE, nm, ())


TYPES = {"QT": "QuaternionType", "WTS": "WilliamsonType", "WS": "Williamson"}
OTHER_TYPES = ("ItoType", "ExtraTypeI", "ExtraTypeII", "ExtraTypeIII", "Hadamard", "QuaternionTypeHadamard")


def rng(lo, hi):
    return mk("range", lo, hi)


def Sum(lo, hi, f, ty=""):
    v = fresh(rng(lo, hi))
    return msum(ty, v, rng(lo, hi), f(v))


def All(lo, hi, f):
    v = fresh(rng(lo, hi))
    return forall(v, rng(lo, hi), f(v))


def Ex(lo, hi, f):
    v = fresh(rng(lo, hi))
    return exists(v, rng(lo, hi), f(v))


def Lam(m, f):
    v = fresh(rng(ZERO, m))
    return lam(m, v, f(v))


def paf(x, s):
    return Sum(ZERO, n, lambda i: mul(sel(x, i), sel(x, mk_mod(add(i, s), n))))


def cc(x, y, s):
    """sum x[i] y[i-s]"""
    return Sum(ZERO, n, lambda i: mul(sel(x, i), sel(y, mk_mod(sub(i, s), n))))


def conjq(q):
    s, x, y, z = q
    return (s, neg(x), neg(y), neg(z))


def qprod(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return (sub(sub(sub(mul(a, e), mul(b, f)), mul(c, g)), mul(d, h)),
            sub(add(mul(a, f), mul(b, e), mul(c, h)), mul(d, g)),
            sub(add(mul(a, g), mul(c, e), mul(d, f)), mul(b, h)),
            sub(add(mul(a, h), mul(d, e), mul(b, g)), mul(c, f)))


def qsel(parts, i):
    return tuple(sel(p, i) for p in parts)


POS = [sub(n, ONE)]


def rel(x):
    return tuple(x)


# ---------------------------------------------------------------- valuations
def seed_rng(s=1):
    return random.Random(s)


def models_seqs(names, extra=None, small=5, full=3, reps=6, big=True, seed=1, special=True):
    """n plus +-1 sequences; extra(n) yields dictionaries of further symbols"""
    def gen(lits):
        r = random.Random(seed)
        ex = extra or (lambda k: [{}])

        def emit(k, seqs):
            base = {"n": k}
            base.update(zip(names, seqs))
            for e in ex(k):
                d = dict(base)
                d.update(e)
                yield Mod(d)
        for k in lens(lits, small + 3, big):
            big_k = k > 40
            if k <= full and len(names) * k <= 8:
                for w in range(1 << (k * len(names))):
                    bits = [1 if (w >> i) & 1 else -1 for i in range(k * len(names))]
                    yield from emit(k, [bits[j * k:(j + 1) * k] for j in range(len(names))])
                continue
            if special:
                yield from emit(k, [[1] * k for _ in names])
                yield from emit(k, [[-1] * k for _ in names])
                yield from emit(k, [[1] * k if j % 2 == 0 else [-1] * k for j in range(len(names))])
                yield from emit(k, [[1 if i % 2 == 0 else -1 for i in range(k)] for _ in names])
            for _ in range(1 if big_k else reps):
                yield from emit(k, [pm(r, k) for _ in names])
    return gen


def valid_quads(kind):
    """quadruples of +-1 sequences satisfying / nearly satisfying the definitions for small n (valuations for predicates)"""
    return _VALID[kind]


def _paf(x, s):
    k = len(x)
    return sum(x[i] * x[(i + s) % k] for i in range(k))


def _cc(x, y, s):
    k = len(x)
    return sum(x[i] * y[(i - s) % k] for i in range(k))
