"""Spectra depend only on the sequence: the transform of its own length for every history of earlier calls.

State that outlives a call (a plan kept in a static) is entered as "initialised by some earlier call with arbitrary
arguments, or not initialised"; a plan is an abstract value carrying the dimensions it was made for, and executing it on
buffers of other lengths fails, as in the fftw crate."""
from qsa.spec import *

FLOOR = 4


class Syms(dict):
    """symbols describing the history take their value from the valuation's history bit"""

    def __contains__(self, k):
        return dict.__contains__(self, k) or str(k).startswith(("initialised ", "present in ")) or str(k).startswith("earlier")

    def __missing__(self, k):
        return self["$hist"] if not str(k).startswith("earlier") else self["$old"]


def h(dims, a, k):
    v = 7 + 13 * k
    for i, x in enumerate(list(dims) + [0, 0] + list(a)):
        v += (i + 1) * (i + 2 + k) * (x if not isinstance(x, tuple) else 3 * hash(repr(x)) % 1009)
    return v


APPS = {"rdft_re": h, "rdft_im": lambda d, a, k: 3 * h(d, a, k) + 1, "irdft": lambda d, a, k: 5 * h(d, a, k) + 2, "clobbered": lambda a: a}


def cplxv(r, i):
    return ("S", ("re", r), ("im", i))


def models(inverse):
    def gen(lits):
        r = random.Random(11)
        for k in lens(lits, 8, False):
            for old in sorted({k, k + 1, max(1, k - 1), 2 * k, 1}):
                for hist in (False, True):
                    x = pm(r, k)
                    s = Syms({"n": k, "n'": old, "x": x, "x'": pm(r, old), "$hist": hist, "$old": old, "fr": [cplxv(r.randint(-4, 4), r.randint(-4, 4)) for _ in range(k // 2 + 1)],
                              "fr'": [cplxv(1, 0)] * (old // 2 + 1)})
                    yield Mod(s, APPS)
    return gen


def check(ck):
    x = parr("x")
    dims = mk("vec", n)
    half = add(mk_div(n, I(2)), ONE)
    kf = ck.key("dft_sequence")
    spec = Lam(half, lambda k: cplx(mk("app", "rdft_re", dims, x, k), mk("app", "rdft_im", dims, x, k)))

    def fwd():
        ip = ck.ip()
        v, _ = ip.run(kf, [x], assume=POS)
        ck.compare("forward transform is the transform of the sequence's own length", kf, v, spec, models(False))
        ck.no_panic("forward transform never meets a plan of another length", kf, ip, models(False))
    ck.run("forward transform is the transform of the sequence's own length", kf, fwd)

    ki = ck.key("inverse_dft")
    fr = mk("arr", "fr", half)
    spec2 = Lam(n, lambda k: IP.fdiv(mk("app", "irdft", dims, fr, k), n))

    def inv():
        ip = ck.ip()
        v, _ = ip.run(ki, [fr, n], assume=POS)
        ck.compare("inverse transform is the normalised transform of the requested length", ki, v, spec2, models(True))
        ck.no_panic("inverse transform never meets a plan of another length", ki, ip, models(True))
    ck.run("inverse transform is the normalised transform of the requested length", ki, inv)
