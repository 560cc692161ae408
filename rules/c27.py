"""Exhaustive searches visit every assignment.

Each recursive search is decided by one induction step: its body is summarised with its own recursive calls replaced by the
induction hypothesis (everything below the position passed is kept, what lies beyond is arbitrary afterwards, and the number
(list) of accepted completions of the prefix is added), for an arbitrary prefix and position; the acceptance test is an
opaque predicate of the complete assignment. The step has no closed form: its normal form is the reviewed one, another form
is judged on valuations. The starting calls are summarised likewise."""
import itertools
import random
import zlib
from qsa.spec import *
from qsa.ob import Mod, Unsupported
from qsa.interp import NONE, some
from rules import c02

FLOOR = 20
SYM = "sequences::symmetries::Symmetry"
P, CNT = Sym("p", "usize"), Sym("c0", "usize")


def plus():
    """the alphabet +-1, +-i, +-j, +-k, +-q, +-qi, +-qj, +-qk"""
    from fractions import Fraction as F
    h = F(1, 2)
    q = (h, h, h, h)
    out = []
    for i in range(4):
        u = tuple(1 if j == i else 0 for j in range(4))
        for x in (u, c02.qp(q, u)):
            out += [x, tuple(-v for v in x)]
    return out


ALPH = dict(q16=plus, q24=c02.q24, signs=lambda: list(itertools.product((1, -1), repeat=4)))


def weight(x, salt):
    """pseudo random acceptance, about one in three"""
    return zlib.crc32(repr((salt, [tuple(str(v) for v in y) for y in x])).encode()) % 3 == 0


def put(x, v, i, sy):
    """the assignment with symbol v at position i and, for a symmetry, at its mirror position"""
    x = list(x)
    k = len(x)
    x[i] = v
    j = {None: None, "I": k - 1 - i, "II": k // 2 + i, "III": k // 2 + i, "IV": k // 2 + i}[sy]
    if j is not None:
        neg = {"I": False, "II": i % 2 == 1, "III": (i // 2) % 2 == 1, "IV": True}[sy]
        x[j] = tuple(-c for c in v) if neg else v
    return x


def completions(x, i, sy, alph):
    """all assignments that agree with x below position i"""
    end = len(x) if sy is None else (len(x) + 1) // 2
    if i >= end:
        yield list(x)
        return
    for v in alph:
        yield from completions(put(x, v, i, sy), i + 1, sy, alph)


class Search:
    """how the state of a search is represented"""

    def __init__(self, kind, sy):
        self.quad = kind == "signs"
        self.alph = ALPH[kind]()
        self.sy = sy

    def term(self):
        if self.quad:
            return quadseq()
        vals, parts = qarr("q")
        sy = NONE if self.sy is None else some(mk("enum", SYM, self.sy, ()))
        return mk("struct", QS, (("size", n), ("values", vals), ("symmetry", sy)))

    def syms(self, x):
        if self.quad:
            return dict((c, [v[i] for v in x]) for i, c in enumerate("abcd"))
        return dict(("q" + c, [v[i] for v in x]) for i, c in enumerate("sxyz"))

    def back(self, v):
        """assignment of an evaluated state"""
        if not isinstance(v, tuple) or v[0] != "S":
            raise ValueError("state %r" % (v,))
        f = dict(v[1:])
        if self.quad:
            return [tuple(z) for z in zip(*[f[c] for c in "abcd"])]
        return [quatv(z) for z in f["values"]]

    def fields(self):
        return ("a", "b", "c", "d") if self.quad else ("values",)


def quatv(z):
    f = dict(z[1:])
    w = dict(f["v"][1:])
    return (f["s"], w["x"], w["y"], w["z"])


def quatt(v):
    return ("S", ("v", ("S", ("x", v[1]), ("y", v[2]), ("z", v[3]))), ("s", v[0]))


class Step:
    """summary of one recursive search function"""

    def __init__(self, ck, key, S_, un, third=None):
        self.ck, self.key, self.S, self.un, self.third = ck, key, S_, un, third
        self.res = None

    def run(self):
        if self.res is not None:
            return self.res
        ck, k, S_ = self.ck, self.key, self.S
        ip = ck.ip(uninterp=self.un)

        def h(ip_, st, args, e):
            vs = [ip_.val(a, st) for a in args]
            for i, a in enumerate(args):
                if a.op != "ref" or i not in self.muts:
                    continue
                old = vs[i]
                if old.op == "struct" and i == 0:
                    new = mk("struct", old.a[0], tuple((f, mk("app", k + "#" + f, *vs) if f in S_.fields() else x) for f, x in old.a[1]))
                elif i == 0:
                    new = old
                    for f in S_.fields():
                        new = mk("setf", new, f, mk("app", k + "#" + f, *vs))
                else:
                    new = mk("app", k + "#%d" % i, *vs)
                ip_.store(a, new, st)
            return mk("app", k, *vs)
        ip.keep[k] = h
        b = ip.bodies[k]
        tys = [p["ty"] for p in b["params"]]
        self.muts = [i for i, t in enumerate(tys) if t.startswith("&mut")]
        env, args = {("$t", 0): S_.term()}, []
        for i, t in enumerate(tys):
            if i == 0:
                if i not in self.muts:
                    raise Unsupported("state not passed as a mutable reference")
                args.append(mk("ref", "$t", 0, ()))
            elif i == 1:
                args.append(n)
            elif i == 2:
                args.append(P)
            elif t == "&mut usize":
                env[("$t", i)] = CNT
                args.append(mk("ref", "$t", i, ()))
            elif t.startswith("&mut"):
                env[("$t", i)] = Sym("l0", "list")
                args.append(mk("ref", "$t", i, ()))
            else:
                args.append(self.third)
        self.tys = tys
        v, st = ip.run(k, args, env=env, assume=[sub(n, ONE), P])
        out = [mk("tuple") if v is None else v, st.env[("$t", 0)]] + [st.env[("$t", i)] for i in self.muts if i]
        pan = or_(*[and_(*pc) for what, pc, fn, sp in ip.panics])
        self.res = mk("tuple", pan, *out)
        return self.res


def models(S_, key, acc, third=False, salt=0):
    def gen(lits):
        r = random.Random(6)
        ks = (1, 2, 3, 4, 5) if S_.sy is None else (2, 4, 6, 8)
        if S_.sy == "I":
            ks = (1, 2, 3, 4, 5, 6)
        big = sorted({x for c in set(lits) | set(getattr(lits, 'big', ())) for x in (c - 1, c, c + 1) if 40 < x <= 200000})
        for c in big[:6]:
            x = [r.choice(S_.alph) for _ in range(2)]
            for p, salt in itertools.product((1, 2), range(5)):
                yield model(S_, key, acc, x, p, salt, r, c)
        extra = sorted({x for c in lits for x in (c - 1, c, c + 1) if 5 < x <= 40})
        for k in ks + tuple(x for x in extra if S_.sy in (None, "I") or x % 2 == 0):
            end = k if S_.sy is None else (k + 1) // 2
            for p in range(max(0, end - 2), end + 1):
                for rep in range(3):
                    x = [r.choice(S_.alph) for _ in range(k)]
                    if S_.sy:
                        for i in range(end):
                            x = put(x, x[i], i, S_.sy)
                    yield model(S_, key, acc, x, p, rep, r)
    return gen


def model(S_, key, acc, x, p, salt, r, before=None):
    a = {}
    cnt0 = r.randrange(5) if before is None else before
    l0 = [quadv(S_, [(1, 1, 1, 1)] * len(x))] * cnt0 if S_.quad else []

    def test(q):
        return weight(S_.back(dict(q[1:]).get("of", q)), salt)

    def conv(q):
        return ("S", ("size", dict(q[1:])["size"]), ("values", [quatt(tuple(int(c == j % 4) for c in range(4))) for j in range(dict(q[1:])["size"])]), ("of", q))
    for z in acc:
        a[z] = conv if z.endswith("to_qs") else test
    memo = {}

    def rec(st, size, i, *rest):
        y = S_.back(st)
        if size != len(x):
            raise_(m, "recursive call with size %s" % size)
        if i <= m.p or i > len(x):
            raise_(m, "recursive call at position %s from position %d" % (i, m.p))
            return []
        k = (repr(y[:i]) if S_.sy is None else repr(y), i)
        if k not in memo:
            memo[k] = [z for z in completions(y, i, S_.sy, S_.alph) if weight(z, salt)]
        return memo[k]

    def left(f):
        def g(st, size, i, *rest):
            y = S_.back(st)
            rr = random.Random(repr(y) + str(i))
            end = len(x) if S_.sy is None else (len(x) + 1) // 2
            for j in range(i, end):
                y = put(y, rr.choice(S_.alph), j, S_.sy)
            if S_.quad:
                return [v["abcd".index(f)] for v in y]
            return [quatt(v) for v in y]
        return g
    a[key] = lambda *z: len(rec(*z))
    a[key + "#3"] = lambda st, size, i, c, *z: (c + [quadv(S_, q) for q in rec(st, size, i)]) if isinstance(c, list) else c + len(rec(st, size, i))
    for f in S_.fields():
        a[key + "#" + f] = left(f)
    s = dict(n=len(x), p=p, c0=cnt0, l0=l0)
    s.update(S_.syms(x))
    m = Mod(s, a)
    m.p, m.x, m.c0, m.salt, m.wrong, m.l0 = p, x, cnt0, salt, [], l0
    return m


def quadv(S_, q):
    return ("S", ("size", len(q))) + tuple((c, [v[i] for v in q]) for i, c in enumerate("abcd"))


def raise_(m, s):
    m.wrong.append(s)


def pred(S_, step):
    def f(m, v):
        if m.wrong:
            w = m.wrong[0]
            m.wrong.clear()
            return w
        pan, ret, state = v[0], v[1], v[2]
        if pan:
            return "panics at position %d of %s" % (m.p, m.x)
        want = [z for z in completions(m.x, m.p, S_.sy, S_.alph) if weight(z, m.salt)]
        got = v[3] if len(v) > 3 else ret
        if isinstance(got, list):
            if len(got) > 1000 and len(got) == len(m.l0) + len(want):
                return None
            g = sorted(repr(S_.back(q)) for q in got)
            if g != sorted([repr(z) for z in want] + [repr(S_.back(q)) for q in m.l0]):
                return "prefix %s of length %d: %d assignments listed instead of %d" % (m.x[:m.p], len(m.x), len(g), len(want) + len(m.l0))
        elif got != len(want) + (m.c0 if len(v) > 3 else 0):
            return "prefix %s of length %d: %s assignments counted instead of %d (before: %d)" % (m.x[:m.p], len(m.x), got, len(want), m.c0)
        f_ = dict(state[1:])
        if f_["size"] != len(m.x):
            return "the size of the state is changed"
        y = S_.back(state)
        if S_.sy is None and [tuple(z) for z in y[:m.p]] != [tuple(z) for z in m.x[:m.p]]:
            return "the prefix %s is left as %s" % (m.x[:m.p], y[:m.p])
        return None
    return f


def searches(ck):
    """(name, step function, top function, alphabet, symmetries, first position, list?)"""
    def g(nm, mod):
        return ck.find(nm, module=mod)
    out = []
    for nm, mod, rec, top, kind, syms, first in (
            ("naive", "find_naive", "find_recursive", "find", "q16", (None, "I", "II"), 1),
            ("parallel", "find_optim", "find_recursive", "find", "q16", (None, "I", "IV"), 1),
            ("parallel over 24 units", "find_optim", "find_recursive_q24", "find_q24", "q24", (None, "III"), 1),
            ("quadruples, equivalence", "find_unique", "find_recursive", "find_aux", "signs", (None,), 0),
            ("quadruples, condition", "find_williamson", "find_recursive", "find", "signs", (None,), 1)):
        out.append((nm, g(rec, mod), g(top, mod), kind, syms, first))
    return out


def check(ck):
    steps(ck, True)


def steps(ck, starts):
    perfect, toqs = ck.find("is_perfect", "QS"), ck.find("to_qs", "QuadSeq")
    ws = ck.find("verify_ws", "QuadSeq")
    acc = [x for x in (perfect, toqs, ws) if x]
    for nm, rec, top, kind, syms, first in searches(ck):
        if not rec:
            ck.und("search step: " + nm, "no recursive function of that name", top or nm)
            continue
        third = mk("fn", ws) if nm == "quadruples, condition" else None
        for sy in syms:
            S_ = Search(kind, sy)
            st = Step(ck, rec, S_, acc, third)
            ck.certified_rel("search step: %s%s" % (nm, ", symmetry " + sy if sy else ""), rec, st.run, pred(S_, st), models(S_, rec, acc),
                             "every symbol is placed once at the position, the rest is left to the next position, a complete assignment is judged once",
                             cid="C27/search step: %s%s" % (nm, sy or ""))
        if top and starts:
            start(ck, nm, rec, top, kind, syms, first, acc, third)


def start(ck, nm, rec, top, kind, syms, first, acc, third):
    for sy in syms:
        S_ = Search(kind, sy)

        def run(S_=S_, sy=sy):
            ip = ck.ip(uninterp=acc)
            calls = []

            def h(ip_, st, args, e):
                vs = [ip_.val(a, st) for a in args]
                calls.append(vs)
                for i, a in enumerate(args):
                    if a.op == "ref" and i >= 3:
                        ip_.store(a, mk("app", rec + "#%d" % i, *vs), st)
                return mk("app", rec, *vs)
            ip.keep[rec] = h
            ps = ip.bodies[top]["params"]
            args = [n]
            for p in ps[1:]:
                args.append(third if "fn(" in p["ty"] else (NONE if sy is None else some(mk("enum", SYM, sy, ()))))
            v, st = ip.run(top, args, assume=POS)
            return mk("tuple", or_(*[and_(*pc) for what, pc, fn, sp in ip.panics]), v)

        def ms(lits, S_=S_, sy=sy):
            for k in (1, 2, 3) if sy is None else (2, 4):
                for salt in range(3):
                    def rc(st, size, i, *rest, k=k, salt=salt):
                        y = S_.back(st)
                        if size != k or len(y) != k:
                            raise_(m, "starts with size %s for length %d" % (size, k))
                        return [z for z in completions(y, i, S_.sy, S_.alph) if weight(z, salt)]
                    a = {rec: lambda *z: len(rc(*z)), rec + "#3": lambda st, size, i, c, *z: (c + [quadv(S_, q) for q in rc(st, size, i)]) if isinstance(c, list) else c + len(rc(st, size, i))}
                    m = Mod(dict(n=k), a)
                    m.k, m.salt, m.wrong = k, salt, []
                    yield m

            for k in sorted({6, 8, 9, 16, 20, 31, 32, 40} | {x for c in lits for x in (c - 1, c, c + 1, 8 * c) if 4 < x < 200}):
                if sy not in (None, "I") and k % 2:
                    continue

                def rc2(st, size, i, *rest):
                    m.calls.append((len(S_.back(st)), size, i))
                    return 1
                a = {rec: rc2, rec + "#3": lambda st, size, i, c, *z: (c + [quadv(S_, S_.back(st))] * rc2(st, size, i)) if isinstance(c, list) else c + rc2(st, size, i)}
                m = Mod(dict(n=k), a)
                m.k, m.wrong, m.calls = k, [], []
                yield m

        def pr(m, v, S_=S_, sy=sy):
            if m.wrong:
                return m.wrong[0]
            if hasattr(m, "calls"):
                late = [c for c in m.calls if c[2] > first]
                if late and len(m.calls) < len(S_.alph):
                    return "length %d: the search starts at position %d instead of %d" % (m.k, late[0][2], first)
                return None
            if v[0]:
                return "panics for length %d" % m.k
            one = (1, 1, 1, 1) if S_.quad else (1, 0, 0, 0)
            x0 = [one] * m.k
            fr = [completions(x0, first, sy, S_.alph)] if not S_.quad or first == 0 else [completions([o] + x0[1:], 1, sy, S_.alph) for o in S_.alph]
            ok = []
            for c in fr:
                ok.append([z for z in c if weight(z, m.salt)])
            if isinstance(v[1], list):
                g = sorted(repr(S_.back(q)) for q in v[1])
                return None if any(g == sorted(map(repr, w)) for w in ok) else "length %d: %d assignments instead of %d" % (m.k, len(g), len(ok[0]))
            return None if any(v[1] == len(w) for w in ok) else "length %d: counts %s instead of %d" % (m.k, v[1], len(ok[0]))
        ck.certified_rel("search start: %s%s" % (nm, ", symmetry " + sy if sy else ""), top, run, pr, ms, "from the first free position, nothing counted before")
