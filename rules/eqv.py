"""Equivalence moves: recognition in summaries, legality per type, reference groups."""
import math
from qsa.spec import *
from qsa.ob import Fail, Undecided
from qsa import models as MM

LIM = [sub(n, ONE), sub(I(100), n)]      # lengths covered by the table of units
V = Sym("$pos", "usize")
SG = Sym("symbolic", "bool")
QT, WTS, WS = "QuaternionType", "WilliamsonType", "Williamson"


# ------------------------------------------------------------- families of a set term
def families(s):
    """[(conditions, [(v, dom, guard)], element)] covering exactly the elements of a set/list term"""
    out = []

    def go(x, conds, binds):
        o = x.op
        if o in ("set", "uniq", "elems"):
            return go(x.a[0], conds, binds)
        if o == "ite":
            go(x.a[1], conds + [x.a[0]], binds)
            go(x.a[2], conds + [not_(x.a[0])], binds)
            return
        if o == "cat":
            for y in x.a:
                go(y, conds, binds)
            return
        if o == "vec":
            for y in x.a:
                elem(y, conds, binds)
            return
        if o == "lam":
            m = TM.seqlen(x)
            d = rng(ZERO, m)
            v = fresh(d)
            return elem(sel(x, v), conds, binds + [(v, d, TRUE)])
        if o in ("many", "flat"):
            v, pk = TM.openb(x.a[0], x.a[1], mk("pack", x.a[2], x.a[3]))
            b2 = binds + [(v, x.a[1], pk.a[0])]
            if o == "many":
                return elem(pk.a[1], conds, b2)
            return go(pk.a[1], conds, b2)
        raise Undecided("set built from %s" % show(x)[:200])

    def elem(y, conds, binds):
        if y.op == "ite":
            elem(y.a[1], conds + [y.a[0]], binds)
            elem(y.a[2], conds + [not_(y.a[0])], binds)
            return
        out.append((conds, binds, y))
    go(s, [], [])
    return out


# ------------------------------------------------------------- symbolic recognition of one move
EVEN = eq0(sub(mk_mod(n, I(2)), ONE))      # "n is odd", as the code's test normalises


def move(st, arrs, conds):
    """per component (src, sign, alt, k, s): value at position V = sign * (-1)^(alt*V) * src[(k V + s) mod n]"""
    if st.op != "struct":
        raise Undecided("element is %s" % st.op)
    out = []
    for f in "abcd":
        e = sel(field(st, f), V)
        alt = None
        if e.op == "ite":
            c = e.a[0]
            x, y = e.a[1], e.a[2]
            odd = eq0(sub(mk_mod(V, I(2)), ONE))
            ev = eq0(mk_mod(V, I(2)))
            if x is not neg(y):
                raise Undecided("component %s: %s" % (f, show(e)[:200]))
            if c in (odd, not_(ev)):
                alt, e = True, y
            elif c in (ev, not_(odd)):
                alt, e = True, x
            else:
                raise Undecided("component %s: %s" % (f, show(e)[:200]))
        sign = 1
        g = neg(e)
        if e.op != "sel" and g.op == "sel":
            sign, e = -1, g
        if e.op != "sel" or e.a[0] not in arrs:
            raise Undecided("component %s: %s" % (f, show(e)[:200]))
        idx = e.a[1]
        if idx.op == "mod" and idx.a[1] is n:
            idx = idx.a[0]
        k, s = linear(idx)
        out.append((arrs.index(e.a[0]), sign, bool(alt), k, s))
    return out


def linear(idx):
    s = subst(idx, {V: ZERO})
    k = sub(subst(idx, {V: ONE}), s)
    if V in fvs_syms(k) or V in fvs_syms(s) or sub(idx, add(mul(k, V), s)) is not ZERO:
        raise Undecided("index map %s" % show(idx)[:200])
    return k, s


def fvs_syms(x):
    out, st, seen = set(), [x], set()
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, T) or y in seen:
            continue
        seen.add(y)
        if y.op in ("sym", "fv"):
            out.add(y)
        st.extend(y.a)
    return out


def modn_zero(x, even):
    """x = 0 (mod n) for every n"""
    if x is ZERO or mk_mod(x, n) is ZERO:
        return True
    k = sub(x, n)
    return k is ZERO or add(x, n) is ZERO


def is_half(x):
    h = mk_div(n, I(2))
    return x is h or x is neg(h) or x is sub(n, h) or (x.op == "mod" and x.a[1] is n and is_half(x.a[0]))


def coprime_k(k, binds):
    if k is ONE or k is I(-1):
        return True
    for v, d, g in binds:
        if k is v:
            for c in (g.a if g.op == "and" else (g,)):
                from qsa.interp import gcd_
                if c in (eq0(sub(gcd_(n, v), ONE)), eq(gcd_(n, v), ONE)):
                    return True
    return False


def parity(p):
    return sum(1 for i in range(4) for j in range(i + 1, 4) if p[i] > p[j]) % 2


def legal(kind, mv, conds, binds):
    """None if legal for every length, else reason"""
    even = any(c is not_(EVEN) or c is eq0(mk_mod(n, I(2))) for c in conds)
    perm = [m[0] for m in mv]
    if sorted(perm) != [0, 1, 2, 3]:
        return "the four results are not the four sequences"
    ks = {m[3] for m in mv}
    if len(ks) != 1:
        return "different index multipliers"
    k = mv[0][3]
    if not coprime_k(k, binds):
        return "index multiplier %s is not a unit modulo n" % show(k)
    alts = {m[2] for m in mv}
    if len(alts) != 1:
        return "only some sequences are alternatingly negated"
    if True in alts and not even:
        return "alternating negation for odd length"
    neg_ = sum(1 for m in mv if m[1] < 0)
    s0 = mv[0][4]
    halves = []
    for m in mv:
        d = sub(m[4], s0)
        if modn_zero(d, even):
            halves.append(0)
        elif even and is_half(d):
            halves.append(1)
        else:
            return "sequences are shifted by different amounts (%s, %s)" % (show(s0), show(m[4]))
    if kind == QT:
        if (neg_ + parity(perm)) % 2:
            return "an odd number of negations and swaps together"
        if sum(halves) % 2:
            return "an odd number of sequences is half-shifted"
        return None
    if kind == WTS:
        return None
    # Williamson: symmetry about position 0 must be kept
    if modn_zero(s0, even) or (even and is_half(s0)):
        return None
    # unit times index plus shift that is a multiple of n/2
    return "shift %s does not keep symmetric sequences symmetric" % show(s0)


# ------------------------------------------------------------- concrete lengths
def legal_at(kind, N, q):
    """q: four lists of labels (sequence j, entry i has label j*N+i+1, negated when negative)"""
    per = []
    for comp in q:
        if len(comp) != N:
            return False
        c = set()
        for src in range(4):
            for sign in (1, -1):
                for alt in ((0, 1) if N % 2 == 0 else (0,)):
                    for k in range(1, N + 1):
                        if math.gcd(k, N) != 1:
                            continue
                        for s in range(N):
                            ok = True
                            for i in range(N):
                                w = sign * (-1 if alt and i % 2 else 1) * (src * N + (k * i + s) % N + 1)
                                if comp[i] != w:
                                    ok = False
                                    break
                            if ok:
                                c.add((src, sign, alt, k % N, s))
        if not c:
            return False
        per.append(c)
    import itertools
    for mv in itertools.product(*per):
        perm = [m[0] for m in mv]
        if sorted(perm) != [0, 1, 2, 3] or len({m[3] for m in mv}) != 1 or len({m[2] for m in mv}) != 1:
            continue
        ds = [(m[4] - mv[0][4]) % N for m in mv]
        if any(d != 0 and not (N % 2 == 0 and d == N // 2) for d in ds):
            continue
        halves = sum(1 for d in ds if d)
        ng = sum(1 for m in mv if m[1] < 0)
        if kind == QT:
            if (ng + parity(perm)) % 2 == 0 and halves % 2 == 0:
                return True
        elif kind == WTS:
            return True
        elif kind == WS:
            if all(m[4] == 0 or (N % 2 == 0 and m[4] == N // 2) for m in mv):
                return True
    return False


def labels(N):
    return {c: [j * N + i + 1 for i in range(N)] for j, c in enumerate("abcd")}


# ------------------------------------------------------------- generated groups (Schreier-Sims)
def to_perm(N, q):
    """signed arrangement -> permutation of 8N points (tuple)"""
    M = 4 * N
    flat = [x for comp in q for x in comp]
    p = [0] * (2 * M)
    for i, x in enumerate(flat):
        j = abs(x) - 1
        if x > 0:
            p[i], p[i + M] = j, j + M
        else:
            p[i], p[i + M] = j + M, j
    return tuple(p)


def mulp(p, q):
    """first p then q"""
    return tuple(q[i] for i in p)


def invp(p):
    r = [0] * len(p)
    for i, x in enumerate(p):
        r[x] = i
    return tuple(r)


class Group:
    """base and strong generating set"""

    def __init__(self, deg):
        self.deg = deg
        self.id = tuple(range(deg))
        self.base = []
        self.gens = []      # per level
        self.trans = []     # per level: point -> perm mapping base to the point

    def sift(self, p, level=0):
        for l in range(level, len(self.base)):
            b = self.base[l]
            x = p[b]
            t = self.trans[l].get(x)
            if t is None:
                return l, p
            p = mulp(p, invp(t))
        return len(self.base), p

    def contains(self, p):
        return self.sift(p)[1] == self.id

    def add(self, p, level=0):
        l, r = self.sift(p, level)
        if r == self.id:
            return
        if l == len(self.base):
            b = next(i for i in range(self.deg) if r[i] != i)
            self.base.append(b)
            self.gens.append([])
            self.trans.append({b: self.id})
        # r fixes the base points before l
        for m in range(level, l + 1):
            pass
        self._insert(l, r)

    def _insert(self, l, g):
        for m in range(l, -1, -1):
            if all(g[self.base[i]] == self.base[i] for i in range(m)):
                self.gens[m].append(g)
        for m in range(l, -1, -1):
            self._close(m)

    def _close(self, m):
        b = self.base[m]
        tr = self.trans[m]
        queue = list(tr)
        gens = [g for lv in self.gens[m:] for g in lv]
        gens = list(dict.fromkeys(gens))
        done = self.__dict__.setdefault("done", {})
        i = 0
        while i < len(queue):
            x = queue[i]
            i += 1
            for g in gens:
                y = g[x]
                t = mulp(tr[x], g)
                if y not in tr:
                    tr[y] = t
                    queue.append(y)
                else:
                    key = (m, x, g)
                    if done.get(key) is tr[y]:
                        continue
                    done[key] = tr[y]
                    s = mulp(t, invp(tr[y]))
                    if s != self.id:
                        self.add(s, m + 1) if m + 1 <= len(self.base) else None


def closure_group(N, quads):
    G = Group(8 * N)
    for q in quads:
        G.add(to_perm(N, q))
    return G


def ref_generators(kind, N, parts=None):
    """documented generators of the equivalence of a type at length N (label arrangements)"""
    L = labels(N)
    base = [L[c] for c in "abcd"]
    out = []

    def put(name, q):
        out.append((name, q))
    neg_ = lambda x: [-y for y in x]
    import itertools
    if kind == QT:
        for i, j in itertools.combinations(range(4), 2):
            for m in range(4):
                q = list(base)
                q[m] = neg_(q[m])
                q[i], q[j] = q[j], q[i]
                put("negate %s and swap %s%s" % ("WXYZ"[m], "WXYZ"[i], "WXYZ"[j]), q)
    else:
        for m in range(4):
            q = list(base)
            q[m] = neg_(q[m])
            put("negate %s" % "WXYZ"[m], q)
        for i, j in itertools.combinations(range(4), 2):
            q = list(base)
            q[i], q[j] = q[j], q[i]
            put("swap %s%s" % ("WXYZ"[i], "WXYZ"[j]), q)
    if kind in (QT, WTS):
        for s in range(1, N):
            put("shift by %d" % s, [[x[(i + s) % N] for i in range(N)] for x in base])
    for k in range(1, N + 1):
        if math.gcd(k, N) == 1:
            put("multiply indices by %d" % k, [[x[i * k % N] for i in range(N)] for x in base])
    if N % 2 == 0:
        put("alternating negation", [[-y if i % 2 else y for i, y in enumerate(x)] for x in base])
        h = N // 2
        sh = lambda x: [x[(i + h) % N] for i in range(N)]
        if kind == QT:
            for i, j in itertools.combinations(range(4), 2):
                q = list(base)
                q[i], q[j] = sh(q[i]), sh(q[j])
                put("half shift %s%s" % ("WXYZ"[i], "WXYZ"[j]), q)
        else:
            for i in range(4):
                q = list(base)
                q[i] = sh(q[i])
                put("half shift %s" % "WXYZ"[i], q)
    return out


# ------------------------------------------------------------- summaries of the operations
def op_summary(ck, key, kind, sg=SG):
    ip = ck.ip()
    q = quadseq()
    v, _ = ip.run(key, [q, stype(kind), sg], assume=LIM)
    return v, ip


def op_list(ck, kind):
    """function keys of the operations of a type"""
    k = ck.key("equivalences", "SequenceType")
    v, _ = ck.ip().run(k, [stype(kind)])
    return fn_keys(v), k


def fn_keys(v):
    if v.op != "vec" or any(x.op != "fn" for x in v.a):
        raise Undecided("operation list is %s" % show(v)[:200])
    return [x.a[0] for x in v.a]


def canon_list(ck, kind):
    """generators used for canonical representatives"""
    k = ck.key("reduce_to_canonical_reps")
    g = ck.key("generate_symmetry_group")
    c = ck.key("qt_canonical")
    ip = ck.ip(uninterp=[g, c])
    v, _ = ip.run(k, [Arr("L", Sym("m", "usize")), stype(kind)], assume=[sub(Sym("m", "usize"), ONE)])
    for x in subterms(v):
        if x.op == "app" and x.a[0] == g:
            return fn_keys(x.a[3]), k
    raise Undecided("no symmetry group in the reduction")


def subterms(tm):
    out, st = set(), [tm]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in out:
            continue
        out.add(x)
        st.extend(x.a)
    return out


def short(key):
    return key.split("::")[-1]


def elements_at(v, N, sg=False):
    """evaluate a set summary at length N on labelled sequences"""
    from qsa.teval import value
    m = Mod(dict(labels(N), n=N, symbolic=sg))
    r = value(m, v)
    if r[0] == "bottom":
        raise Fail("operation has no result at length %d" % N)
    out = []
    for s in r[1]:
        d = dict(s[1:])
        out.append([list(d[c]) for c in "abcd"])
    return out
