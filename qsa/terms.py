"""Hash-consed value-graph terms with smart constructors (normal forms).

Terms are closed under alpha-renaming: bound variables are named by height
(maximal binder index inside the body + 1), so structural identity (`is`)
is equality of normal forms.
"""
import hashlib
import itertools
from fractions import Fraction

_intern = {}
_fresh = itertools.count(1)
_local = [0]


def restart_fresh():
    """the order of open terms restarts for each obligation"""
    _local[0] = 0


class T:
    __slots__ = ("op", "a", "_k", "_h", "bvmax", "fvs", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key

    @property
    def key(self):
        if self._k is None:
            h = hashlib.blake2b(digest_size=10)
            h.update(self.op.encode())
            for x in self.a:
                h.update(b"|")
                h.update(_akey(x))
            self._k = h.hexdigest()
        return self._k


def _akey(x):
    if isinstance(x, T):
        return x.key.encode()
    if isinstance(x, tuple):
        return b"(" + b",".join(_akey(y) for y in x) + b")"
    return (type(x).__name__ + ":" + str(x)).encode()


def _scan(x, st):
    if isinstance(x, T):
        if x.bvmax > st[0]:
            st[0] = x.bvmax
        if x.fvs:
            st[1] = st[1] | x.fvs if st[1] else x.fvs
    elif isinstance(x, tuple):
        for y in x:
            _scan(y, st)


_EMPTY = frozenset()


def mk(op, *args):
    k = (op, args)
    t = _intern.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = args
    t._k = None
    t._h = hash(k)
    st = [0, _EMPTY]
    for x in args:
        _scan(x, st)
    if op == "bv":
        st[0] = max(st[0], args[0])
    if op == "fv":
        st[1] = frozenset([t])
    t.bvmax = st[0]
    t.fvs = st[1]
    _intern[k] = t
    return t


# ---------------------------------------------------------------- atoms
def I(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return mk("int", v)


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("tuple")
ZERO = I(0)
ONE = I(1)


def B(b):
    return TRUE if b else FALSE


def S(s):
    return mk("str", s)


def Sym(name, ty=""):
    return mk("sym", name, ty)


def Arr(name, n):
    """symbolic input vector of length n"""
    return mk("arr", name, n)


FVDOM = {}  # fv -> domain term ("range", lo, hi) or ("elem", seq)


def fresh(dom=None, hint="i"):
    v = mk("fv", next(_fresh), hint)
    _local[0] += 1
    h = hashlib.blake2b(digest_size=10)
    h.update(("fv|%d|%s" % (_local[0], hint)).encode())
    v._k = h.hexdigest()            # order among terms does not depend on what was analysed before
    if dom is not None:
        FVDOM[v] = dom
    return v


# set of terms known >= 0 (lengths etc.)
def known_nonneg(t):
    if t.op in ("len", "mod", "abs", "card", "count", "max0"):
        return True
    if t.op == "div":
        return known_nonneg(t.a[0]) or (t.a[0].op == "int" and t.a[0].a[0] >= 0)
    if t.op == "sym" and t.a[1] in ("usize", "u8", "u32", "u64", "u16", "len"):
        return True
    if t.op == "min":
        return all(prove_ge0(x) for x in t.a)
    if t.op == "u":
        return True
    return False


# ---------------------------------------------------------------- polynomials
def poly(t):
    """term -> dict mono(tuple of atoms) -> coeff"""
    if t.op == "int":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {(t,): 1}


def unpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(((m, _norm(c)) for m, c in d.items()), key=lambda mc: ([x.key for x in mc[0]], str(mc[1]))))
    return mk("poly", items)


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def add(*ts):
    d = {}
    for t in ts:
        if t.op == "ite":
            pass
        for m, c in poly(t).items():
            d[m] = d.get(m, 0) + c
    return unpoly(d)


def scale(t, k):
    return unpoly({m: c * k for m, c in poly(t).items()})


def neg(t):
    return scale(t, -1)


def sub(x, y):
    return add(x, neg(y))


def _indic(x):
    """if(c){k1}else{k2} with integer literals as k2 + (k1-k2)*[c]"""
    if x.op == "ite" and x.a[1].op == "int" and x.a[2].op == "int":
        k1, k2 = x.a[1].a[0], x.a[2].a[0]
        if k2 == 0 and k1 == 1:
            return x
        if k1 == 0 and k2 == 1:
            return add(ONE, scale(mk("ite", x.a[0], ONE, ZERO), -1))
        return add(I(k2), scale(mk("ite", x.a[0], ONE, ZERO), k1 - k2))
    return x


def mul(x, y):
    if x.op == "ite" and y.op != "int":
        x = _indic(x)
    if y.op == "ite" and x.op != "int":
        y = _indic(y)
    d = {}
    for m1, c1 in poly(x).items():
        for m2, c2 in poly(y).items():
            m = tuple(sorted(m1 + m2, key=lambda z: z.key))
            if BINARR and len(m) > 1:
                m = _sq(m)
            d[m] = d.get(m, 0) + c1 * c2
    return unpoly(d)


def _sq(m):
    out = []
    for x in m:
        if out and out[-1] is x and is_bin(x):
            out.pop()
        else:
            out.append(x)
    return tuple(out)


def is_int(t):
    return t.op == "int"


def mk_mod(a, n):
    """Euclidean remainder; caller is responsible for a >= 0 when it matters."""
    if n.op == "int":
        k = n.a[0]
        if a.op == "int" and k != 0:
            return I(a.a[0] % k)
        if k == 1:
            return ZERO
    if a is n:
        return ZERO
    if a.op == "ite" and a.a[1].op == "int" and a.a[2].op == "int":
        return ite(a.a[0], mk_mod(a.a[1], n), mk_mod(a.a[2], n))
    d = {}
    for m, c in poly(a).items():
        if n.op != "int" and n in m:
            continue
        if n.op == "int":
            if isinstance(c, int):
                c = c % n.a[0]
            if c == 0:
                continue
        # nested mod with same modulus
        nm = None
        for j, x in enumerate(m):
            if x.op == "mod" and x.a[1] is n:
                nm = mul(x.a[0], unpoly({tuple(m[:j] + m[j + 1:]): c}))
                break
        if nm is not None:
            for mm, cc in poly(nm).items():
                d[mm] = d.get(mm, 0) + cc
        else:
            d[m] = d.get(m, 0) + c
    b = unpoly(d)
    if b is not a:
        return mk_mod(b, n)
    if prove_ge0(a) and prove_ge0(sub(sub(n, a), ONE)):
        return a
    return mk("mod", a, n)


def mk_div(a, n):
    if n.op == "int" and n.a[0] != 0:
        k = n.a[0]
        if k == 1:
            return a
        if a.op == "int":
            return I(a.a[0] // k)
        d = poly(a)
        if all(isinstance(c, int) and c % k == 0 for c in d.values()):
            return unpoly({m: c // k for m, c in d.items()})
        # pull out multiples of k
        q = {m: c // k for m, c in d.items() if isinstance(c, int) and c % k == 0 and m != ()}
        r = {m: c for m, c in d.items() if not (isinstance(c, int) and c % k == 0 and m != ())}
        if () in r and isinstance(r[()], int):
            q[()] = r[()] // k
            r[()] = r[()] % k
            if r[()] == 0:
                del r[()]
        if q and any(q.values()):
            return add(unpoly(q), mk_div(unpoly(r), n))
    elif n.op != "int":
        # (x*n + y)/n = x + y/n
        q, r = {}, {}
        for m, c in poly(a).items():
            if n in m:
                j = m.index(n)
                q[m[:j] + m[j + 1:]] = c
            else:
                r[m] = c
        if q:
            rr = unpoly(r)
            return add(unpoly(q), mk_div(rr, n))
        if prove_ge0(a):
            if prove_ge0(sub(sub(n, a), ONE)):
                return ZERO
            if prove_ge0(sub(sub(scale(n, 2), a), ONE)):
                return ite(ge0(sub(a, n)), ONE, ZERO)
    return mk("div", a, n)


# ---------------------------------------------------------------- prover (linear, incomplete)
ASSUME = []  # stack of terms known >= 0 (polynomials)


def _bounds(v):
    dom = FVDOM.get(v)
    if dom is not None and dom.op == "range":
        return dom.a[0], sub(dom.a[1], ONE)
    if v.op == "mod":
        return ZERO, sub(v.a[1], ONE)
    if v.op == "div" and v.a[1].op == "int" and v.a[1].a[0] > 0:
        # n/k <= n
        if _pg_depth[0] > 3:
            return None, None
        _pg_depth[0] += 1
        try:
            lo = ZERO if prove_ge0(v.a[0]) else None
        finally:
            _pg_depth[0] -= 1
        return lo, None
    if v.op == "min":
        return None, v.a[0]
    return None, None


_pg_depth = [0]


_PG = {}


def prove_ge0(p, depth=6, use=True):
    """try to prove p >= 0 over the integers"""
    if p.op == "int":
        return p.a[0] >= 0
    k = (p, depth, tuple(ASSUME) if use else None)
    r = _PG.get(k)
    if r is None:
        r = _prove_ge0(p, depth, use)
        _PG[k] = r
    return r


def _prove_ge0(p, depth, use):
    d = poly(p)
    if all(c >= 0 and (m == () or all(known_nonneg(x) or _lo0(x, depth) for x in m)) for m, c in d.items()):
        return True
    if depth <= 0:
        return False
    # eliminate one bounded variable
    cands = []
    for m, c in d.items():
        for x in m:
            if len(m) == 1 and (x in FVDOM or x.op in ("mod", "div")):
                cands.append((x, c))
    for x, c in cands:
        # x must occur linearly and only in monomial (x,) for simple substitution
        if any(x in m and m != (x,) for m in d):
            continue
        lo, hi = _bounds(x)
        if c > 0 and lo is not None:
            q = add(unpoly({m: k for m, k in d.items() if m != (x,)}), scale(lo, c))
            if prove_ge0(q, depth - 1, use):
                return True
        if c < 0 and hi is not None:
            q = add(unpoly({m: k for m, k in d.items() if m != (x,)}), scale(hi, c))
            if prove_ge0(q, depth - 1, use):
                return True
        if x.op == "div" and c < 0 and x.a[1].op == "int":
            # -c * (y/k) >= c*y/k  -> multiply all by k
            k = x.a[1].a[0]
            q = add(scale(unpoly({m: kk for m, kk in d.items() if m != (x,)}), k), scale(x.a[0], c))
            if c == -1:
                q = add(q, I(k - 1))
            if prove_ge0(q, depth - 1, use):
                return True
        if x.op == "div" and c > 0 and x.a[1].op == "int" and x.a[1].a[0] > 0:
            k = x.a[1].a[0]
            q = add(scale(unpoly({m: kk for m, kk in d.items() if m != (x,)}), k), scale(x.a[0], c))
            if c != 1:
                q = add(q, I(-c * (k - 1)))
            if prove_ge0(q, depth - 1, use):
                return True
    if use and ASSUME:
        for h in ASSUME[-24:]:
            if prove_ge0(sub(p, h), min(depth - 1, 3), False):
                return True
        # two assumptions
        if depth >= 5 and len(ASSUME) <= 8:
            for h1 in ASSUME:
                for h2 in ASSUME:
                    if h1 is not h2 and prove_ge0(sub(sub(p, h1), h2), 2, False):
                        return True
    return False


def _lo0(x, depth):
    if x in FVDOM:
        lo, _ = _bounds(x)
        return lo is not None and depth > 0 and prove_ge0(lo, depth - 1, False)
    return False


# ---------------------------------------------------------------- booleans
def ge0(p):
    if p.op == "int":
        return B(p.a[0] >= 0)
    if p.op == "ite":
        return ite(p.a[0], ge0(p.a[1]), ge0(p.a[2]))
    d = poly(p)
    # integer tightening
    from math import gcd
    g = 0
    for m, c in d.items():
        if m != () and isinstance(c, int):
            g = gcd(g, abs(c))
        elif m != ():
            g = 1
    if g > 1:
        import math
        nd = {}
        for m, c in d.items():
            if m == ():
                nd[m] = math.floor(Fraction(c, g))
            else:
                nd[m] = c // g
        p = unpoly(nd)
        if p.op == "int":
            return B(p.a[0] >= 0)
    if prove_ge0(p):
        return TRUE
    if prove_ge0(sub(neg(p), ONE)):
        return FALSE
    return mk("ge0", p)


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def le(a, b):
    return ge0(sub(b, a))


def flt(a, b):
    """a < b over reals"""
    p = sub(b, a)
    if p.op == "int":
        return B(p.a[0] > 0)
    return mk("fgt0", p)


def eq0(p):
    if p.op == "int":
        return B(p.a[0] == 0)
    d = poly(p)
    if BINARR and len(d) <= 2 and all(len(m) <= 1 for m in d):
        xs = [m[0] for m in d if m]
        if len(xs) == 1 and is_bin(xs[0]):
            k = Fraction(-d.get((), 0)) / d[(xs[0],)]
            if k == -1:
                return mk("not", mk("eq0", sub(xs[0], ONE)))
            if k != 1:
                return FALSE
            return mk("eq0", sub(xs[0], ONE))
    if len(d) > 0:
        if prove_ge0(sub(p, ONE)) or prove_ge0(sub(neg(p), ONE)):
            return FALSE
    items = sorted(d.items(), key=lambda mc: [x.key for x in mc[0]])
    lead = [c for m, c in items if m != ()][0]
    if lead < 0:
        p = neg(p)
    return mk("eq0", p)


CONSTOPS = ("int", "bool", "str", "enum", "float", "char")


def is_lit(t):
    """closed ground constructor"""
    if t.op in ("int", "bool", "str", "float", "char"):
        return True
    if t.op == "enum":
        return all(is_lit(x) for x in t.a[2])
    if t.op == "tuple":
        return all(is_lit(x) for x in t.a)
    if t.op == "quat":
        return all(is_lit(x) for x in t.a)
    return False


NUMERIC = ("int", "poly", "mod", "div", "sum", "len", "abs", "count", "round", "min")


def _numsel(a):
    return a.op == "sel" and a.a[0] in NUMARR


def eq(a, b, numeric=False):
    if a is b:
        return TRUE
    if a.op == "ite":
        return ite(a.a[0], eq(a.a[1], b, numeric), eq(a.a[2], b, numeric))
    if b.op == "ite":
        return ite(b.a[0], eq(a, b.a[1], numeric), eq(a, b.a[2], numeric))
    if a.op == "bool" or b.op == "bool":
        if a.op == "bool":
            a, b = b, a
        return a if b.a[0] else not_(a)
    if numeric or a.op in NUMERIC or b.op in NUMERIC or _numsel(a) or _numsel(b):
        return eq0(sub(a, b))
    if a.op == "enum" and b.op == "enum":
        if a.a[1] != b.a[1]:
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.a[2], b.a[2])])
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        return and_(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "struct" and b.op == "struct" and a.a[0] == b.a[0]:
        return and_(*[eq(x[1], y[1]) for x, y in zip(a.a[1], b.a[1])])
    if is_lit(a) and is_lit(b):
        return FALSE
    if a.op == "vec" and b.op == "vec":
        if len(a.a) != len(b.a):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "enum":
        a, b = b, a
    if b.op == "enum" and a.op != "enum":
        r = mk("isv", a, b.a[0], b.a[1])
        return and_(r, *[eq(payload(a, b.a[0], b.a[1], i), x) for i, x in enumerate(b.a[2])])
    la, lb = is_seq(a), is_seq(b)
    if la and lb and (a.op == "lam" or b.op == "lam" or (a in NUMARR and b in NUMARR)):
        n1, n2 = seqlen(a), seqlen(b)
        f = fresh(mk("range", ZERO, n1))
        return and_(eq(n1, n2, True), forall(f, mk("range", ZERO, n1), eq(sel(a, f), sel(b, f), False)))
    x, y = sorted((a, b), key=lambda t: t.key)
    return mk("eq", x, y)


_NOT = {}


_BMEMO = {}


def _bmemo(f, key):
    m = _BMEMO.get(tuple(ASSUME))
    if m is None:
        if len(_BMEMO) > 4000:
            _BMEMO.clear()
        m = _BMEMO[tuple(ASSUME)] = {}
    r = m.get(key)
    if r is None:
        r = m[key] = f()
    return r


def not_(t):
    o = t.op
    if o in ("and", "or", "ite") and o != "bool":
        return _bmemo(lambda: _not(t), ("n", t))
    return _not(t)


def and_(*ts):
    if len(ts) == 1 and ts[0].op != "and":
        return ts[0]
    return _bmemo(lambda: _and(*ts), ("a", ts))


def or_(*ts):
    if len(ts) == 1 and ts[0].op != "or":
        return ts[0]
    return _bmemo(lambda: _or(*ts), ("o", ts))


def _ge0_weaker(gs, conj):
    """comparisons p>=0, p+c>=0: the weaker one of a conjunction (the stronger one of a disjunction) is redundant"""
    by = {}
    for t in gs:
        d = poly(t.a[0])
        c = d.get((), 0)
        k = tuple(sorted(((tuple(x.key for x in m), v) for m, v in d.items() if m), key=str))
        by.setdefault(k, []).append((c, t))
    drop = set()
    for k, l in by.items():
        if len(l) > 1 and k:
            try:
                keep = (min if conj else max)(l, key=lambda z: z[0])[1]
            except TypeError:
                continue
            drop.update(t for c, t in l if t is not keep)
    return drop


def _not(t):
    o = t.op
    if o == "bool":
        return B(not t.a[0])
    if o == "not":
        return t.a[0]
    if o == "and":
        return or_(*[not_(x) for x in t.a])
    if o == "or":
        return and_(*[not_(x) for x in t.a])
    if o == "ge0":
        return ge0(sub(neg(t.a[0]), ONE))
    if o in ("forall", "exists"):
        r = _NOT.get(t)
        if r is None:
            nb = not_(t.a[2])
            # the dual of a normal form is a normal form: no term can be moved out of the binder
            r = mk("exists" if o == "forall" else "forall", t.a[0], t.a[1], nb)
            if o == "exists" or nb.op in ("bool", "or"):
                r = mkq("exists" if o == "forall" else "forall", t.a[0], t.a[1], nb)
            _NOT[t] = r
        return r
    if o == "ite":
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return mk("not", t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.a)
        else:
            out.append(t)
    return out


def _implied_variant(lits):
    return None


def _and(*ts):
    s = {}
    for t in _flat("and", ts):
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        s[t] = 1
    xs = sorted(s, key=lambda t: t.key)
    # unit propagation into ors
    changed = True
    while changed:
        changed = False
        for t in xs:
            n = not_(t)
            if n in s:
                return FALSE
        units = set(xs)
        new = []
        for t in xs:
            if t.op == "or":
                parts = []
                sat = False
                for p in t.a:
                    if p in units and p is not t:
                        sat = True
                        break
                    if not_(p) in units:
                        continue
                    if p.op == "and" and any(not_(q) in units for q in p.a):
                        continue
                    if p.op == "and":
                        p2 = and_raw([q for q in p.a if q not in units])
                        parts.append(p2)
                    else:
                        parts.append(p)
                if sat:
                    changed = True
                    continue
                t2 = or_(*parts)
                if t2 is not t:
                    changed = True
                    if t2 is FALSE:
                        return FALSE
                    if t2 is TRUE:
                        continue
                    new.extend(t2.a if t2.op == "and" else [t2])
                    continue
            new.append(t)
        # mutually exclusive variants / equalities with different constants
        seen = {}
        for t in new:
            if t.op == "isv":
                k = t.a[0]
                if k in seen and seen[k] != t.a[2]:
                    return FALSE
                seen[k] = t.a[2]
        if seen:
            n2 = []
            for t in new:
                if t.op == "not" and t.a[0].op == "isv" and t.a[0].a[0] in seen and seen[t.a[0].a[0]] != t.a[0].a[2]:
                    changed = True
                    continue
                n2.append(t)
            new = n2
        gs = [t for t in new if t.op == "ge0"]
        if len(gs) > 1:
            drop = _ge0_weaker(gs, True)
            if drop:
                changed = True
                new = [x for x in new if x not in drop]
                gs = [t for t in gs if t not in drop]
            ps = {t.a[0]: t for t in gs}
            for t in gs:
                n = neg(t.a[0])
                if n in ps and t in new and ps[n] in new:
                    new = [x for x in new if x is not t and x is not ps[n]] + [eq0(t.a[0])]
                    changed = True
        s = {}
        for t in new:
            s[t] = 1
        xs = sorted(s, key=lambda t: t.key)
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return mk("and", *xs)


def and_raw(ts):
    if not ts:
        return TRUE
    if len(ts) == 1:
        return ts[0]
    return mk("and", *sorted(set(ts), key=lambda t: t.key))


def _or(*ts):
    s = {}
    for t in _flat("or", ts):
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        s[t] = 1
    xs = sorted(s, key=lambda t: t.key)
    changed = True
    while changed:
        changed = False
        for t in xs:
            if not_lit(t) in s:
                return TRUE
        units = set(xs)
        new = []
        for t in xs:
            if t.op == "and":
                # absorption and complement elimination
                if any(q in units for q in t.a):
                    changed = True
                    continue
                parts = [q for q in t.a if not_lit(q) not in units]
                if len(parts) != len(t.a):
                    changed = True
                    t2 = and_raw(parts)
                    if t2 is TRUE:
                        return TRUE
                    new.append(t2)
                    continue
            new.append(t)
        s = {}
        for t in _flat("or", new):
            s[t] = 1
        xs = sorted(s, key=lambda t: t.key)
    gs = [t for t in xs if t.op == "ge0"]
    if len(gs) > 1:
        drop = _ge0_weaker(gs, False)
        if drop:
            return or_(*[x for x in xs if x not in drop])
        ps = {t.a[0]: t for t in gs}
        for t in gs:
            n = sub(neg(t.a[0]), I(2))
            if n in ps and ps[n] is not t:
                rest = [x for x in xs if x is not t and x is not ps[n]]
                return or_(not_(eq0(add(t.a[0], ONE))), *rest)
    # resolution of (c&x)|(~c&x) -> x
    for i, t in enumerate(xs):
        for u in xs[i + 1:]:
            ta = set(t.a) if t.op == "and" else {t}
            ua = set(u.a) if u.op == "and" else {u}
            d1, d2 = ta - ua, ua - ta
            if len(d1) == 1 and len(d2) == 1 and not_lit(next(iter(d1))) is next(iter(d2)):
                rest = [z for z in xs if z is not t and z is not u]
                return or_(and_raw(list(ta & ua)), *rest)
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return mk("or", *xs)


def not_lit(t):
    return not_(t)


def implies_under(c, t, val, depth=40):
    """simplify t assuming boolean c has value val"""
    if depth <= 0:
        return t
    lits = {}
    stack = [(c, val)]
    while stack:
        x, v = stack.pop()
        if v:
            lits[x] = TRUE
            n = not_(x)
            lits[n] = FALSE
            if x.op == "and":
                stack.extend((y, True) for y in x.a)
        else:
            lits[x] = FALSE
            n = not_(x)
            lits[n] = TRUE
            if x.op == "or":
                stack.extend((y, False) for y in x.a)
    return _restrict(t, lits, {})


def _restrict(t, lits, memo):
    r = lits.get(t)
    if r is not None:
        return r
    if t.op == "ite":
        if t in memo:
            return memo[t]
        c = _restrict(t.a[0], lits, memo)
        if c is TRUE:
            r = _restrict(t.a[1], lits, memo)
        elif c is FALSE:
            r = _restrict(t.a[2], lits, memo)
        else:
            x = _restrict(t.a[1], lits, memo)
            y = _restrict(t.a[2], lits, memo)
            r = t if (c is t.a[0] and x is t.a[1] and y is t.a[2]) else ite(c, x, y)
        memo[t] = r
        return r
    if t.op == "and":
        xs = [_restrict(x, lits, memo) for x in t.a]
        if all(x is y for x, y in zip(xs, t.a)):
            return t
        return and_(*xs)
    if t.op == "or":
        xs = [_restrict(x, lits, memo) for x in t.a]
        if all(x is y for x, y in zip(xs, t.a)):
            return t
        return or_(*xs)
    if t.op == "struct":
        fs = tuple((n, _restrict(x, lits, memo)) for n, x in t.a[1])
        if all(x[1] is y[1] for x, y in zip(fs, t.a[1])):
            return t
        return mk("struct", t.a[0], fs)
    if t.op == "tuple" and t.a:
        xs = tuple(_restrict(x, lits, memo) for x in t.a)
        if all(x is y for x, y in zip(xs, t.a)):
            return t
        return mk("tuple", *xs)
    if t.op == "vec" and t.a and len(t.a) <= 64:
        xs = tuple(_restrict(x, lits, memo) for x in t.a)
        if all(x is y for x, y in zip(xs, t.a)):
            return t
        return mk("vec", *xs)
    if t.op == "enum" and t.a[2]:
        xs = tuple(_restrict(x, lits, memo) for x in t.a[2])
        if all(x is y for x, y in zip(xs, t.a[2])):
            return t
        return mk("enum", t.a[0], t.a[1], xs)
    return t


def is_bool(t):
    return t.op in ("bool", "and", "or", "not", "ge0", "fgt0", "eq0", "eq", "forall", "exists", "isv", "memb", "wlb", "wx", "wpan")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    a = implies_under(c, a, True)
    b = implies_under(c, b, False)
    if a is b:
        return a
    if is_bool(a) or is_bool(b):
        if is_bool(a) and is_bool(b) or a.op == "bool" or b.op == "bool":
            return or_(and_(c, a), and_(not_(c), b))
    if a.op == "struct" and b.op == "struct" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        return mk("struct", a.a[0], tuple((n, ite(c, x, y)) for (n, x), (_, y) in zip(a.a[1], b.a[1])))
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        return mk("tuple", *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == "enum" and b.op == "enum" and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
        return mk("enum", a.a[0], a.a[1], tuple(ite(c, x, y) for x, y in zip(a.a[2], b.a[2])))
    if a.op == "vec" and b.op == "vec" and len(a.a) == len(b.a) and len(a.a) <= 64:
        return mk("vec", *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]:
        return mk("iter", a.a[0], ite(c, a.a[1], b.a[1]))
    if a.op == "lam" and b.op == "lam" and a.a[0] is b.a[0]:
        f = fresh(mk("range", ZERO, a.a[0]))
        return lam(a.a[0], f, ite(c, sel(a, f), sel(b, f)))
    # modular wrap-around: if c {x} else {x-n}
    w = _wrap(c, a, b)
    if w is not None:
        return w
    # a shared branch: one test
    if b.op == "ite":
        if b.a[1] is a:
            return ite(or_(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return ite(and_(not_(c), b.a[0]), b.a[1], a)
    if a.op == "ite":
        if a.a[1] is b:
            return ite(or_(not_(c), a.a[0]), b, a.a[2])
        if a.a[2] is b:
            return ite(and_(c, a.a[0]), a.a[1], b)
    if c.op == "eq0" and not is_bool(a) and a.op not in ("int", "str") and b.op not in ("int", "str"):
        u = _solve(c.a[0])
        if u is not None and subst(a, u) is subst(b, u):
            return b
    # orient: prefer canonical polarity (c vs not c)
    n = not_(c)
    if a.op == "int" and b.op == "int":
        if c.op == "ge0" and n.op == "ge0" and not _polar(c):
            return _mkite(n, b, a)
        return _mkite(c, a, b)
    if n.op != "not" and c.op in ("ge0", "or", "and", "exists", "forall") and n.key < c.key:
        return _mkite(n, b, a)
    return _mkite(c, a, b)


def _solve(p):
    """p == 0 solved for a variable: {u: value}"""
    d = poly(p)
    for m in sorted((m for m in d if len(m) == 1), key=lambda m: m[0].key):
        x = m[0]
        if abs(d[m]) == 1 and x.op in ("fv", "sym") and not any(x in q for q in d if q != m):
            v = scale(unpoly({q: k for q, k in d.items() if q != m}), -d[m])
            if not occurs(x, v):
                return {x: v}
    return None


def _polar(c):
    """binder independent choice between a comparison and its complement"""
    d = poly(c.a[0])
    free = [m for m in d if m and not any(x.fvs or x.bvmax for x in m)]
    if free:
        m = min(free, key=lambda mm: tuple(x.key for x in mm))
        return d[m] > 0
    rest = [m for m in d if m]
    m = min(rest, key=lambda mm: tuple(x.key for x in mm)) if rest else ()
    return d.get(m, 0) > 0


def _mkite(c, a, b):
    # |x| and clamp patterns are left alone
    return mk("ite", c, a, b)


def _wrap(c, a, b):
    if c.op not in ("ge0", "eq0"):
        return None
    if is_bool(a) or is_bool(b) or a.op in ("str", "enum", "vec", "lam", "arr", "struct", "tuple") or b.op in ("str", "enum", "vec", "lam", "arr", "struct", "tuple"):
        return None
    d = sub(a, b)
    if d.op in ("int", "sym", "len") or (d.op == "poly" and len(poly(d)) == 1):
        n = d
        for sgn in (1, -1):
            nn = n if sgn == 1 else neg(n)
            if nn.op == "int" and nn.a[0] <= 1:
                continue
            if nn.op not in ("int", "sym", "len"):
                continue
            # need: 0<=a<nn under c ; 0<=b<nn under not c
            ok = _in_range_under(c, True, a, nn) and _in_range_under(c, False, b, nn)
            if ok:
                return mk_mod(b if sgn == 1 else a, nn)
    return None


def _in_range_under(c, val, x, n):
    if c.op == "ge0":
        p = c.a[0] if val else sub(neg(c.a[0]), ONE)
        ASSUME.append(p)
        try:
            return prove_ge0(x) and prove_ge0(sub(sub(n, x), ONE))
        finally:
            ASSUME.pop()
    if c.op == "eq0":
        if val:
            ASSUME.append(c.a[0])
            ASSUME.append(neg(c.a[0]))
            try:
                return prove_ge0(x) and prove_ge0(sub(sub(n, x), ONE))
            finally:
                ASSUME.pop()
                ASSUME.pop()
        else:
            # x in [0, n) given p != 0: try with p<=-1 / p>=1 whichever is consistent
            for s in (1, -1):
                p = sub(scale(c.a[0], s), ONE)
                # other sign must be impossible
                if prove_ge0(sub(scale(c.a[0], s), ZERO)):
                    ASSUME.append(p)
                    try:
                        return prove_ge0(x) and prove_ge0(sub(sub(n, x), ONE))
                    finally:
                        ASSUME.pop()
    return False


# ---------------------------------------------------------------- binders
NUMARR = set()  # arrays of numbers
BINARR = set()  # arrays whose elements are +1 or -1


def is_bin(x):
    if x.op == "sel":
        b = x.a[0]
        if b in BINARR:
            return True
        if b.op == "sel" and b.a[0] in BINARR:
            return True
    return x in BINARR


BINDPOS = {"lam": 1, "sum": 1, "forall": 0, "exists": 0, "many": 0, "flat": 0, "smap": 0, "first": 0, "setmany": 0, "foldm": 0, "minby": 0}


def subst(t, m, memo=None):
    """replace terms (usually fv/bv/mu) according to m, rebuilding through smart constructors"""
    if memo is None:
        memo = {}
    fv = [k for k in m if k.op == "fv"]
    if len(fv) == len(m):
        fv = frozenset(fv)
        return _subst_fv(t, m, memo, fv)
    return _subst(t, m, memo)


def _subst_fv(t, m, memo, fv):
    """substitution of free variables only: subterms without them are kept"""
    if isinstance(t, tuple):
        return tuple(_subst_fv(x, m, memo, fv) for x in t)
    if not isinstance(t, T) or not t.fvs or fv.isdisjoint(t.fvs):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a:
        return t
    na = tuple(_subst_fv(x, m, memo, fv) for x in t.a)
    if all(x is y for x, y in zip(na, t.a)) or na == t.a:
        r = t
    else:
        r = rebuild(t.op, na)
    memo[t] = r
    return r


def _subst(t, m, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a:
        return t
    bp = BINDPOS.get(t.op)
    if bp is not None and t.a[bp] in m:
        # shadowed binder
        m2 = {k: v for k, v in m.items() if k is not t.a[bp]}
        if not m2:
            return t
        r = _subst(t, m2, {})
        memo[t] = r
        return r
    na = tuple(_subst(x, m, memo) for x in t.a)
    if all(x is y for x, y in zip(na, t.a)) or na == t.a:
        r = t
    else:
        r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "poly":
        acc = ZERO
        for mono, c in a[0]:
            p = I(c)
            for x in mono:
                p = mul(p, x)
            acc = add(acc, p)
        return acc
    f = REBUILD.get(op)
    if f is not None:
        return f(*a)
    return mk(op, *a)


def close(v, body):
    """replace fv v in body with a height-named bv; returns (bv, body)"""
    h = body.bvmax + 1
    b = mk("bv", h)
    nb = subst(body, {v: b})
    # rebuilding may change bvmax (usually not); make it canonical
    if nb.bvmax > h:
        h2 = max(nb.bvmax, h) + 1
        b2 = mk("bv", h2)
        return b2, subst(body, {v: b2})
    return b, nb


def openb(bv, dom, body):
    f = fresh(dom)
    return f, subst(body, {bv: f})


def lam(n, v, body):
    """vector of length n with element body[v] (v an fv)"""
    # eta
    if body.op == "sel" and body.a[1] is v and v not in body.a[0].fvs and seqlen(body.a[0]) is n:
        return body.a[0]
    if n.op == "int" and 0 <= n.a[0] <= 64 and not isinstance(n.a[0], Fraction):
        return mk("vec", *[subst(body, {v: I(k)}) for k in range(n.a[0])])
    b, nb = close(v, body)
    if nb.op == "sel" and nb.a[1] is b and seqlen(nb.a[0]) is n and b not in _bvs(nb.a[0]):
        return nb.a[0]
    return mk("lam", n, b, nb)


def _bvs(t):
    out = set()
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "bv":
            out.add(x)
        st.extend(x.a)
    return out


def occurs(x, t):
    st = [t]
    seen = set()
    while st:
        y = st.pop()
        if y is x:
            return True
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, T) or y in seen:
            continue
        seen.add(y)
        st.extend(y.a)
    return False


def find_ops(t, ops):
    out = []
    st = [t]
    seen = set()
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, T) or y in seen:
            continue
        seen.add(y)
        if y.op in ops:
            out.append(y)
        st.extend(y.a)
    return out


def is_seq(t):
    return t.op in ("arr", "lam", "vec", "cat", "many", "splice", "seqsym", "upd")


def seqlen(t):
    o = t.op
    if o == "arr":
        return t.a[1]
    if o == "lam":
        return t.a[0]
    if o == "vec":
        return I(len(t.a))
    if o == "cat":
        return add(*[seqlen(x) for x in t.a])
    if o == "upd":
        return seqlen(t.a[0])
    if o == "updmany":
        return seqlen(t.a[2])
    if o == "range":
        return rlen(t)
    if o == "ite":
        x, y = seqlen(t.a[1]), seqlen(t.a[2])
        if x is y:
            return x
        return ite(t.a[0], x, y)
    if o == "str":
        return I(len(t.a[0]))
    return mk("len", t)


def rlen(dom):
    n = sub(dom.a[1], dom.a[0])
    if prove_ge0(n):
        return n
    if n.op == "int":
        return I(max(0, n.a[0]))
    return mk("max0", n)


def sel(t, i):
    o = t.op
    if o == "range":
        return add(t.a[0], i)
    if o == "lam":
        return subst(t.a[2], {t.a[1]: i})
    if o == "vec":
        if i.op == "int":
            if 0 <= i.a[0] < len(t.a):
                return t.a[i.a[0]]
            return mk("oob", t, i)
        if i.op == "ite":
            return ite(i.a[0], sel(t, i.a[1]), sel(t, i.a[2]))
    if o == "ite":
        return ite(t.a[0], sel(t.a[1], i), sel(t.a[2], i))
    if o == "cat":
        off = ZERO
        for x in t.a:
            n = seqlen(x)
            j = sub(i, off)
            if prove_ge0(sub(sub(n, j), ONE)) and prove_ge0(j):
                return sel(x, j)
            if not prove_ge0(sub(j, n)):
                break
            off = add(off, n)
    if o == "upd":
        b, k, v = t.a
        if k is i:
            return v
        c = eq(k, i, True)
        if c is TRUE:
            return v
        if c is FALSE:
            return sel(b, i)
        return ite(c, v, sel(b, i))
    return mk("sel", t, i)


def upd(t, i, v):
    if t.op == "vec" and i.op == "int" and 0 <= i.a[0] < len(t.a):
        xs = list(t.a)
        xs[i.a[0]] = v
        return mk("vec", *xs)
    if t.op == "vec" and len(t.a) <= 8 and i.op != "int":
        return mk("vec", *[ite(eq(i, I(k), True), v, x) for k, x in enumerate(t.a)])
    if t.op == "upd" and t.a[1] is i:
        return upd(t.a[0], i, v)
    if v.op == "sel" and v.a[0] is t and v.a[1] is i:
        return t
    return mk("upd", t, i, v)


def cat(*ts):
    out = []
    for t in ts:
        if t.op == "cat":
            out.extend(t.a)
        elif t.op == "vec" and not t.a:
            continue
        else:
            out.append(t)
    res = []
    for t in out:
        if res and res[-1].op == "vec" and t.op == "vec":
            res[-1] = mk("vec", *(res[-1].a + t.a))
        else:
            res.append(t)
    if not res:
        return mk("vec")
    if len(res) == 1:
        return res[0]
    return mk("cat", *res)


# strings: parts
def scat(*ts):
    out = []
    for t in ts:
        if t.op == "scat":
            out.extend(t.a)
        elif t.op == "str" and t.a[0] == "":
            continue
        else:
            out.append(t)
    res = []
    for t in out:
        if res and res[-1].op == "str" and t.op == "str":
            res[-1] = S(res[-1].a[0] + t.a[0])
        elif t.op == "srest" and res and res[-1] is mk("sbut", *t.a):
            res.pop()
            u = t.a[0]
            us = u.a if u.op == "scat" else (u,)
            for y in us:
                if res and res[-1].op == "str" and y.op == "str":
                    res[-1] = S(res[-1].a[0] + y.a[0])
                else:
                    res.append(y)
        else:
            res.append(t)
    if not res:
        return S("")
    if len(res) == 1:
        return res[0]
    return mk("scat", *res)


def disp(t):
    """Display rendering of a value"""
    if t.op == "int":
        return S(str(t.a[0]))
    if t.op in ("str", "scat", "disp", "smap"):
        return t
    if t.op == "char":
        return S(t.a[0])
    if t.op == "ite":
        return ite(t.a[0], disp(t.a[1]), disp(t.a[2]))
    return mk("disp", t)


def smap(dom_v, dom, guard, body):
    """concatenation of strings body(v) for v in dom (in order) with guard"""
    if body.op == "str" and body.a[0] == "":
        return S("")
    if guard is FALSE:
        return S("")
    if dom.op == "range" and is_int(dom.a[0]) and is_int(dom.a[1]) and dom.a[1].a[0] - dom.a[0].a[0] <= 64:
        return scat(*[ite(subst(guard, {dom_v: I(k)}), subst(body, {dom_v: I(k)}), S("")) for k in range(dom.a[0].a[0], dom.a[1].a[0])])
    return mkb("smap", dom_v, dom, (guard, body))


def mkb(op, v, dom, bodies):
    """generic binder node: op(bv, dom, *bodies)"""
    tup = mk("pack", *bodies)
    b, nb = close(v, tup)
    return mk(op, b, dom, *nb.a)


def many(v, dom, guard, elem):
    """list comprehension [elem | v <- dom, guard]"""
    if guard is FALSE:
        return mk("vec")
    if guard is TRUE and dom.op == "range":
        lo, hi = dom.a
        n = rlen(dom)
        f = fresh(mk("range", ZERO, n))
        return lam(n, f, subst(elem, {v: add(f, lo)}))
    if dom.op == "range" and is_int(dom.a[0]) and is_int(dom.a[1]) and dom.a[1].a[0] - dom.a[0].a[0] <= 64:
        return cat(*[ite_list(subst(guard, {v: I(k)}), subst(elem, {v: I(k)})) for k in range(dom.a[0].a[0], dom.a[1].a[0])])
    return mkb("many", v, dom, (guard, elem))


def flatmany(v, dom, guard, lst):
    """concatenation of lists lst(v)"""
    if lst.op == "vec" and len(lst.a) == 1:
        return many(v, dom, guard, lst.a[0])
    if lst.op == "vec" and not lst.a:
        return mk("vec")
    if lst.op == "ite" and lst.a[2].op == "vec" and not lst.a[2].a:
        return flatmany(v, dom, and_(guard, lst.a[0]), lst.a[1])
    if lst.op == "ite" and lst.a[1].op == "vec" and not lst.a[1].a:
        return flatmany(v, dom, and_(guard, not_(lst.a[0])), lst.a[2])
    if dom.op == "range" and is_int(dom.a[0]) and is_int(dom.a[1]) and dom.a[1].a[0] - dom.a[0].a[0] <= 64:
        return cat(*[ite(subst(guard, {v: I(k)}), subst(lst, {v: I(k)}), mk("vec")) for k in range(dom.a[0].a[0], dom.a[1].a[0])])
    return mkb("flat", v, dom, (guard, lst))


def ite_list(g, e):
    if g is TRUE:
        return mk("vec", e)
    if g is FALSE:
        return mk("vec")
    return ite(g, mk("vec", e), mk("vec"))


# quantifiers
def mkq(q, bv, dom, body):
    """body uses bv already closed: reopen & go through constructors"""
    f, b = openb(bv, dom, body)
    return (forall if q == "forall" else exists)(f, dom, b)


def _dom_split(dom):
    """constant small domain -> list"""
    if dom.op == "range" and is_int(dom.a[0]) and is_int(dom.a[1]):
        lo, hi = dom.a[0].a[0], dom.a[1].a[0]
        if hi - lo <= 64:
            return [I(k) for k in range(lo, hi)]
    return None


def _stale(v, body):
    """comparisons on v itself that may have been built before its range was known"""
    for x in (body.a if body.op in ("and", "or") else (body,)):
        if x.op == "ge0" and any(v in m for m, c in poly(x.a[0]).items()):
            return True
    return False


def forall(v, dom, body):
    if dom.op == "range" and v in body.fvs and (FVDOM.get(v) is not dom or _stale(v, body)):
        w = fresh(dom)
        body = subst(body, {v: w})
        v = w
    if body is TRUE:
        return TRUE
    ks = _dom_split(dom)
    if ks is not None:
        return and_(*[subst(body, {v: k}) for k in ks])
    if body.op == "and":
        return and_(*[forall(v, dom, x) for x in body.a])
    if v not in body.fvs:
        ne = nonempty(dom)
        return or_(not_(ne), body)
    if body.op == "or":
        out = [x for x in body.a if v not in x.fvs]
        if out:
            inn = [x for x in body.a if v in x.fvs]
            return or_(forall(v, dom, or_(*inn)), *out)
    dom = _mirror(v, dom, body)
    b, nb = close(v, body)
    if not occurs(b, nb):
        return or_(not_(nonempty(dom)), nb)
    return mk("forall", b, dom, nb)


def _mirror(v, dom, body):
    """forall t in [1,h) P(t) with P(n-t) = P(t) and n/2 < h <= n ranges over [1,n)"""
    if dom.op != "range" or dom.a[0] is not ONE:
        return dom
    h = dom.a[1]
    ns = []
    for x in find_ops(body, ("mod", "arr", "lam")):
        m = x.a[1] if x.op in ("mod", "arr") else x.a[0]
        if m.op == "sym" and m not in ns:
            ns.append(m)
    for n in ns:
        if h is n or not (occurs(n, h) and prove_ge0(sub(n, h)) and prove_ge0(sub(scale(h, 2), n))):
            continue
        w = fresh(mk("range", ONE, n))
        if not prove_ge0(sub(sub(scale(h, 2), n), ONE)) and subst(body, {v: w, n: scale(w, 2)}) is not TRUE:
            continue
        if subst(body, {v: sub(n, w)}) is subst(body, {v: w}):
            return mk("range", ONE, n)
    return dom


def exists(v, dom, body):
    if dom.op == "range" and v in body.fvs and (FVDOM.get(v) is not dom or _stale(v, body)):
        w = fresh(dom)
        body = subst(body, {v: w})
        v = w
    if body is FALSE:
        return FALSE
    ks = _dom_split(dom)
    if ks is not None:
        return or_(*[subst(body, {v: k}) for k in ks])
    if body.op == "or":
        return or_(*[exists(v, dom, x) for x in body.a])
    if v not in body.fvs:
        return and_(nonempty(dom), body)
    if body.op == "and":
        out = [x for x in body.a if v not in x.fvs]
        if out:
            inn = [x for x in body.a if v in x.fvs]
            return and_(exists(v, dom, and_(*inn)), *out)
    b, nb = close(v, body)
    if not occurs(b, nb):
        return and_(nonempty(dom), nb)
    return mk("exists", b, dom, nb)


def nonempty(dom):
    if dom.op == "range":
        return ge0(sub(sub(dom.a[1], dom.a[0]), ONE))
    return mk("nonempty", dom)


# sums
def msum(ty, v, dom, body):
    """sum over dom of body, accumulated in machine type ty"""
    ks = _dom_split(dom)
    if ks is not None:
        return add(*[subst(body, {v: k}) for k in ks])
    if body.op == "ite":
        # split on guard: sum ite(c,x,y) keep as is
        pass
    d = poly(body)
    acc = ZERO
    for m, c in d.items():
        inn = tuple(x for x in m if v in x.fvs)
        out = tuple(x for x in m if v not in x.fvs)
        if not inn:
            if dom.op == "range":
                n = rlen(dom)
                acc = add(acc, mul(mul(n, unpoly({out: 1}) if out else ONE), I(c)))
            else:
                acc = add(acc, mul(mk("count", dom), unpoly({out: c})))
            continue
        core = unpoly({inn: 1})
        s = _sumcore(ty, v, dom, core)
        acc = add(acc, mul(s, unpoly({out: c})))
    return acc


def _cyc_atoms(core, v, n):
    """all occurrences sel(x, idx) with idx affine in v mod n -> list of (seq, idx, offset-poly) or None"""
    d = poly(core)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    res = []
    for x in m:
        y = x
        if y.op in ("conj",):
            y = y.a[0]
        if y.op != "sel" or v in y.a[0].fvs:
            return None
        idx = y.a[1]
        p = idx.a[0] if (idx.op == "mod" and idx.a[1] is n) else idx
        dd = poly(p)
        cv = dd.get((v,), 0)
        if cv not in (1, -1) or any(v in mm and mm != (v,) for mm in dd) or any(occurs_in_mono(v, mm) for mm in dd if mm != (v,)):
            return None
        if idx.op != "mod" and p is not v and not (prove_ge0(p) and prove_ge0(sub(sub(n, p), ONE))):
            return None
        res.append((x, cv, sub(p, scale(v, cv))))
    return res


def occurs_in_mono(v, mm):
    return any(v in x.fvs for x in mm)


def _sumcore(ty, v, dom, core):
    b, nb = close(v, core)
    best = mk("sum", ty, b, dom, nb)
    if dom.op == "range" and dom.a[0] is ZERO:
        n = dom.a[1]
        at = _cyc_atoms(core, v, n)
        if at and n.op != "int":
            cands = []
            for refl in (1, -1):
                for (x, cv, off) in at:
                    # re-index so that this factor's index becomes v:  cv*v + off = w  => v = cv*(w - off)
                    w = fresh(dom)
                    nc = ONE
                    for (x2, cv2, off2) in at:
                        p = add(scale(sub(scale(w, 1), off), cv * cv2), off2)
                        idx = mk_mod(p, n)
                        base = x2.a[0] if x2.op == "conj" else x2
                        s2 = mk("sel", base.a[0], idx) if base.a[0].op != "lam" else sel(base.a[0], idx)
                        nc = mul(nc, rebuild("conj", (s2,)) if x2.op == "conj" else s2)
                    b2, nb2 = close(w, nc)
                    cands.append(mk("sum", ty, b2, dom, nb2))
            best = min(cands, key=lambda t: t.key)
    return best


REBUILD = {}


def _r(name):
    def deco(f):
        REBUILD[name] = f
        return f
    return deco


REBUILD["mod"] = mk_mod
REBUILD["div"] = mk_div
REBUILD["ge0"] = ge0
REBUILD["fgt0"] = lambda p: B(p.a[0] > 0) if p.op == "int" else mk("fgt0", p)
REBUILD["eq0"] = eq0
REBUILD["eq"] = lambda x, y: eq(x, y)
REBUILD["and"] = and_
REBUILD["or"] = or_
REBUILD["not"] = not_
REBUILD["ite"] = ite
REBUILD["sel"] = sel
REBUILD["len"] = lambda x: seqlen(x)
REBUILD["upd"] = upd
REBUILD["cat"] = cat
REBUILD["scat"] = scat
REBUILD["disp"] = disp


def payload(t, adt, variant, i):
    if t.op == "enum":
        if t.a[1] == variant:
            return t.a[2][i]
        return mk("never")
    if t.op == "ite":
        x, y = payload(t.a[1], adt, variant, i), payload(t.a[2], adt, variant, i)
        if x.op == "never":
            return y
        if y.op == "never":
            return x
        return ite(t.a[0], x, y)
    return mk("pay", t, adt, variant, i)


def isv(t, adt, variant):
    if t.op == "enum":
        return B(t.a[1] == variant)
    if t.op == "ite":
        return ite(t.a[0], isv(t.a[1], adt, variant), isv(t.a[2], adt, variant))
    return mk("isv", t, adt, variant)


REBUILD["pay"] = payload
REBUILD["isv"] = isv


def field(t, name):
    if t.op == "struct":
        for n, x in t.a[1]:
            if n == name:
                return x
    if t.op == "tuple" and isinstance(name, int) and name < len(t.a):
        return t.a[name]
    if t.op == "ite":
        return ite(t.a[0], field(t.a[1], name), field(t.a[2], name))
    return mk("fld", t, name)


REBUILD["fld"] = field


def setfield(t, name, v):
    if t.op == "struct":
        return mk("struct", t.a[0], tuple((n, v if n == name else x) for n, x in t.a[1]))
    if t.op == "tuple" and isinstance(name, int):
        xs = list(t.a)
        xs[name] = v
        return mk("tuple", *xs)
    if t.op == "ite":
        return ite(t.a[0], setfield(t.a[1], name, v), setfield(t.a[2], name, v))
    return mk("setf", t, name, v)


def _rebind(op):
    def f(b, dom, *bodies):
        # bodies refer to bv b
        pk = mk("pack", *bodies)
        fv, body = openb(b, dom, pk)
        if op == "many":
            return many(fv, dom, *body.a)
        if op == "flat":
            return flatmany(fv, dom, *body.a)
        if op == "smap":
            return smap(fv, dom, *body.a)
        return mkb(op, fv, dom, body.a)
    return f


for _op in ("many", "flat", "smap", "first", "setmany", "foldm"):
    REBUILD[_op] = _rebind(_op)


def _rb_forall(b, dom, body):
    return mkq("forall", b, dom, body)


def _rb_exists(b, dom, body):
    return mkq("exists", b, dom, body)


REBUILD["forall"] = _rb_forall
REBUILD["exists"] = _rb_exists


def _rb_lam(n, b, body):
    f, x = openb(b, mk("range", ZERO, n), body)
    return lam(n, f, x)


REBUILD["lam"] = _rb_lam


def _rb_sum(ty, b, dom, body):
    f, x = openb(b, dom, body)
    return msum(ty, f, dom, x)


REBUILD["sum"] = _rb_sum


def _conj(x):
    if x.op == "conj":
        return x.a[0]
    return mk("conj", x)


REBUILD["conj"] = _conj


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, depth - 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, depth - 1)
    if o == "int":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "str":
        return repr(a[0])
    if o == "float":
        return str(a[0])
    if o in ("sym",):
        return str(a[0])
    if o == "arr":
        return str(a[0])
    if o == "bv":
        return "v%d" % a[0]
    if o == "fv":
        return "%s_%d" % (a[1], a[0])
    if o == "mu":
        return "μ%s" % a[0]
    if o == "poly":
        out = []
        for m, c in a[0]:
            ms = "*".join(s(x) for x in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%s*%s" % (c, ms))
        return "(" + " + ".join(out) + ")"
    if o == "sel":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "mod":
        return "(%s mod %s)" % (s(a[0]), s(a[1]))
    if o == "div":
        return "(%s div %s)" % (s(a[0]), s(a[1]))
    if o == "ge0":
        return "%s>=0" % s(a[0])
    if o == "eq0":
        return "%s==0" % s(a[0])
    if o == "eq":
        return "%s==%s" % (s(a[0]), s(a[1]))
    if o == "not":
        return "!%s" % s(a[0])
    if o == "and":
        return "(" + " & ".join(s(x) for x in a) + ")"
    if o == "or":
        return "(" + " | ".join(s(x) for x in a) + ")"
    if o in ("forall", "exists"):
        return "%s %s∈%s. %s" % ("∀" if o == "forall" else "∃", s(a[0]), s(a[1]), s(a[2]))
    if o == "sum":
        return "Σ<%s> %s∈%s. %s" % (a[0], s(a[1]), s(a[2]), s(a[3]))
    if o == "range":
        return "[%s,%s)" % (s(a[0]), s(a[1]))
    if o == "lam":
        return "⟨%s | %s<%s⟩" % (s(a[2]), s(a[1]), s(a[0]))
    if o == "vec":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "enum":
        return a[1] + ("(" + ",".join(s(x) for x in a[2]) + ")" if a[2] else "")
    if o == "struct":
        return a[0].split("::")[-1] + "{" + ", ".join("%s:%s" % (n, s(x)) for n, x in a[1]) + "}"
    if o == "ite":
        return "if(%s){%s}else{%s}" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "isv":
        return "%s is %s" % (s(a[0]), a[2])
    return o + "(" + ", ".join(s(x) for x in a) + ")"


# ---------------------------------------------------------------- case analysis
BINDERS = ("forall", "exists", "sum", "many", "flat", "loopt", "lamdep", "fold", "argmin")


def find_ite(ts):
    """condition of some conditional in ts that does not depend on a bound variable"""
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "ite" and not any(f in _OPENED for f in x.a[0].fvs):
            return x.a[0]
        if x.op == "lam":
            f = fresh(mk("range", ZERO, x.a[0]))
            _OPENED.add(f)
            st.append(sel(x, f))
            continue
        if x.op in BINDERS:
            continue
        st.extend(x.a)
    return None


_OPENED = set()


def split_atom(ts):
    c = find_ite(ts)
    if c is None:
        return None
    while True:
        if c.op in ("and", "or"):
            c = c.a[0]
            continue
        if c.op == "not":
            c = c.a[0]
            continue
        i = find_ite([c])
        if i is None:
            return c
        c = i


def cases(ts, limit=20000):
    """joint case analysis: [([(atom, truth)], terms without conditionals)] over the conditions the terms branch on"""
    out = []
    st = [((), tuple(ts))]
    k = 0
    while st:
        k += 1
        if k > limit:
            raise OverflowError("too many cases")
        cs, xs = st.pop()
        a = split_atom(xs)
        if a is None:
            out.append((cs, xs))
            continue
        n = not_(a)
        for val in (True, False):
            m = {a: B(val)}
            if n is not a:
                m[n] = B(not val)
            memo = {}
            ys = tuple(subst(x, m, memo) for x in xs)
            if ys == xs:
                raise OverflowError("case analysis does not progress on %s" % show(a)[:200])
            st.append((cs + ((a, val),), ys))
    return out
