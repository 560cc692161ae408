"""Valuations of closed-form terms in small finite models.

Used only to separate two *formulas* whose normal forms differ (a valuation in
which they disagree is the witness attached to a report; if none is found the
obligation is left undecided and no alarm is raised).
"""
from fractions import Fraction
import math
import re
import zlib
from .terms import T, BINDPOS, TRUE, FALSE
from . import terms as TM

CONSTV = {"core::f32::<impl f32>::EPSILON": 2.0 ** -23, "core::f64::<impl f64>::EPSILON": 2.0 ** -52, "core::f32::consts::PI": math.pi, "core::f64::consts::PI": math.pi}
WIDTH = {"i8": (8, 1), "u8": (8, 0), "i16": (16, 1), "u16": (16, 0), "i32": (32, 1), "u32": (32, 0), "i64": (64, 1), "u64": (64, 0), "isize": (64, 1), "usize": (64, 0)}


class Bottom(Exception):
    """undefined value (out of range access, failed pattern)"""


class NoEval(Exception):
    """term without a valuation (uninterpreted)"""


class Enum(tuple):
    __slots__ = ()


def wrapto(ty, v):
    w = WIDTH.get(ty)
    if w is None or not isinstance(v, int):
        return v
    m = 1 << w[0]
    if w[1]:
        return (v + (m >> 1)) % m - (m >> 1)
    return v % m


LIGHT = frozenset(("int", "bool", "str", "char", "sym", "arr", "bv", "fv", "const"))
_FREE = {}
_NONE = frozenset()


def freebv(t):
    """bound-variable names (and free variables) a term depends on"""
    r = _FREE.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _FREE:
            st.pop()
            continue
        if x.bvmax == 0 and not x.fvs:
            _FREE[x] = _NONE
            st.pop()
            continue
        if x.op in ("bv", "fv"):
            _FREE[x] = frozenset((x,))
            st.pop()
            continue
        ch = []
        for y in x.a:
            if isinstance(y, T):
                ch.append(y)
            elif isinstance(y, tuple):
                _kids(y, ch)
        todo = [y for y in ch if y not in _FREE]
        if todo:
            st.extend(todo)
            continue
        fs = _NONE.union(*[_FREE[y] for y in ch]) if ch else _NONE
        bp = BINDPOS.get(x.op)
        if bp is not None:
            fs = fs - {x.a[bp]}
        elif x.op == "foldt":
            fs = fs - {x.a[0], x.a[3].a[0]}
        elif x.op == "loopt":
            fs = (fs - {x.a[0]}) - set(x.a[3].a)
        _FREE[x] = fs
        st.pop()
    return _FREE[t]


def _kids(y, out):
    for z in y:
        if isinstance(z, T):
            out.append(z)
        elif isinstance(z, tuple):
            _kids(z, out)


class Model:
    def __init__(self, syms, apps=None):
        self.syms = syms      # name -> value (ints, lists)
        self.apps = apps or {}
        self.memo = {}
        self.alive = {}
        self.fuel = 4_000_000

    def ev(self, t, env=None):
        return self._e(t, env or {})

    def _e(self, t, env):
        op = t.op
        if op in LIGHT:
            key = None
        elif t.bvmax == 0 and not t.fvs:
            key = t
        else:
            fb = freebv(t)
            if not fb:
                key = t
            else:
                k = [t]
                for b in fb:
                    v = env.get(b)
                    if v is not None and not isinstance(v, (int, bool, str)):
                        self.alive[id(v)] = v
                        v = ("id", id(v))
                    k.append(v)
                key = tuple(k)
        if key is not None:
            r = self.memo.get(key, self)
            if r is not self:
                if isinstance(r, Exception):
                    raise r
                return r
        self.fuel -= 1
        if self.fuel < 0:
            raise NoEval("fuel")
        f = getattr(self, "v_" + op, None)
        if f is None:
            raise NoEval(op)
        try:
            r = f(t, env)
        except (Bottom, NoEval) as ex:
            if key is not None:
                self.memo[key] = ex
            raise
        except (IndexError, ZeroDivisionError, KeyError) as ex:
            raise Bottom(str(ex))
        except (TypeError, ValueError, AttributeError) as ex:
            raise NoEval("%s: %s" % (op, ex))
        if key is not None:
            self.memo[key] = r
        return r

    # atoms
    def v_int(self, t, e):
        return t.a[0]

    v_bool = v_int
    v_str = v_int
    v_char = v_int

    def v_sym(self, t, e):
        if t.a[0] in self.syms:
            return self.syms[t.a[0]]
        raise NoEval("symbol " + str(t.a[0]))

    v_arr = v_sym

    def v_const(self, t, e):
        if t.a[0] in CONSTV:
            return CONSTV[t.a[0]]
        m = re.fullmatch(r"(?:core|std)::(?:legacy_int_modules|num)::.*?([iu])(8|16|32|64|128|size)\W*::(MIN|MAX)", str(t.a[0]))
        if m:
            b = 64 if m.group(2) == "size" else int(m.group(2))
            lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if m.group(1) == "i" else (0, (1 << b) - 1)
            return lo if m.group(3) == "MIN" else hi
        raise NoEval("constant " + str(t.a[0]))

    def v_bv(self, t, e):
        if t not in e:
            raise NoEval("unbound binder")
        return e[t]

    v_fv = v_bv

    def v_app(self, t, e):
        f = self.apps.get(t.a[0])
        if f is None:
            raise NoEval("app " + str(t.a[0]))
        return f(*[self._e(x, e) for x in t.a[1:]])

    def v_never(self, t, e):
        raise Bottom("never")

    def v_oob(self, t, e):
        raise Bottom("index")

    # arithmetic
    def v_poly(self, t, e):
        acc = 0
        fl = None
        for m, c in t.a[0]:
            for x in m:
                c = c * self._e(x, e)
            if fl is not None:
                fl.append(c)
            elif type(c) is float:
                fl = [acc, c]
            else:
                acc += c
        if fl is not None:          # independent of the order of the summands
            return math.fsum(fl)
        if isinstance(acc, Fraction) and acc.denominator == 1:
            acc = int(acc)
        return acc

    def v_mod(self, t, e):
        a, b = self._e(t.a[0], e), self._e(t.a[1], e)
        if b == 0:
            raise Bottom("mod 0")
        return a % b

    def v_rem(self, t, e):
        a, b = self._e(t.a[0], e), self._e(t.a[1], e)
        if b == 0:
            raise Bottom("rem 0")
        r = abs(a) % abs(b)
        return r if a >= 0 else -r

    def v_div(self, t, e):
        a, b = self._e(t.a[0], e), self._e(t.a[1], e)
        return a // b

    def v_tdiv(self, t, e):
        a, b = self._e(t.a[0], e), self._e(t.a[1], e)
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q

    def v_fdiv(self, t, e):
        a, b = self._e(t.a[0], e), self._e(t.a[1], e)
        if isinstance(a, float) or isinstance(b, float):
            return a / b
        return Fraction(a) / Fraction(b)

    def v_abs(self, t, e):
        return abs(self._e(t.a[0], e))

    def v_max0(self, t, e):
        return max(0, self._e(t.a[0], e))

    def v_pow(self, t, e):
        return self._e(t.a[0], e) ** self._e(t.a[1], e)

    def v_sqrt(self, t, e):
        x = self._e(t.a[0], e)
        if x < 0:
            raise Bottom("sqrt")
        if isinstance(x, int):
            r = math.isqrt(x)
            if r * r == x:
                return r
        return math.sqrt(x)

    def v_isqrt(self, t, e):
        return math.isqrt(self._e(t.a[0], e))

    def v_floor(self, t, e):
        return math.floor(self._e(t.a[0], e))

    def v_ceil(self, t, e):
        return math.ceil(self._e(t.a[0], e))

    def v_round(self, t, e):
        x = self._e(t.a[0], e)
        return math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)

    def v_fract(self, t, e):
        x = self._e(t.a[0], e)
        return x - math.trunc(x)

    def v_trunc(self, t, e):
        return math.trunc(self._e(t.a[1], e))

    def v_wrap(self, t, e):
        return wrapto(t.a[0], self._e(t.a[1], e))

    v_cast = v_wrap

    def v_castc(self, t, e):
        x = self._e(t.a[2], e)
        return chr(x) if t.a[1] == "char" else ord(x)

    def v_bitBitXor(self, t, e):
        return self._e(t.a[0], e) ^ self._e(t.a[1], e)

    def v_bitBitAnd(self, t, e):
        return self._e(t.a[0], e) & self._e(t.a[1], e)

    def v_bitBitOr(self, t, e):
        return self._e(t.a[0], e) | self._e(t.a[1], e)

    def v_bitShl(self, t, e):
        return self._e(t.a[0], e) << self._e(t.a[1], e)

    def v_bitShr(self, t, e):
        return self._e(t.a[0], e) >> self._e(t.a[1], e)

    # booleans
    def v_ge0(self, t, e):
        return self._e(t.a[0], e) >= 0

    def v_fgt0(self, t, e):
        return self._e(t.a[0], e) > 0

    def v_eq0(self, t, e):
        return self._e(t.a[0], e) == 0

    def v_eq(self, t, e):
        return self._e(t.a[0], e) == self._e(t.a[1], e)

    def v_lexlt(self, t, e):
        return self._e(t.a[0], e) < self._e(t.a[1], e)

    def v_not(self, t, e):
        return not self._e(t.a[0], e)

    def v_and(self, t, e):
        bot = None
        for x in t.a:
            try:
                if not self._e(x, e):
                    return False
            except Bottom as ex:
                bot = ex
        if bot:
            raise bot
        return True

    def v_or(self, t, e):
        bot = None
        for x in t.a:
            try:
                if self._e(x, e):
                    return True
            except Bottom as ex:
                bot = ex
        if bot:
            raise bot
        return False

    def v_ite(self, t, e):
        return self._e(t.a[1] if self._e(t.a[0], e) else t.a[2], e)

    # domains
    def dom(self, d, e):
        if d.op == "range":
            return range(self._e(d.a[0], e), self._e(d.a[1], e))
        return list(self._e(d, e))

    def v_range(self, t, e):
        return list(range(self._e(t.a[0], e), self._e(t.a[1], e)))

    def v_nonempty(self, t, e):
        return len(self.dom(t.a[0], e)) > 0

    def v_count(self, t, e):
        return len(self.dom(t.a[0], e))

    def v_forall(self, t, e):
        b, d, body = t.a
        bot = None
        e = dict(e)
        for x in self.dom(d, e):
            e[b] = x
            try:
                if not self._e(body, e):
                    return False
            except Bottom as ex:
                bot = ex
        if bot:
            raise bot
        return True

    def v_exists(self, t, e):
        b, d, body = t.a
        bot = None
        e = dict(e)
        for x in self.dom(d, e):
            e[b] = x
            try:
                if self._e(body, e):
                    return True
            except Bottom as ex:
                bot = ex
        if bot:
            raise bot
        return False

    def v_sum(self, t, e):
        ty, b, d, body = t.a
        acc = 0
        e = dict(e)
        for x in self.dom(d, e):
            e[b] = x
            acc += self._e(body, e)
            if ty in ("i8", "u8", "i16", "u16"):
                acc = wrapto(ty, acc)
        if isinstance(acc, Fraction) and acc.denominator == 1:
            acc = int(acc)
        return acc

    def v_pick(self, t, e):
        b, d, c, val = t.a
        e = dict(e)
        for x in self.dom(d, e):
            e[b] = x
            if self._e(c, e):
                return self._e(val, e)
        raise Bottom("pick")

    # sequences
    def v_vec(self, t, e):
        return [self._e(x, e) for x in t.a]

    def v_lam(self, t, e):
        n, b, body = t.a
        e = dict(e)
        out = []
        for x in range(self._e(n, e)):
            e[b] = x
            out.append(self._e(body, e))
        return out

    def v_len(self, t, e):
        return len(self._e(t.a[0], e))

    def v_sel(self, t, e):
        b = t.a[0]
        i = self._e(t.a[1], e)
        if not isinstance(i, int):
            raise NoEval("index")
        if i < 0:
            raise Bottom("negative index")
        if b.op == "lam":
            n = self._e(b.a[0], e)
            if i >= n:
                raise Bottom("index")
            e2 = dict(e)
            e2[b.a[1]] = i
            return self._e(b.a[2], e2)
        s = self._e(b, e)
        if i >= len(s):
            raise Bottom("index")
        return s[i]

    def v_upd(self, t, e):
        s = list(self._e(t.a[0], e))
        i = self._e(t.a[1], e)
        if not 0 <= i < len(s):
            raise Bottom("index")
        s[i] = self._e(t.a[2], e)
        return s

    def v_cat(self, t, e):
        out = []
        for x in t.a:
            out.extend(self._e(x, e))
        return out

    def v_many(self, t, e):
        b, d, g, x = t.a
        e = dict(e)
        out = []
        for v in self.dom(d, e):
            e[b] = v
            if self._e(g, e):
                out.append(self._e(x, e))
        return out

    def v_flat(self, t, e):
        b, d, g, x = t.a
        e = dict(e)
        out = []
        for v in self.dom(d, e):
            e[b] = v
            if self._e(g, e):
                out.extend(self._e(x, e))
        return out

    def v_smap(self, t, e):
        b, d, g, x = t.a
        e = dict(e)
        out = []
        for v in self.dom(d, e):
            e[b] = v
            if self._e(g, e):
                out.append(str(self._e(x, e)))
        return "".join(out)

    def v_scat(self, t, e):
        return "".join(str(self._e(x, e)) for x in t.a)

    def v_disp(self, t, e):
        v = self._e(t.a[0], e)
        if isinstance(v, (str, int)) and not isinstance(v, bool):
            return str(v)
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, tuple) and v and v[0] == "S" and len(v) == 3 and {x[0] for x in v[1:]} == {"re", "im"}:
            d = dict(v[1:])
            if all(x == int(x) for x in d.values()):      # floats that are integers print like integers
                return "%d%s%di" % (d["re"], "-" if d["im"] < 0 else "+", abs(d["im"]))
        raise NoEval("display")

    def v_dbg(self, t, e):
        v = self._e(t.a[0], e)
        return repr(v)

    def v_fmtspec(self, t, e):
        return "%s%s" % (t.a[0], self._e(t.a[1], e))

    def v_cmpLt(self, t, e):
        a, b = self._e(t.a[0], e), self._e(t.a[1], e)
        if not ordered(a) or not ordered(b):
            raise NoEval("order")
        return a < b

    def v_cmpLe(self, t, e):
        a, b = self._e(t.a[0], e), self._e(t.a[1], e)
        if not ordered(a) or not ordered(b):
            raise NoEval("order")
        return a <= b

    def v_strf(self, t, e):
        f = STRF.get(t.a[0])
        xs = [self._e(x, e) for x in t.a[1:]]
        if f is None or not all(isinstance(x, (str, int)) for x in xs):
            raise NoEval("string function")
        return f(*xs)

    def v_chars(self, t, e):
        return list(self._e(t.a[0], e))

    def v_substr(self, t, e):
        return self._e(t.a[0], e)[self._e(t.a[1], e):self._e(t.a[2], e)]

    def v_iter(self, t, e):
        return self._e(t.a[0], e)[self._e(t.a[1], e):]

    def v_updmany(self, t, e):
        b, d, init, body = t.a
        bm, items = body.a
        s = list(self._e(init, e))
        e = dict(e)
        for v in self.dom(d, e):
            e[b] = v
            e[bm] = s
            ups = []
            many = None
            for it in items.a:
                if it.op == "u1":
                    if self._e(it.a[0], e):
                        i = self._e(it.a[1], e)
                        if not 0 <= i < len(s):
                            raise Bottom("index")
                        ups.append((i, self._e(it.a[2], e)))
                else:
                    many = self._e(it.a[0], e)
            if many is not None:
                s = list(many)
            else:
                s = list(s)
                for i, x in ups:
                    s[i] = x
        return s

    def v_foldt(self, t, e):
        b, d, init, body = t.a
        bm, x = body.a
        s = self._e(init, e)
        e = dict(e)
        for v in self.dom(d, e):
            e[b] = v
            e[bm] = s
            s = self._e(x, e)
        return s

    def v_gcd(self, t, e):
        return math.gcd(self._e(t.a[0], e), self._e(t.a[1], e))

    def v_loopt(self, t, e):
        b, d, inits, bs, body = t.a
        key = (t, repr(sorted((str(k), keyof(v)) for k, v in e.items()))) if e else t
        memo = self.memo.setdefault("loopt", {})
        if key in memo:
            return memo[key]
        st = [self._e(x, e) for x in inits.a]
        pan, posts, exits = body.a[0].a[0], body.a[1].a, [x.a for x in body.a[2:]]
        e = dict(e)
        it = iter(range(20000)) if d.op == "inf" else iter(self.dom(d, e))
        r = None
        for v in it:
            e[b] = v
            for m, x in zip(bs.a, st):
                e[m] = x
            if self._e(pan, e):
                r = (-2, st, None)
                break
            for j, x in enumerate(exits):
                if self._e(x[0], e):
                    r = (j, [self._e(y, e) for y in x[2:]], self._e(x[1], e))
                    break
            if r is not None:
                break
            st = [self._e(x, e) for x in posts]
        else:
            if d.op == "inf":
                raise NoEval("iteration limit")
        if r is None:
            r = (-1, st, None)
        memo[key] = r
        return r

    def v_wl(self, t, e):
        r = self._e(t.a[1], e)
        if r[0] == -2:
            raise Bottom("panic in loop")
        return r[1][t.a[0].a[0]]

    v_wlb = v_wl

    def v_wx(self, t, e):
        return self._e(t.a[1], e)[0] == t.a[0].a[0]

    def v_wv(self, t, e):
        r = self._e(t.a[0], e)
        if r[0] == -2:
            raise Bottom("panic in loop")
        return r[2]

    def v_wpan(self, t, e):
        return self._e(t.a[0], e)[0] == -2

    # aggregates
    def v_tuple(self, t, e):
        return tuple(self._e(x, e) for x in t.a)

    def v_struct(self, t, e):
        return ("S",) + tuple((str(n), self._e(x, e)) for n, x in t.a[1])

    def v_enum(self, t, e):
        return ("E", t.a[1]) + tuple(self._e(x, e) for x in t.a[2])

    def v_isv(self, t, e):
        v = self._e(t.a[0], e)
        return v[1] == t.a[2]

    def v_pay(self, t, e):
        v = self._e(t.a[0], e)
        if v[1] != t.a[2]:
            raise Bottom("payload")
        return v[2 + t.a[3]]

    def v_fld(self, t, e):
        v = self._e(t.a[0], e)
        n = t.a[1]
        if isinstance(v, tuple) and v and v[0] == "S":
            for k, x in v[1:]:
                if k == str(n):
                    return x
            raise NoEval("field")
        if isinstance(n, int):
            return v[n]
        raise NoEval("field")

    def v_setf(self, t, e):
        v = self._e(t.a[0], e)
        x = self._e(t.a[2], e)
        n = t.a[1]
        if isinstance(v, tuple) and v and v[0] == "S":
            return ("S",) + tuple((k, x if k == str(n) else y) for k, y in v[1:])
        v = list(v)
        v[n] = x
        return tuple(v)

    def v_set(self, t, e):
        return uniq(self._e(t.a[0], e), SetVal())

    def v_elems(self, t, e):
        v = self._e(t.a[0], e)
        return sorted(v, key=keyof)

    def v_card(self, t, e):
        return len(self._e(t.a[0], e))

    def v_setminus(self, t, e):
        v = self._e(t.a[0], e)
        x = keyof(self._e(t.a[1], e))
        out = SetVal()
        for y in v:
            if keyof(y) != x:
                out.append(y)
        return out

    def v_memb(self, t, e):
        x = keyof(self._e(t.a[0], e))
        return any(keyof(y) == x for y in self._e(t.a[1], e))

    def v_uniq(self, t, e):
        return uniq(self._e(t.a[0], e), [])

    def v_uniqby(self, t, e):
        b, L, body = t.a
        e = dict(e)
        seen, out = set(), []
        for x in self._e(L, e):
            e[b] = x
            k = keyof(self._e(body, e))
            if k not in seen:
                seen.add(k)
                out.append(x)
        return out

    def v_sorted(self, t, e):
        return sorted(self._e(t.a[0], e))

    def v_minby(self, t, e):
        which, L, b2, pk = t.a
        b1, body = pk.a
        xs = self._e(L, e)
        if not xs:
            return ("E", "None")
        e = dict(e)

        def greater(x, y):
            e[b2], e[b1] = x, y
            r = self._e(body, e)
            return r[1] == "Greater"
        best = xs[0]
        for x in xs[1:]:
            # the library folds from the left with compare(best, x)
            if greater(best, x) == (which == "min"):
                best = x
        return ("E", "Some", best)

    def v_ev(self, t, e):
        return tuple(self._e(x, e) if isinstance(x, T) else x for x in t.a)

    def v_file(self, t, e):
        return ("file", self._e(t.a[0], e))

    v_infile = v_file

    files = None

    def v_linesof(self, t, e):
        f = self._e(t.a[0], e)
        if self.files is None:
            raise NoEval("file contents")
        return self.files(f[1] if isinstance(f, tuple) else f)

    def v_hmap(self, t, e):
        out = {}
        for kv in self._e(t.a[0], e):
            out[keyof(kv[0])] = kv
        return MapVal(out)

    def v_kvs(self, t, e):
        return list(self._e(t.a[0], e).d.values())

    def v_hget(self, t, e):
        d = self._e(t.a[0], e).d
        k = keyof(self._e(t.a[1], e))
        return ("E", "Some", d[k][1]) if k in d else ("E", "None")

    def v_hitems(self, t, e):
        out = {}
        for kv in self._e(t.a[0], e):
            out[keyof(kv[0])] = kv
        # the order of a hash map is not specified: the evaluator uses one that no program should rely on
        return [out[k] for k in sorted(out, key=lambda k: zlib.crc32(repr(k).encode()))]

    def v_parent(self, t, e):
        p = self._e(t.a[0], e)
        if not isinstance(p, str) or "/" not in p:
            return ("E", "Some", "") if p else ("E", "None")
        return ("E", "Some", p.rsplit("/", 1)[0])

    def v_fn(self, t, e):
        return ("fn", t.a[0])


def ordered(x):
    return isinstance(x, (str, int, float)) or isinstance(x, list) and all(ordered(y) for y in x) or isinstance(x, tuple) and (not x or x[0] not in ("E", "S")) and all(ordered(y) for y in x)


def _once(x, p, r):
    i = x.rfind(p) if r else x.find(p)
    return ("E", "None") if i < 0 else ("E", "Some", (x[:i], x[i + len(p):]))


def _find(x, p, r):
    i = x.rfind(p) if r else x.find(p)
    return ("E", "None") if i < 0 else ("E", "Some", len(x[:i].encode()))


def _split(x, p):
    return [""] + list(x) + [""] if p == "" else x.split(p)


def _parse(x, ty):
    if not re.match(r"^[+-]?[0-9]+$", x) or x[0] == "-" and ty[0] == "u":
        return ("E", "Err", "ParseIntError")
    v = int(x)
    w = int(ty[1:].replace("size", "64"))
    lo, hi = (0, 2 ** w - 1) if ty[0] == "u" else (-2 ** (w - 1), 2 ** (w - 1) - 1)
    return ("E", "Ok", v) if lo <= v <= hi else ("E", "Err", "ParseIntError")


def _lines(x):
    out = x.split("\n")
    if out[-1] == "":
        out.pop()
    return [y[:-1] if y.endswith("\r") else y for y in out]


def _strip(x, p, left, right):
    while p and left and x.startswith(p):
        x = x[len(p):]
    while p and right and x.endswith(p):
        x = x[:len(x) - len(p)]
    return x


STRF = {
    "split": _split,
    "rsplit": lambda x, p: _split(x, p)[::-1],
    "splitn": lambda x, n, p: x.split(p, n - 1) if n else [],
    "rsplitn": lambda x, n, p: x.rsplit(p, n - 1)[::-1] if n else [],
    "split_once": lambda x, p: _once(x, p, False),
    "rsplit_once": lambda x, p: _once(x, p, True),
    "split_terminator": lambda x, p: (lambda q: q[:-1] if q[-1] == "" else q)(_split(x, p)),
    "split_inclusive": lambda x, p: (lambda q: [y + p for y in q[:-1]] + ([q[-1]] if q[-1] else []))(_split(x, p)),
    "split_at": lambda x, i: (x[:i], x[i:]),
    "strip_prefix": lambda x, p: ("E", "Some", x[len(p):]) if x.startswith(p) else ("E", "None"),
    "strip_suffix": lambda x, p: ("E", "Some", x[:len(x) - len(p)]) if x.endswith(p) else ("E", "None"),
    "find": lambda x, p: _find(x, p, False),
    "rfind": lambda x, p: _find(x, p, True),
    "ends_with": lambda x, p: x.endswith(p),
    "starts_with": lambda x, p: x.startswith(p),
    "contains": lambda x, p: p in x,
    "trim": lambda x: x.strip(),
    "trim_end": lambda x: x.rstrip(),
    "trim_start": lambda x: x.lstrip(),
    "trim_end_matches": lambda x, p: _strip(x, p, False, True),
    "trim_start_matches": lambda x, p: _strip(x, p, True, False),
    "trim_matches": lambda x, p: _strip(x, p, True, True),
    "lines": _lines,
    "split_whitespace": lambda x: x.split(),
    "replace": lambda x, p, q: x.replace(p, q),
    "to_lowercase": lambda x: x.lower(),
    "to_uppercase": lambda x: x.upper(),
    "parse": _parse,
}


class MapVal:
    def __init__(self, d):
        self.d = d


class SetVal(list):
    def __eq__(self, o):
        return isinstance(o, list) and sorted(map(keyof, self)) == sorted(map(keyof, o))

    def __hash__(self):
        return 0


def keyof(x):
    if isinstance(x, SetVal):
        return "{%s}" % ",".join(sorted(keyof(y) for y in x))
    if isinstance(x, list):
        return "[%s]" % ",".join(keyof(y) for y in x)
    if isinstance(x, tuple):
        return "(%s)" % ",".join(keyof(y) for y in x)
    return repr(x)


def uniq(xs, out):
    seen = set()
    for x in xs:
        k = keyof(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def value(model, t):
    try:
        return ("v", model.ev(t))
    except Bottom as ex:
        return ("bottom", str(ex))
    except RecursionError:
        raise NoEval("recursion")
