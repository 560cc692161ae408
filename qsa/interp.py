"""Merge-mode abstract interpreter over the compiler's THIR dump.

Every local function is summarised into closed-form terms (qsa.terms): branches
merge into gated values, loops are summarised by recurrence patterns, calls are
inlined.  Nothing is executed on concrete data; a construct without a summary
rule raises Unsupported and the caller reports the obligation undecided.
"""
import itertools
from fractions import Fraction
from .terms import *
from . import terms as TM


class Unsupported(Exception):
    pass


NEVER = mk("never")
OPT = "core::option::Option"
RES = "core::result::Result"


def some(x):
    return mk("enum", OPT, "Some", (x,))


NONE = mk("enum", OPT, "None", ())


def okv(x):
    return mk("enum", RES, "Ok", (x,))


def errv(x):
    return mk("enum", RES, "Err", (x,))


WIDTH = {"i8": (8, True), "u8": (8, False), "i16": (16, True), "u16": (16, False), "i32": (32, True), "u32": (32, False),
         "i64": (64, True), "u64": (64, False), "isize": (64, True), "usize": (64, False), "i128": (128, True), "u128": (128, False)}
FLOATS = ("f32", "f64")


class St:
    __slots__ = ("env", "pc", "alive")

    def __init__(self, env, pc, alive=True):
        self.env = env
        self.pc = pc
        self.alive = alive

    def copy(self):
        return St(dict(self.env), list(self.pc), self.alive)

    def set(self, o):
        self.env, self.pc, self.alive = o.env, o.pc, o.alive


class Ctx:
    def __init__(self, kind, label, fid, base):
        self.kind = kind
        self.label = label
        self.fid = fid
        self.base = base
        self.items = []


def strip_ty(ty):
    """adt path of a type string without generics and references"""
    while ty.startswith("&"):
        ty = ty[1:]
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1] if " " in ty else ty
        if ty.startswith("mut "):
            ty = ty[4:]
    i = ty.find("<")
    if i > 0:
        ty = ty[:i]
    return ty


def int_range(t, depth=8):
    """interval of an integer term, or None"""
    if t.op == "int":
        return (t.a[0], t.a[0])
    if depth <= 0:
        return None
    if t.op == "poly":
        lo = hi = 0
        for m, c in t.a[0]:
            l, h = 1, 1
            for x in m:
                r = int_range(x, depth - 1)
                if r is None:
                    return None
                ps = [l * r[0], l * r[1], h * r[0], h * r[1]]
                l, h = min(ps), max(ps)
            ps = [c * l, c * h]
            lo += min(ps)
            hi += max(ps)
        return (lo, hi)
    if t.op == "sel":
        b = t.a[0]
        while b.op in ("upd",):
            r = int_range(b.a[2], depth - 1)
            if r is None or r[0] < -1 or r[1] > 1:
                return None
            b = b.a[0]
        if b.op == "arr" and b in ARRDOM:
            return ARRDOM[b]
        if b.op == "sel" and b.a[0].op == "arr" and b.a[0] in ARRDOM2:
            return ARRDOM2[b.a[0]]
        return None
    if t.op == "ite":
        x, y = int_range(t.a[1], depth - 1), int_range(t.a[2], depth - 1)
        if x and y:
            return (min(x[0], y[0]), max(x[1], y[1]))
        return None
    if t in SYMDOM:
        return SYMDOM[t]
    if t.op == "abs":
        r = int_range(t.a[0], depth - 1)
        if r:
            m = max(abs(r[0]), abs(r[1]))
            return (0 if r[0] <= 0 <= r[1] else min(abs(r[0]), abs(r[1])), m)
    return None


ARRDOM = {}   # arr -> (lo,hi) of elements
ARRDOM2 = {}  # arr of arrs -> (lo,hi) of inner elements
SYMDOM = {}


class Interp:
    def __init__(self, dump, uninterp=(), models=None):
        self.dump = dump
        self.bodies = {b["key"]: b for b in dump["bodies"]}
        self.adts = {a["path"]: a for a in dump["adts"]}
        self.uninterp = set(uninterp)   # keys left as uninterpreted applications
        self.keep = {}                  # key -> python handler(interp, st, args, node)
        self.fid = itertools.count(1)
        self.captured = {}
        self.ctxs = []
        self.stack = []
        self.panics = []
        self.used = set()               # bodies analysed
        self.sites = 0
        self.loops = 0
        self.statics = {}
        self.base_assume = []
        self.decide = None
        self.trace = None               # optional list of call events
        from . import models as M
        self.models = M.MODELS
        self.prefix_models = M.PREFIX
        if models:
            self.models = dict(self.models)
            self.models.update(models)

    # ------------------------------------------------------------ entry
    def run(self, key, args, env=None, assume=()):
        """summarise a call; returns (value, state)"""
        b = self.bodies.get(key)
        if b is None:
            raise Unsupported("anchor %s not found" % key)
        st = St(dict(env or {}), [])
        st.env.setdefault(("G", "fx"), mk("vec"))
        self.base_assume = list(assume)
        old = list(TM.ASSUME)
        TM.ASSUME[:] = self.base_assume
        try:
            v = self.call_body(b, list(args), st)
        finally:
            TM.ASSUME[:] = old
        return v, st

    def sync(self, st):
        TM.ASSUME[:] = self.base_assume + facts(st.pc)

    def rel(self, st, base):
        """the path condition since `base`, simplified only under what held before"""
        old = list(TM.ASSUME)
        TM.ASSUME[:] = self.base_assume + facts(st.pc[:base])
        try:
            return and_(*st.pc[base:])
        finally:
            TM.ASSUME[:] = old

    # ------------------------------------------------------------ calls
    def call_body(self, body, args, st, cap=None):
        key = body["key"]
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        if key in self.stack:
            raise Unsupported("recursion through %s" % key)
        self.stack.append(key)
        self.used.add(key)
        fid = next(self.fid)
        if cap is not None:
            self.captured[fid] = cap
        ctx = Ctx("fn", None, fid, len(st.pc))
        pc0 = list(st.pc)
        self.ctxs.append(ctx)
        if len(body["params"]) != len(args):
            raise Unsupported("arity of %s: %d vs %d" % (key, len(body["params"]), len(args)))
        try:
            for p, a in zip(body["params"], args):
                if p.get("pat") is None:
                    st.env[(fid, "$arg")] = a
                    continue
                self.bind_irref(p["pat"], a, st, fid)
            saved = getattr(self, "cur", None)
            self.cur = fid
            try:
                v = self.eval(body["root"], st)
            finally:
                self.cur = saved
        finally:
            self.ctxs.pop()
            self.stack.pop()
        if st.alive:
            ctx.items.append((self.rel(st, ctx.base), v, st.env))
        st.pc = pc0
        self.sync(st)       # the last path's conditions do not hold for the merged state
        if not ctx.items:
            st.alive = False
            return NEVER
        v, env = self.merge_items(ctx.items)
        st.env = env
        st.alive = True
        # drop the callee's frame unless it escapes
        if not self.mentions_frame(v):
            for k in [k for k in env if k[0] == fid]:
                del env[k]
        self.sync(st)
        return v

    def mentions_frame(self, v):
        return bool(find_ops(v, ("closure", "ref")))

    def merge_items(self, items):
        c, v, env = items[-1]
        env = dict(env)
        for c2, v2, e2 in reversed(items[:-1]):
            v = ite(c2, v2, v)
            env = self.merge_env(c2, e2, env)
        return v, env

    def merge_env(self, c, e1, e2):
        out = {}
        for k, x in e1.items():
            y = e2.get(k)
            if y is None:
                continue
            out[k] = x if x is y else ite(c, x, y)
        return out

    def fork(self, c, st, ft, ff):
        c = self.under_pc(c, st)
        if c is TRUE:
            return ft(st)
        if c is FALSE:
            return ff(st)
        if self.decide is not None:
            if self.decide(c):
                st.pc.append(c)
                self.sync(st)
                return ft(st)
            st.pc.append(not_(c))
            self.sync(st)
            return ff(st)
        n = len(st.pc)
        nc = not_(c)
        s1 = st.copy()
        s1.pc.append(c)
        s2 = st.copy()
        s2.pc.append(nc)
        self.sync(s1)
        v1 = ft(s1)
        self.sync(s2)
        v2 = ff(s2)
        if not s1.alive and not s2.alive:
            st.alive = False
            return NEVER
        if not s1.alive:
            st.set(s2)
            self.sync(st)
            return v2
        if not s2.alive:
            st.set(s1)
            self.sync(st)
            return v1
        self.sync(st)       # the branch conditions do not hold for the merged state
        r1, r2 = s1.pc[n + 1:], s2.pc[n + 1:]
        st.env = self.merge_env(c, s1.env, s2.env)
        if r1 or r2:
            st.pc = st.pc[:n] + [or_(and_(c, *r1), and_(nc, *r2))]
        self.sync(st)
        if v1 is None or v2 is None:
            return UNIT
        return ite(c, v1, v2)

    def under_pc(self, c, st):
        if not (c.op == "bool"):
            for p in st.pc:
                c = implies_under(p, c, True)
        return c

    # ------------------------------------------------------------ places
    def owner(self, fid, var, st):
        f = fid
        while f is not None:
            if (f, var) in st.env:
                return f
            f = self.captured.get(f)
        raise Unsupported("variable %s not bound" % (var,))

    def place(self, e, st):
        k = e["k"]
        if k in ("var", "upvar"):
            return ("var", self.owner(self.cur, e["var"], st), e["var"], ())
        if k == "field":
            p = self.place(e["e"], st)
            return ext(p, ("f", self.fname(e)))
        if k == "index":
            p = self.place(e["e"], st)
            i = self.eval(e["i"], st)
            return ext(p, ("i", i))
        if k == "deref":
            p = self.place(e["e"], st)
            return self.deref_place(p, st)
        if k in ("scope", "coerce_place"):
            return self.place(e["e"], st)
        return ("tmp", self.eval(e, st))

    def fname(self, e):
        n = e.get("fname")
        if e.get("adt") in (None, "", "tuple") or n is None:
            return e["i"]
        if n.isdigit():
            return int(n)
        return n

    def deref_place(self, p, st):
        v = self.read(p, st)
        return self.ref_place(v, p)

    def ref_place(self, v, dflt):
        if v.op == "ref":
            return ("var", v.a[0], v.a[1], v.a[2])
        if v.op == "ite" and has_ref(v):
            return ("itep", v.a[0], self.ref_place(v.a[1], ("tmp", v.a[1])), self.ref_place(v.a[2], ("tmp", v.a[2])))
        return dflt

    def read(self, p, st):
        if p[0] == "tmp":
            return p[1]
        if p[0] == "itep":
            return ite(p[1], self.read(p[2], st), self.read(p[3], st))
        v = st.env.get((p[1], p[2]))
        if v is None:
            raise Unsupported("unbound variable %s" % (p[2],))
        return getpath(v, p[3])

    def write(self, p, val, st):
        if p[0] == "tmp":
            if has_ref(p[1]):
                return self.write(self.ref_place(p[1], p), val, st)
            raise Unsupported("write to temporary")
        if p[0] == "itep":
            o1, o2 = self.read(p[2], st), self.read(p[3], st)
            self.write(p[2], ite(p[1], val, o1), st)
            # the two places are distinct variables/paths
            o2 = self.read(p[3], st)
            self.write(p[3], ite(p[1], o2, val), st)
            return
        k = (p[1], p[2])
        cur = st.env.get(k)
        if not p[3]:
            # writing through a by-value parameter of reference type is fine
            st.env[k] = val
        else:
            if cur is None:
                raise Unsupported("write to unbound variable")
            st.env[k] = setpath(cur, p[3], val)

    def ref_of(self, p, st):
        if p[0] == "tmp":
            if p[1].op == "ref" or has_ref(p[1]):
                return p[1]
            name = "$t%d" % next(self.fid)
            st.env[(self.cur, name)] = p[1]
            return mk("ref", self.cur, name, ())
        if p[0] == "itep":
            return ite(p[1], self.ref_of(p[2], st), self.ref_of(p[3], st))
        return mk("ref", p[1], p[2], tuple(p[3]))

    # value of an argument that may be a mutable reference
    def val(self, t, st):
        while has_ref(t):
            t2 = self.read(self.ref_place(t, ("tmp", t)), st)
            if t2 is t:
                break
            t = t2
        return t

    def store(self, ref, val, st):
        """*ref = val for a reference term"""
        if not has_ref(ref):
            raise Unsupported("mutation through a non-reference value")
        p = self.ref_place(ref, None)
        cur = self.read(p, st)
        if has_ref(cur):
            return self.store(cur, val, st)
        self.write(p, val, st)

    # ------------------------------------------------------------ patterns
    def bind_irref(self, pat, v, st, fid):
        c, binds = self.pat(pat, ("tmp", v), st, fid)
        for var, val in binds:
            st.env[(fid, var)] = val

    def subfield(self, ty, f):
        a = self.adts.get(strip_ty(ty))
        if a and not a["enum"]:
            n = a["variants"][0]["fields"][f]["name"]
            return int(n) if n.isdigit() else n
        return f

    def pat(self, p, pl, st, fid):
        k = p["k"]
        if k == "wild":
            return TRUE, []
        if k == "bind":
            if p["byref"] and p["mut"]:
                v = self.ref_of(pl, st)
            elif p["byref"] and str(p.get("bty", "")).startswith("&mut"):
                v = self.ref_of(pl, st)
            else:
                v = self.read(pl, st)
            binds = [(p["var"], v)]
            c = TRUE
            if p.get("sub"):
                c, b2 = self.pat(p["sub"], pl, st, fid)
                binds += b2
            return c, binds
        if k == "variant":
            if pl[0] != "itep":
                pl = self.deref_if_ref(pl, st)
            v = self.read(pl, st)
            c = isv(v, p["adt"], p["variant"])
            binds = []
            for s in p["subs"]:
                c2, b2 = self.pat(s["p"], ext(pl, ("p", p["adt"], p["variant"], s["f"])), st, fid)
                c = and_(c, c2)
                binds += b2
            return c, binds
        if k == "leaf":
            pl = self.deref_if_ref(pl, st)
            c, binds = TRUE, []
            for s in p["subs"]:
                c2, b2 = self.pat(s["p"], ext(pl, ("f", self.subfield(p["ty"], s["f"]))), st, fid)
                c = and_(c, c2)
                binds += b2
            return c, binds
        if k in ("deref", "derefpat"):
            return self.pat(p["sub"], self.deref_place(pl, st), st, fid)
        if k == "const":
            v = self.read(pl, st)
            v = self.val(v, st)
            c = self.const_val(p, st)
            return eq(v, c), []
        if k == "range":
            v = self.val(self.read(pl, st), st)
            c = TRUE
            lo, hi = p.get("lo"), p.get("hi")
            if lo is not None:
                c = and_(c, le(self.const_val(lo, st), v))
            if hi is not None:
                h = self.const_val(hi, st)
                c = and_(c, le(v, h) if p.get("incl", True) else lt(v, h))
            return c, []
        if k == "or":
            cs, bs = [], None
            for q in p["pats"]:
                c, b = self.pat(q, pl, st, fid)
                cs.append(c)
                if bs is None:
                    bs = b
                else:
                    bs = [(x[0], ite(cs[0] if len(cs) == 2 else or_(*cs[:-1]), x[1], y[1])) for x, y in zip(bs, b)]
            return or_(*cs), bs
        if k == "guard":
            raise Unsupported("pattern guard")
        if k == "slice":
            pl = self.deref_if_ref(pl, st)
            v = self.read(pl, st)
            pre, mid, suf = p.get("prefix", []), p.get("slice"), p.get("suffix", [])
            n = seqlen(v)
            need = I(len(pre) + len(suf))
            c = le(need, n) if mid else eq(n, need, True)
            binds = []
            for i, q in enumerate(pre):
                c2, b2 = self.pat(q, ext(pl, ("i", I(i))), st, fid)
                c = and_(c, c2)
                binds += b2
            for i, q in enumerate(suf):
                c2, b2 = self.pat(q, ext(pl, ("i", add(n, I(i - len(suf))))), st, fid)
                c = and_(c, c2)
                binds += b2
            if mid:
                c2, b2 = self.pat(mid, ("tmp", slice_(v, I(len(pre)), sub(n, I(len(suf))))), st, fid)
                c = and_(c, c2)
                binds += b2
            return c, binds
        raise Unsupported("pattern " + k)

    def deref_if_ref(self, pl, st):
        if pl[0] == "tmp" and has_ref(pl[1]):
            return self.ref_place(pl[1], pl)
        if pl[0] == "var":
            v = st.env.get((pl[1], pl[2]))
            if v is not None:
                x = getpath(v, pl[3])
                if x.op == "ref":
                    return self.ref_place(x, pl)
        return pl

    def const_val(self, p, st):
        if p.get("path") and p.get("local"):
            return self.const_body(p["key"], st)
        v = p.get("val") or p
        if isinstance(v, dict) and v.get("k") == "lit":
            return self.lit(v)
        raise Unsupported("constant pattern")

    def const_body(self, key, st):
        if key not in self.statics:
            b = self.bodies.get(key)
            if b is None:
                raise Unsupported("constant %s" % key)
            s = St({}, [])
            old = self.ctxs
            self.ctxs = []
            try:
                self.statics[key] = self.call_body(b, [], s)
            finally:
                self.ctxs = old
            self.sync(st)
        return self.statics[key]

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        if not st.alive:
            return NEVER
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression %s at %s" % (e["k"], e.get("sp")))
        self.sites += 1
        return m(e, st)

    def e_scope(self, e, st):
        return self.eval(e["e"], st)

    e_coerce = e_scope

    def e_never(self, e, st):
        self.eval(e["e"], st)
        return NEVER

    def e_lit(self, e, st):
        return self.lit(e)

    def lit(self, e):
        v, ty = e["v"], e["ty"]
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, int):
            return I(v)
        if isinstance(v, str):
            if ty in FLOATS:
                return I(Fraction(v.rstrip("_f3264") if False else v))
            if ty == "char":
                return mk("char", v)
            return S(v)
        if isinstance(v, list):
            return mk("vec", *[I(x) for x in v])
        if v is None and ty == "()":
            return UNIT
        raise Unsupported("literal %s" % (e,))

    def e_zst(self, e, st):
        c = e.get("callee")
        if c:
            return mk("fn", json_key(c))
        return UNIT

    def e_tuple(self, e, st):
        return mk("tuple", *self.evals(e["es"], st))

    def e_array(self, e, st):
        return mk("vec", *self.evals(e["es"], st))

    def evals(self, es, st):
        return [self.eval(x, st) for x in es]

    def e_repeat(self, e, st):
        v = self.eval(e["e"], st)
        n = e.get("n")
        if isinstance(n, dict):
            n = self.eval(n, st)
        else:
            try:
                n = I(int(n))
            except Exception:
                raise Unsupported("repeat count")
        return lam(n, fresh(mk("range", ZERO, n)), v)

    def e_var(self, e, st):
        return self.read(self.place(e, st), st)

    e_upvar = e_var

    def e_field(self, e, st):
        return self.read(self.place(e, st), st)

    e_index = e_field

    def e_deref(self, e, st):
        return self.read(self.place(e, st), st)

    def e_borrow(self, e, st):
        p = self.place(e["e"], st)
        if e["mut"]:
            return self.ref_of(p, st)
        return self.read(p, st)

    e_rawborrow = e_borrow

    def e_const(self, e, st):
        if e.get("val"):
            v = e["val"]
            if isinstance(v, dict):
                return self.lit(v) if v.get("k") == "lit" else self.eval(v, st)
        if e.get("local"):
            return self.const_body(e["key"], st)
        c = CONSTS.get(e.get("path"))
        if c is not None:
            return c
        return mk("const", e.get("path"))

    def e_static(self, e, st):
        if any(x in e["ty"] for x in ("once_lock::OnceLock", "mutex::Mutex", "rwlock::RwLock", "sync::atomic")):
            # state that survives the call: keep its identity
            return mk("static", e.get("path"))
        if e.get("local") and e["key"] in self.bodies:
            r = self.const_body(e["key"], st)
            return r
        return mk("static", e.get("path"))

    def e_constblock(self, e, st):
        if e.get("key") in self.bodies:
            return self.const_body(e["key"], st)
        raise Unsupported("const block")

    def e_un(self, e, st):
        v = self.val(self.eval(e["e"], st), st)
        if e["op"] == "Not":
            return not_(v)
        return self.wrap(neg(v), e["ty"])

    def wrap(self, t, ty):
        w = WIDTH.get(ty)
        if w is None or w[0] >= 32:
            return t
        r = int_range(t)
        if r is None:
            if any(f.a[1] == "mu" for f in t.fvs) and t.op == "poly" and any(len(m) == 1 and m[0].op == "fv" and m[0].a[1] == "mu" for m, _ in t.a[0]):
                return mk("wrap", ty, t)
            return t
        lo, hi = (-(1 << (w[0] - 1)), (1 << (w[0] - 1)) - 1) if w[1] else (0, (1 << w[0]) - 1)
        if lo <= r[0] and r[1] <= hi:
            return t
        if t.op == "int":
            return I((t.a[0] - lo) % (1 << w[0]) + lo)
        return mk("wrap", ty, t)

    def e_cast(self, e, st):
        v = self.val(self.eval(e["e"], st), st)
        return self.cast(v, e["e"]["ty"], e["ty"])

    def cast(self, v, f, t):
        if v.op == "ite" and t in WIDTH:
            return ite(v.a[0], self.cast(v.a[1], f, t), self.cast(v.a[2], f, t))
        if f == t:
            return v
        if f == "bool":
            return ite(v, ONE, ZERO)
        if f in FLOATS:
            if t in FLOATS:
                return v
            return mk("trunc", t, v) if v.op != "int" else I(int(v.a[0]))
        if f == "char" or t == "char":
            if v.op == "char" and t in WIDTH:
                return I(ord(v.a[0]))
            return mk("castc", f, t, v)
        if t in FLOATS:
            return v
        wf, wt = WIDTH.get(f), WIDTH.get(t)
        if wf is None or wt is None:
            if v.op == "enum" and t in WIDTH:
                a = self.adts.get(v.a[0])
                names = [x["name"] for x in a["variants"]]
                return I(names.index(v.a[1]))
            raise Unsupported("cast %s -> %s" % (f, t))
        if v.op == "int":
            lo, hi = (-(1 << (wt[0] - 1)), (1 << (wt[0] - 1)) - 1) if wt[1] else (0, (1 << wt[0]) - 1)
            if lo <= v.a[0] <= hi:
                return v
            return I((v.a[0] - lo) % (1 << wt[0]) + lo)
        if wt[0] >= 32 and (wt[1] or not wf[1]):
            return v        # value preserving (lengths and counts below 2^31)
        if wt[0] >= 32:
            # signed -> unsigned: identity on non-negative values
            if prove_ge0(v) or (int_range(v) and int_range(v)[0] >= 0):
                return v
            return mk("cast", t, v)
        if wf[0] < wt[0] and (wt[1] or not wf[1]):
            return v
        r = int_range(v)
        lo, hi = (-(1 << (wt[0] - 1)), (1 << (wt[0] - 1)) - 1) if wt[1] else (0, (1 << wt[0]) - 1)
        if r and lo <= r[0] and r[1] <= hi:
            return v
        return mk("cast", t, v)

    def e_bin(self, e, st):
        l = self.val(self.eval(e["l"], st), st)
        r = self.val(self.eval(e["r"], st), st)
        return self.binop(e["op"], l, r, e["l"]["ty"], e["ty"])

    def binop(self, op, l, r, lty, ty=None):
        lty = lty.lstrip("&").strip()
        fl = lty in FLOATS
        ty = ty or lty
        if op == "Add":
            return self.wrap(add(l, r), ty)
        if op == "Sub":
            return self.wrap(sub(l, r), ty)
        if op == "Mul":
            return self.wrap(mul(l, r), ty)
        if op == "Div":
            if fl:
                return fdiv(l, r)
            if l.op == "ite":
                return ite(l.a[0], self.binop(op, l.a[1], r, lty, ty), self.binop(op, l.a[2], r, lty, ty))
            if WIDTH.get(lty, (0, True))[1] and not prove_ge0(l):
                if l.op == "int" and r.op == "int" and r.a[0] != 0:
                    q = abs(l.a[0]) // abs(r.a[0])
                    return I(q if (l.a[0] >= 0) == (r.a[0] > 0) else -q)
                return mk("tdiv", l, r)
            return mk_div(l, r)
        if op == "Rem":
            if fl:
                return mk("frem", l, r)
            if l.op == "int" and r.op == "int" and r.a[0] != 0:
                import math
                return I(int(math.fmod(l.a[0], r.a[0])))
            if WIDTH.get(lty, (0, True))[1] and not prove_ge0(l):
                if r.op == "int" and abs(r.a[0]) == 1:
                    return ZERO
                return mk("rem", l, r)
            return mk_mod(l, r)
        if op in ("Eq", "Ne"):
            num = lty in WIDTH or fl
            c = eq(l, r, num)
            return c if op == "Eq" else not_(c)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op in ("Gt", "Ge"):
                l, r = r, l
                op = {"Gt": "Lt", "Ge": "Le"}[op]
            if fl:
                return flt(l, r) if op == "Lt" else not_(flt(r, l))
            if lty in WIDTH:
                return lt(l, r) if op == "Lt" else le(l, r)
            return mk("cmp" + op, l, r)
        if op in ("BitAnd", "BitOr", "BitXor") and lty == "bool":
            if op == "BitAnd":
                return and_(l, r)
            if op == "BitOr":
                return or_(l, r)
            return or_(and_(l, not_(r)), and_(not_(l), r))
        return mk("bit" + op, l, r)

    def e_logic(self, e, st):
        a = self.eval(e["l"], st)
        if not st.alive:
            return NEVER
        if e["op"] == "And":
            return self.fork(a, st, lambda s: self.eval(e["r"], s), lambda s: FALSE)
        return self.fork(a, st, lambda s: TRUE, lambda s: self.eval(e["r"], s))

    def cond(self, e, st):
        """condition with let-chains: returns value, binding into st.env as a side effect"""
        return self.eval(e, st)

    def e_let(self, e, st):
        p = self.place(e["e"], st)
        c, binds = self.pat(e["pat"], p, st, self.cur)
        for var, v in binds:
            st.env[(self.cur, var)] = v
        return c

    def e_if(self, e, st):
        c = self.eval_cond(e["c"], st)
        if not st.alive:
            return NEVER
        el = e.get("e")
        return self.fork(c, st, lambda s: self.eval(e["t"], s), lambda s: self.eval(el, s) if el else UNIT)

    def eval_cond(self, c, st):
        # let chains: a && let p = x: evaluate in order, binding eagerly
        while c["k"] == "scope":
            c = c["e"]
        if c["k"] == "logic" and c["op"] == "And" and has_let(c):
            a = self.eval_cond(c["l"], st)
            if not st.alive:
                return NEVER
            s2 = st.copy()
            s2.pc.append(a)
            b = self.eval_cond(c["r"], s2)
            for k, v in s2.env.items():
                if k not in st.env:
                    st.env[k] = v
                elif st.env[k] is not v:
                    if k[0] == self.cur:
                        st.env[k] = v
            return and_(a, b)
        return self.eval(c, st)

    def e_match(self, e, st):
        if e.get("src") == "ForLoopDesugar":
            return self.for_loop(e, st)
        p = self.place(e["e"], st)
        if not st.alive:
            return NEVER
        if p[0] == "tmp":
            name = "$m%d" % next(self.fid)
            st.env[(self.cur, name)] = p[1]
            if not has_ref(p[1]):
                p = ("var", self.cur, name, ())
        return self.arms(e["arms"], 0, p, st)

    def arms(self, arms, i, p, st):
        if i >= len(arms):
            # non-exhaustive by construction: unreachable
            st.alive = False
            return NEVER
        a = arms[i]
        c, binds = self.pat(a["pat"], p, st, self.cur)
        if i == len(arms) - 1 and not a.get("guard"):
            c = TRUE if self.under_pc(c, st) is not FALSE else FALSE

        def taken(s):
            for var, v in binds:
                s.env[(self.cur, var)] = v
            if a.get("guard"):
                g = self.eval_cond(a["guard"], s)
                return self.fork(g, s, lambda q: self.eval(a["body"], q), lambda q: self.arms(arms, i + 1, p, q))
            return self.eval(a["body"], s)

        return self.fork(c, st, taken, lambda s: self.arms(arms, i + 1, p, s))

    def e_blk(self, e, st):
        b = e["b"]
        lab = b.get("brk")
        ctx = None
        if lab:
            ctx = Ctx("blk", lab, self.cur, len(st.pc))
            self.ctxs.append(ctx)
        v = UNIT
        try:
            for s in b["stmts"]:
                if not st.alive:
                    break
                if s["k"] == "expr":
                    self.eval(s["e"], st)
                else:
                    self.let(s, st)
            if st.alive:
                v = self.eval(b["expr"], st) if b.get("expr") else UNIT
        finally:
            if ctx:
                self.ctxs.pop()
        if ctx and ctx.items:
            return self.finish_ctx(ctx, st, v)
        return v if st.alive else NEVER

    def finish_ctx(self, ctx, st, v):
        pc0 = st.pc[:ctx.base]
        if st.alive:
            ctx.items.append((self.rel(st, ctx.base), v, st.env))
        if not ctx.items:
            return NEVER
        TM.ASSUME[:] = self.base_assume + facts(pc0)
        rel = or_(*[c for c, _, _ in ctx.items])
        v, env = self.merge_items(ctx.items)
        st.env, st.alive = env, True
        st.pc = pc0 + ([] if rel is TRUE else [rel])
        self.sync(st)
        return v

    def let(self, s, st):
        if s.get("init") is None:
            if s["pat"]["k"] == "bind":
                st.env[(self.cur, s["pat"]["var"])] = mk("undef")
            return
        init = s["init"]
        pat = s["pat"]
        if pat["k"] == "bind" and not pat["byref"] and not pat.get("sub"):
            v = self.eval(init, st)
            if st.alive:
                st.env[(self.cur, pat["var"])] = v
            return
        p = self.place(init, st)
        if not st.alive:
            return
        if p[0] == "tmp" and not has_ref(p[1]):
            name = "$l%d" % next(self.fid)
            st.env[(self.cur, name)] = p[1]
            p = ("var", self.cur, name, ())
        c, binds = self.pat(pat, p, st, self.cur)
        if s.get("else"):
            def ok(q):
                for var, v in binds:
                    q.env[(self.cur, var)] = v
                return UNIT
            els = s["else"]
            self.fork(c, st, ok, lambda q: self.eval(els if "k" in els and els["k"] != "block" else {"k": "blk", "b": els}, q))
            return
        for var, v in binds:
            st.env[(self.cur, var)] = v

    def e_assign(self, e, st):
        v = self.eval(e["r"], st)
        if not st.alive:
            return NEVER
        p = self.place(e["l"], st)
        self.write(p, v, st)
        return UNIT

    def e_assignop(self, e, st):
        r = self.val(self.eval(e["r"], st), st)
        if not st.alive:
            return NEVER
        p = self.place(e["l"], st)
        l = self.read(p, st)
        if has_ref(l):
            p = self.ref_place(l, p)
            l = self.read(p, st)
        self.write(p, self.binop(e["op"].replace("Assign", ""), l, r, e["l"]["ty"], e["l"]["ty"]), st)
        return UNIT

    def e_return(self, e, st):
        v = self.eval(e["e"], st) if e.get("e") else UNIT
        if not st.alive:
            return NEVER
        for c in reversed(self.ctxs):
            if c.kind == "fn":
                c.items.append((self.rel(st, c.base), v, st.env))
                break
        st.alive = False
        return NEVER

    def e_break(self, e, st):
        v = self.eval(e["e"], st) if e.get("e") else UNIT
        if not st.alive:
            return NEVER
        for c in reversed(self.ctxs):
            if c.kind in ("loop", "blk") and c.label == e["label"]:
                c.items.append((self.rel(st, c.base), v, st.env))
                st.alive = False
                return NEVER
            if c.kind == "fn":
                break
        raise Unsupported("break target %s" % e["label"])

    def e_continue(self, e, st):
        for c in reversed(self.ctxs):
            if c.kind == "iter" and c.label == e["label"]:
                c.items.append((self.rel(st, c.base), UNIT, st.env))
                st.alive = False
                return NEVER
            if c.kind == "fn":
                break
        raise Unsupported("continue target %s" % e["label"])

    def panic(self, st, what, node):
        self.panics.append((what, tuple(st.pc), self.stack[-1] if self.stack else "", node.get("sp") if node else None))
        st.alive = False
        return NEVER

    def e_adt(self, e, st):
        name = e["adt"]
        if e["isenum"]:
            fs = sorted(e["fields"], key=lambda f: f["i"])
            return mk("enum", name, e["variant"], tuple(self.eval(f["e"], st) for f in fs))
        vals = {}
        for f in e["fields"]:
            vals[f["n"]] = self.eval(f["e"], st)
        if name == "core::ops::range::Range":
            return mk("range", self.val(vals["start"], st), self.val(vals["end"], st))
        if name == "core::ops::range::RangeFrom":
            return mk("rangefrom", vals["start"])
        if name == "core::ops::range::RangeTo":
            return mk("rangeto", vals["end"])
        if name == "core::ops::range::RangeFull":
            return mk("rangefull")
        if name == "core::ops::range::RangeToInclusive":
            return mk("rangeto", add(vals["end"], ONE))
        a = self.adts.get(name)
        if e.get("base"):
            base = self.val(self.eval(e["base"] if "k" in e["base"] else e["base"]["e"], st), st)
            names = [f["name"] for f in a["variants"][0]["fields"]] if a else list(vals)
            return mk("struct", name, tuple((fn_(n), vals[n] if n in vals else field(base, fn_(n))) for n in names))
        if a:
            names = [f["name"] for f in a["variants"][0]["fields"]]
            return mk("struct", name, tuple((fn_(n), vals[n]) for n in names))
        return mk("struct", name, tuple(sorted((fn_(n), v) for n, v in vals.items())))

    def e_closure(self, e, st):
        return mk("closure", e["key"], self.cur)

    # ------------------------------------------------------------ call expressions
    def e_call(self, e, st):
        c = e["callee"]
        if "path" not in c:
            f = self.val(self.eval(e["fun"], st), st)
            args = self.evals(e["args"], st)
            return self.apply(f, args, st, e)
        path = c["path"]
        if c.get("ctor"):
            args = self.evals(e["args"], st)
            return self.ctor(c, args, e)
        m = self.models.get(path) or self.models.get(c.get("res"))
        if m is not None and getattr(m, "lazy", False):
            return m(self, e, st)
        key = c.get("reskey") if c.get("reslocal") else (c.get("key") if c.get("local") else None)
        args = self.evals(e["args"], st)
        if not st.alive:
            return NEVER
        if self.trace is not None:
            self.trace.append((key or c.get("res") or path, tuple(args), tuple(st.pc), e.get("sp"), tuple(self.stack)))
        if key is not None and path.startswith("core::ops::function::Fn") and len(args) == 2:
            a = self.val(args[1], st)
            return self.apply(args[0], list(a.a) if a.op == "tuple" else [a], st, e)
        if key is not None:
            return self.call_key(key, args, st, e)
        if m is None:
            for pre, f in self.prefix_models:
                if path.startswith(pre) or (c.get("res") or "").startswith(pre):
                    m = f
                    break
        if m is None:
            raise Unsupported("no model for %s (%s) at %s" % (path, c.get("res"), e.get("sp")))
        return m(self, args, e, st)

    def ctor(self, c, args, e):
        of = c.get("ctorof") or strip_ty(e["ty"])
        a = self.adts.get(strip_ty(e["ty"]))
        ty = strip_ty(e["ty"])
        if ty in (OPT, RES) or (a and a["enum"]):
            return mk("enum", ty, c["name"], tuple(args))
        return mk("struct", ty, tuple((i, x) for i, x in enumerate(args)))

    def call_key(self, key, args, st, e):
        h = self.keep.get(key)
        if h is not None:
            return h(self, st, args, e)
        if key in self.uninterp:
            return self.app(key, args, st)
        b = self.bodies.get(key)
        if b is None:
            raise Unsupported("no body for %s" % key)
        mac = b["root"].get("mac") if isinstance(b["root"], dict) else None
        nm = b["name"]
        if b.get("implfor") and b.get("trait") and is_derived(b):
            if nm in ("eq", "ne"):
                r = eq(self.val(args[0], st), self.val(args[1], st))
                return r if nm == "eq" else not_(r)
            if nm == "clone":
                return self.val(args[0], st)
            if nm in ("fmt",):
                raise Unsupported("derived Debug text")
            if nm in ("cmp", "partial_cmp", "hash"):
                raise Unsupported("derived " + nm)
        if key in self.stack:
            raise Unsupported("recursion through %s" % key)
        return self.call_body(b, args, st)

    def app(self, key, args, st, name=None):
        """uninterpreted application; mutable reference arguments become outputs"""
        vals = [self.val(a, st) for a in args]
        base = mk("app", name or key, *vals)
        for i, a in enumerate(args):
            if has_ref(a):
                self.store(a, mk("appout", i, base), st)
        return base

    def apply(self, f, args, st, node=None):
        """call a closure / fn item value"""
        f = self.val(f, st)
        if f.op == "closure":
            b = self.bodies.get(f.a[0])
            if b is None:
                raise Unsupported("closure body %s" % f.a[0])
            params = b["params"]
            # closure bodies may carry an explicit environment parameter
            if len(params) == len(args) + 1:
                args = [f] + list(args)
            if len(params) != len(args) and len(args) == 1 and args[0].op == "tuple":
                args = list(args[0].a)
            return self.call_body(b, args, st, cap=f.a[1])
        if f.op == "fn":
            key = f.a[0]
            if key in self.bodies:
                return self.call_key(key, args, st, node)
            m = self.models.get(key)
            if m is not None:
                return m(self, args, node or {"ty": ""}, st)
            if key.startswith("ctor:"):
                adt, var = key[5:].rsplit("::", 1)
                return mk("enum", adt, var, tuple(args))
            raise Unsupported("function value %s" % key)
        if f.op == "ite":
            return self.fork(f.a[0], st, lambda s: self.apply(f.a[1], args, s, node), lambda s: self.apply(f.a[2], args, s, node))
        if f.op == "sym":
            return self.app("$" + f.a[0], args, st)
        if f.op == "pyfn":
            return PYFN[f.a[0]](self, args, st)
        raise Unsupported("call of %s" % f.op)

    # ------------------------------------------------------------ loops
    def for_loop(self, e, st):
        it = self.eval(e["e"], st)
        if not st.alive:
            return NEVER
        arm = e["arms"][0]
        sc = arm["body"]
        label = None
        while sc["k"] == "scope":
            label = sc["id"]
            sc = sc["e"]
        assert sc["k"] == "loop"
        inner = sc["body"]
        while inner["k"] in ("blk", "scope", "never"):
            if inner["k"] == "blk":
                b = inner["b"]
                inner = b["stmts"][0]["e"] if b["stmts"] else b["expr"]
            else:
                inner = inner["e"]
        some_arm = inner["arms"][1]
        if some_arm["pat"].get("variant") != "Some":
            some_arm = inner["arms"][0]
        pat = some_arm["pat"]["subs"][0]["p"]
        body = some_arm["body"]
        L = self.val(it, st) if not is_iterref(it) else it
        self.loops += 1
        fid = self.cur

        def step(elem, s):
            self.bind_irref(pat, elem, s, fid)
            self.iter_body(label, lambda q: self.eval(body, q), s)

        ctx = Ctx("loop", label, self.cur, len(st.pc))
        self.ctxs.append(ctx)
        try:
            self.iterate(L, step, st)
        finally:
            self.ctxs.pop()
        if ctx.items:
            self.finish_ctx(ctx, st, UNIT)
        return UNIT if st.alive else NEVER

    def iter_body(self, label, f, st):
        ctx = Ctx("iter", label, self.cur, len(st.pc))
        self.ctxs.append(ctx)
        try:
            f(st)
        finally:
            self.ctxs.pop()
        if ctx.items:
            self.finish_ctx(ctx, st, UNIT)

    def iterate(self, L, step, st):
        """run step(elem, st) for the elements of list term L in order"""
        if not st.alive:
            return
        o = L.op
        if o == "iter":
            return self.iterate(drop_(L.a[0], L.a[1]), step, st)
        if o == "set":
            return self.iterate(mk("elems", L), step, st)
        if o == "refs":
            # mutable iteration: elements are references into a place
            n = L.a[1]
            if n.op == "int" and n.a[0] <= 64:
                for k in range(n.a[0]):
                    step(mk("ref", L.a[0].a[0], L.a[0].a[1], L.a[0].a[2] + (("i", I(k)),)), st)
                return
            v = fresh(mk("range", ZERO, n))
            return self.summarise(v, TM.FVDOM[v], lambda s, w: step(mk("ref", L.a[0].a[0], L.a[0].a[1], L.a[0].a[2] + (("i", w),)), s), st)
        if o == "zipl":
            n = L.a[0]
            if n.op == "int" and n.a[0] <= 64:
                for k in range(n.a[0]):
                    step(zip_elem(L, I(k)), st)
                return
            v = fresh(mk("range", ZERO, n))
            return self.summarise(v, TM.FVDOM[v], lambda s, w: step(zip_elem(L, w), s), st)
        if o == "vec":
            for x in L.a:
                if not st.alive:
                    return
                step(x, st)
            return
        if o == "cat":
            for p in L.a:
                self.iterate(p, step, st)
            return
        if o == "ite":
            def run(x):
                def f(s):
                    self.iterate(x, step, s)
                    return UNIT
                return f
            self.fork(L.a[0], st, run(L.a[1]), run(L.a[2]))
            return
        if o == "range":
            lo, hi = L.a
            if lo.op == "int" and hi.op == "int":
                if hi.a[0] - lo.a[0] <= 64:
                    for k in range(lo.a[0], hi.a[0]):
                        if not st.alive:
                            return
                        step(I(k), st)
                    return
            v = fresh(L)
            return self.summarise(v, L, lambda s, w: step(w, s), st)
        if o in ("many", "flat"):
            b, dom = L.a[0], L.a[1]
            v, pk = openb(b, dom, mk("pack", L.a[2], L.a[3]))

            def body(s, w):
                g = subst(pk.a[0], {v: w})
                x = subst(pk.a[1], {v: w})

                def yes(q):
                    if o == "many":
                        step(x, q)
                    else:
                        self.iterate(x, step, q)
                    return UNIT
                self.fork(g, s, yes, lambda q: UNIT)
            w = fresh(dom)
            return self.summarise(w, dom, body, st)
        if o == "elems":
            v = fresh(L)
            return self.summarise(v, L, lambda s, w: step(w, s), st)
        n = seqlen(L)
        if n.op == "int" and 0 <= n.a[0] <= 64:
            for k in range(n.a[0]):
                if not st.alive:
                    return
                step(sel(L, I(k)), st)
            return
        dom = mk("range", ZERO, n)
        v = fresh(dom)
        self.summarise(v, dom, lambda s, w: step(sel(L, w), s), st)

    def e_loop(self, e, st, label=None):
        raise Unsupported("unlabelled loop")

    def e_scope(self, e, st):
        if e["e"]["k"] == "loop":
            return self.while_loop(e["e"], e["id"], st)
        return self.eval(e["e"], st)

    def while_loop(self, e, label, st):
        self.loops += 1
        ctx = Ctx("loop", label, self.cur, len(st.pc))
        self.ctxs.append(ctx)
        try:
            v = fresh(mk("range", ZERO, mk("sym", "$inf", "usize")))

            def body(s, w):
                self.iter_body(label, lambda q: self.eval(e["body"], q), s)
            self.summarise(v, None, body, st, headctx=ctx)
        finally:
            self.ctxs.pop()
        if not ctx.items and not st.alive:
            return NEVER
        return self.finish_ctx(ctx, st, UNIT)

    # run the body once on a state with given leaf values, capturing exits
    def _run_once(self, body, st, leaves, w):
        s = st.copy()
        for (k, path), t in leaves.items():
            s.env[k] = setpath(s.env[k], path, t)
        marks = [(c, len(c.items)) for c in self.ctxs]
        bases = [c.base for c in self.ctxs]
        npan = len(self.panics)
        base = len(s.pc)
        self.sync(s)
        body(s, w)
        caught = []
        for c, n in marks:
            new = c.items[n:]
            del c.items[n:]
            for (cond, v, env) in new:
                # conditions were taken relative to the context base; re-relativise to the loop body
                caught.append((c, cond, v, env))
        self.sync(st)
        return s, caught, npan, base

    def summarise(self, v, dom, body, st, headctx=None):
        """summarise `for v in dom { body }` (dom None: while loop, v counts iterations)"""
        if dom is not None and dom.op == "range" and ge0(sub(sub(dom.a[1], dom.a[0]), ONE)) is FALSE:
            return
        pc_before = list(st.pc)
        # exits must be relative to the loop body: use a fresh marker base
        old_bases = [(c, c.base) for c in self.ctxs]
        base = len(st.pc)
        outer_rel = {}
        for c in self.ctxs:
            outer_rel[c] = self.rel(st, c.base)
            c.base = base
        env0, pc0, alive0, npan0 = dict(st.env), list(st.pc), st.alive, len(self.panics)
        marks = [(c, len(c.items)) for c in self.ctxs]
        try:
            try:
                self._summarise(v, dom, body, st, headctx, outer_rel, base)
            except Unsupported as ex:
                if getattr(ex, "hard", False) or self.noloopterm:
                    raise
                # recurrence: keep the loop as the fixpoint of its transition relation
                st.env, st.pc, st.alive = dict(env0), list(pc0), alive0
                del self.panics[npan0:]
                for c, k in marks:
                    del c.items[k:]
                self.sync(st)
                self.loop_term(v, dom, body, st, headctx, outer_rel, base)
        finally:
            for c, b in old_bases:
                c.base = b

    noloopterm = False
    havoc = False
    looprecs = ()

    def loop_term(self, v, dom, body, st, headctx, outer_rel, base):
        mus, inits = {}, {}
        for rounds in range(14):
            npan = len(self.panics)
            s, caught, npan, b0 = self._run_once(body, st, mus, v)
            changed = False
            for k, t0 in st.env.items():
                for env in ([s.env] if s.alive else []) + [c[3] for c in caught]:
                    t1 = env.get(k)
                    if t1 is None:
                        continue
                    cur = t0
                    for (kk, path), t in mus.items():
                        if kk == k:
                            cur = setpath(cur, path, t)
                    if t1 is cur:
                        continue
                    for path in diff_leaves(cur, t1, ()):
                        if (k, path) in mus or any(kk == k and path[:len(p)] == p for kk, p in mus):
                            continue
                        for p in [p for (kk, p) in mus if kk == k and p[:len(path)] == path]:
                            mus.pop((k, p)), inits.pop((k, p))
                        m = fresh(None, "mu")
                        inits[(k, path)] = getpath(t0, path)
                        mus[(k, path)] = m
                        MUTYPE[m] = inits[(k, path)]
                        changed = True
            if not changed:
                break
            del self.panics[npan:]
        else:
            raise Unsupported("loop state does not stabilise")
        order = sorted(mus, key=str)
        posts = [getpath(s.env[k], p) if s.alive else mus[(k, p)] for k, p in order]
        exits = []
        for (c, cond, val, env) in caught:
            exits.append((c, cond, val, env, [getpath(env[k], p) for k, p in order]))
        pans = [and_(*pcs[base:]) for what, pcs, fn, sp in self.panics[npan:]]
        # Euclid's algorithm
        g = self.euclid(dom, order, mus, inits, posts, exits, headctx)
        if g is None and self.havoc and (len(exits) == 1 and dom is None or all(lv[i] is mus[order[i]] for _, _, _, _, lv in exits for i in range(len(order)))):
            # keep the exit state symbolic; the transitions are recorded for an inductive argument
            wl = exits[0][4] if dom is None and len(exits) == 1 else [mus[lf] for lf in order]
            L = mk("wl", I(len(self.looprecs)), mus[order[0]] if order else UNIT)
            self.looprecs.append(dict(order=order, mus=[mus[lf] for lf in order], inits=[inits[lf] for lf in order], posts=posts, live=s.alive,
                                      exits=[(cond, val, lv) for c, cond, val, env, lv in exits], panics=or_(*pans), dom=dom, var=v))
            if or_(*pans) is FALSE:
                del self.panics[npan:]
        elif g is not None:
            wl = g
            L = None
        else:
            rows = [mk("pack", *posts)] + [mk("pack", cond, val if val is not None else UNIT, *lv) for c, cond, val, env, lv in exits]
            t = mk("pack", mk("pack", or_(*pans)), *rows)
            bs = []
            for lf in order:
                b, t = close(mus[lf], t)
                bs.append(b)
            b, t = close(v, t)
            L = mk("loopt", b, dom if dom is not None else mk("inf"), mk("pack", *[inits[lf] for lf in order]), mk("pack", *bs), t)
            wl = [mk("wl", I(i), L) for i in range(len(order))]
            for i, lf in enumerate(order):
                if is_bool(inits[lf]):
                    wl[i] = mk("wlb", I(i), L)
        env2 = dict(st.env)
        for lf, x in zip(order, wl):
            env2[lf[0]] = setpath(env2[lf[0]], lf[1], x)
        for i in range(npan, len(self.panics)):
            what, pcs, fn, sp = self.panics[i]
            self.panics[i] = (what, tuple(pcs[:base]) + (mk("wpan", L) if L is not None else FALSE,), fn, sp)
        single = len(exits) == 1 and dom is None
        conds = []
        for j, (c, cond, val, env, lv) in enumerate(exits):
            x = TRUE if single else mk("wx", I(j), L)
            conds.append(x)
            v2 = None
            if val is not None:
                v2 = UNIT if val is UNIT else mk("wv", L)
                if is_bool(val):
                    v2 = eq(mk("wv", L), TRUE) if val not in (TRUE, FALSE) else val
            c.items.append((and_(outer_rel[c], x), v2, env2))
        st.env = env2
        if dom is None:
            st.alive = False
        else:
            for x in conds:
                st.pc.append(not_(x))
        self.sync(st)

    def euclid(self, dom, order, mus, inits, posts, exits, headctx):
        if dom is not None or len(order) != 2 or len(exits) != 1:
            return None
        c, cond, val, env, lv = exits[0]
        for i in (0, 1):
            a, b = mus[order[i]], mus[order[1 - i]]
            if posts[i] is b and posts[1 - i] in (mk("mod", a, b), mk("rem", a, b)) and cond in (eq0(b), eq(b, ZERO)) and lv[i] is a and lv[1 - i] in (b, ZERO):
                r = [None, None]
                x, y = inits[order[i]], inits[order[1 - i]]
                if x.key > y.key:
                    x, y = y, x
                r[i] = gcd_(x, y)
                r[1 - i] = ZERO
                return r
        return None

    def _summarise(self, v, dom, body, st, headctx, outer_rel, base):
        leaves = {}     # (key,path) -> current symbolic value (mu or closed form)
        mus = {}        # (key,path) -> mu
        closed = {}     # (key,path) -> function(lo_excl_end v) -> term   (prefix form)
        inits = {}
        rounds = 0
        bound = None
        while True:
            rounds += 1
            if rounds > 14:
                raise Unsupported("loop summary does not stabilise")
            s, caught, npan, b0 = self._run_once(body, st, leaves, v)
            finals = ([(TRUE, s.env)] if s.alive else [])
            changed = False
            for k, t0 in st.env.items():
                for env in [f[1] for f in finals] + [c[3] for c in caught]:
                    t1 = env.get(k)
                    if t1 is None:
                        continue
                    cur = t0
                    for (kk, path), t in leaves.items():
                        if kk == k:
                            cur = setpath(cur, path, t)
                    if t1 is cur:
                        continue
                    for path in diff_leaves(cur, t1, ()):
                        # a leaf below or above an existing one
                        if (k, path) in leaves:
                            continue
                        below = [p for (kk, p) in leaves if kk == k and p[:len(path)] == path]
                        above = [p for (kk, p) in leaves if kk == k and path[:len(p)] == p]
                        if above:
                            continue
                        for p in below:
                            for d in (leaves, mus, closed, inits):
                                d.pop((k, p), None)
                        m = fresh(None, "mu")
                        init = getpath(t0, path)
                        inits[(k, path)] = init
                        leaves[(k, path)] = m
                        mus[(k, path)] = m
                        MUTYPE[m] = init
                        changed = True
            if changed:
                del self.panics[npan:]
                continue
            # try to resolve unresolved leaves
            unresolved = {lf: m for lf, m in mus.items() if lf not in closed}
            if not unresolved:
                if headctx is not None and bound is None:
                    r = self.find_bound(v, caught, headctx, st, leaves, unresolved)
                    if r is not None:
                        bound = r
                        TM.FVDOM[v] = mk("range", ZERO, bound)
                        dom = TM.FVDOM[v]
                        del self.panics[npan:]
                        closed_done = True
                        continue
                    if not self.trivial_while(caught, headctx, s):
                        raise Unsupported("while loop bound")
                break
            mset = set(unresolved.values())
            progress = False
            exit_terms = [c[1] for c in caught] + [c[2] for c in caught if c[2] is not None]
            for lf, m in list(unresolved.items()):
                post = getpath(s.env[lf[0]], lf[1]) if s.alive else m
                f = self.classify(m, inits[lf], post, v, dom, mset)
                if f is not None:
                    closed[lf] = f
                    progress = True
            if not progress and headctx is not None and bound is None:
                # a bound that depends on resolved leaves only
                r = self.find_bound(v, caught, headctx, st, leaves, unresolved)
                if r is not None:
                    bound = r
                    TM.FVDOM[v] = mk("range", ZERO, bound)
                    dom = TM.FVDOM[v]
                    progress = True
            if not progress and not self.noflush:
                # a file and a string buffer that is flushed to it from time to time
                f = self.flush_pair(unresolved, inits, s, v, dom)
                if f is not None:
                    closed.update(f)
                    progress = True
            if not progress:
                # general fold over the remaining leaves
                f = self.fold_leaves(unresolved, inits, s, v, dom, caught)
                if f is None:
                    raise Unsupported("no closed form for loop variable(s) %s in %s: %s" % (
                        [lf[0][1] for lf in unresolved], self.stack[-1] if self.stack else "",
                        [show(getpath(s.env[lf[0]], lf[1]), 6) for lf in unresolved][:2]))
                closed.update(f)
                progress = True
            # replace resolved mus by their prefix forms where others mention them
            need = set()
            for lf, m in mus.items():
                if lf in closed and leaves[lf] is m:
                    used = False
                    for lf2, m2 in mus.items():
                        post = getpath(s.env[lf2[0]], lf2[1]) if s.alive else m2
                        if lf2 is not lf and lf2 != lf and m in post.fvs:
                            used = True
                    for c in caught:
                        if m in c[1].fvs or (c[2] is not None and m in c[2].fvs):
                            used = True
                        for k2, t2 in c[3].items():
                            if m in t2.fvs and k2 in st.env:
                                used = True
                    if used:
                        need.add(lf)
            if need:
                lo = dom.a[0] if dom is not None and dom.op == "range" else (ZERO if dom is None else None)
                for lf in need:
                    if lo is None:
                        # unordered domain: prefix values are not defined
                        if any(mus[lf] in c[1].fvs or (c[2] is not None and mus[lf] in c[2].fvs) for c in caught) or True:
                            raise Unsupported("prefix value over an unordered domain")
                    leaves[lf] = closed[lf](mk("range", lo, v))
                del self.panics[npan:]
                # unresolved classification must be redone with the refined values
                continue
            if all(lf in closed for lf in mus):
                if headctx is not None and bound is None:
                    r = self.find_bound(v, caught, headctx, st, leaves, {})
                    if r is not None:
                        bound = r
                        TM.FVDOM[v] = mk("range", ZERO, bound)
                        dom = TM.FVDOM[v]
                        del self.panics[npan:]
                        continue
                    if not self.trivial_while(caught, headctx, s):
                        raise Unsupported("while loop bound in %s" % (self.stack[-1] if self.stack else ""))
                break
        # exits
        if headctx is not None and bound is not None:
            caught = self.strip_bound(v, caught, headctx, bound, leaves, st)
        if dom is None:
            dom = mk("range", ZERO, ONE)   # trivial_while: the body runs at most once
            TM.FVDOM[v] = dom
        any_ = or_(*[c[1] for c in caught])
        left = set(mus[lf] for lf in mus if leaves[lf] is mus[lf])
        if any(any_.fvs & left for _ in [0]):
            raise Unsupported("exit depends on loop-carried state")
        out_items = []
        if caught:
            lo = dom.a[0] if dom.op == "range" else None
            kinds = {}
            for (c, cond, val, env) in caught:
                # leaf values at the exit
                lv = {}
                for lf in mus:
                    lv[lf] = getpath(env[lf[0]], lf[1])
                key = (id(c), val, tuple(sorted(((str(lf), t.key) for lf, t in lv.items()))))
                if key in kinds:
                    kinds[key] = (c, or_(kinds[key][1], cond), val, env, lv)
                else:
                    kinds[key] = (c, cond, val, env, lv)
            multi = len(kinds) > 1
            for (c, cond, val, env, lv) in kinds.values():
                dep = (val is not None and v in val.fvs) or any(v in t.fvs for t in lv.values())
                bad = [t for t in list(lv.values()) + ([val] if val is not None else []) if t.fvs & left]
                if bad:
                    raise Unsupported("exit value depends on loop-carried state")
                if multi or dep:
                    if lo is None:
                        raise Unsupported("first-match over an unordered domain")
                    w = fresh(mk("range", lo, v))
                    at = and_(cond, forall(w, mk("range", lo, v), not_(subst(any_, {v: w}))))
                    ec = exists(v, dom, at)
                    pick = (lambda t: t if v not in t.fvs else mkb("pick", v, dom, (any_, t)))
                else:
                    ec = exists(v, dom, cond)
                    pick = lambda t: t
                env2 = dict(st.env)
                for lf, t in lv.items():
                    env2[lf[0]] = setpath(env2[lf[0]], lf[1], pick(t))
                out_items.append((c, ec, pick(val) if val is not None else None, env2))
        # leaf values after normal completion
        if s.alive:
            env = dict(st.env)
            for lf, m in mus.items():
                env[lf[0]] = setpath(env[lf[0]], lf[1], closed[lf](dom))
            st.env = env
        # panics inside the body: quantify
        for i in range(npan, len(self.panics)):
            what, pcs, fn, sp = self.panics[i]
            self.panics[i] = (what, tuple(pcs[:base]) + (exists(v, dom, and_(*pcs[base:])),), fn, sp)
        noexit = TRUE
        for (c, ec, val, env2) in out_items:
            full = and_(outer_rel[c], ec)
            c.items.append((full, val, env2))
            noexit = and_(noexit, not_(ec))
        if not s.alive:
            # the body never completes: only the empty loop falls through
            if caught:
                ne = nonempty(dom)
            else:
                ne = nonempty(dom)
            st.pc.append(not_(ne))
            if not_(ne) is FALSE:
                st.alive = False
        elif noexit is not TRUE:
            st.pc.append(noexit)
            if noexit is FALSE:
                st.alive = False
        if bound is None and headctx is not None:
            st.alive = False
        self.sync(st)

    def trivial_while(self, caught, headctx, s):
        """a loop whose body always leaves in its first iteration"""
        return not s.alive

    def find_bound(self, v, caught, headctx, st, leaves, unresolved):
        for (c, cond, val, env) in caught:
            if c is not headctx:
                continue
            # the state at the exit must be the head state
            ok = True
            for k, t0 in st.env.items():
                cur = t0
                for (kk, path), t in leaves.items():
                    if kk == k:
                        cur = setpath(cur, path, t)
                if env.get(k) is not cur:
                    ok = False
            if not ok:
                continue
            for d in (cond.a if cond.op == "or" else (cond,)):
                n = lin_first(d, v)
                if n is not None:
                    return n
        return None

    def strip_bound(self, v, caught, headctx, bound, leaves, st):
        """drop the exit that is the loop bound (false for all v < bound)"""
        out = []
        for (c, cond, val, env) in caught:
            if c is headctx:
                ds = list(cond.a) if cond.op == "or" else [cond]
                ds = [d for d in ds if lin_first(d, v) is not bound]
                cond = or_(*ds)
                if cond is FALSE:
                    continue
            out.append((c, cond, val, env))
        return out

    def classify(self, m, init, post, v, dom, mset):
        """closed form of a loop-carried leaf: returns f(range) -> term, or None"""
        if post is m:
            return lambda d: init
        lm = mk("len", m)
        if m in post.fvs and is_seqlike(init) and TM.occurs(lm, post):
            # a loop body that preserves the length
            p2 = subst(post, {lm: seqlen(init)})
            if seqlen(p2) is seqlen(init):
                post = p2
        others = post.fvs & mset
        if m not in post.fvs:
            if others:
                return None
            # overwritten each iteration: last value
            def last(d):
                if v not in post.fvs:
                    return ite(nonempty(d), post, init)
                if d.op != "range":
                    raise Unsupported("last element of an unordered domain")
                return ite(nonempty(d), subst(post, {v: sub(d.a[1], ONE)}), init)
            return last
        if others - {m}:
            return None
        # boolean accumulators
        if is_bool(init) or is_bool(post):
            p1 = subst(post, {m: TRUE})
            p0 = subst(post, {m: FALSE})
            if p0 is FALSE and m not in p1.fvs:
                return lambda d: self._q(forall, v, d, p1, init, True)
            if p1 is TRUE and m not in p0.fvs:
                return lambda d: self._q(exists, v, d, p0, init, False)
            return None
        # numeric accumulators
        dl = delta_num(m, post)
        if dl is not None and m not in dl.fvs:
            ty = wrapty(post, m)

            def f(d):
                w = fresh(d)
                return add(init, msum(ty, w, d, subst(dl, {v: w})))
            return f
        ap = delta_list(m, post)
        if ap is not None and m not in ap.fvs:
            def g(d):
                w = fresh(d)
                return cat(init, flatmany(w, d, TRUE, subst(ap, {v: w}))) if ap.op != "vec" or ap.a else init
            return g
        ap = delta_str(m, post)
        if ap is not None and m not in ap.fvs:
            def h(d):
                w = fresh(d)
                return scat(init, smap(w, d, TRUE, subst(ap, {v: w})))
            return h
        ap = delta_set(m, post)
        if ap is not None and m not in ap.fvs:
            def hs(d):
                w = fresh(d)
                base = init.a[0] if init.op == "set" else mk("elems", init)
                return mk("set", cat(base, flatmany(w, d, TRUE, subst(ap, {v: w}))))
            return hs
        from .models import delta_hmap
        ap = delta_hmap(m, post)
        if ap is not None and m not in ap.fvs:
            def hh(d):
                w = fresh(d)
                base = init.a[0] if init.op == "hmap" else mk("kvs", init)
                return mk("hmap", cat(base, flatmany(w, d, TRUE, subst(ap, {v: w}))))
            return hh
        ap = delta_fx(m, post)
        if ap is not None and m not in ap.fvs:
            def hf(d):
                w = fresh(d)
                return mk("fx", init, flatmany(w, d, TRUE, subst(ap, {v: w})))
            return hf
        r = self.cellwise(m, init, post, v, dom, mset)
        if r is not None:
            return r
        au = delta_arr(m, post, v)
        if au is not None:
            def k(d):
                return array_closed(init, m, au, v, d)
            return k
        # coordinate-wise vector of small constant length
        if init.op == "vec" and 0 < len(init.a) <= 16 and post.op == "vec" and len(post.a) == len(init.a):
            mus = [sel(m, I(i)) for i in range(len(init.a))]
            fs = []
            for i, x in enumerate(post.a):
                mi = fresh(None, "mu")
                MUTYPE[mi] = init.a[i]
                px = subst(x, {mus[i]: mi})
                if m in px.fvs:
                    return None
                f1 = self.classify(mi, init.a[i], px, v, dom, mset)
                if f1 is None:
                    return None
                fs.append(f1)
            return lambda d: mk("vec", *[f1(d) for f1 in fs])
        return None

    def cellwise(self, m, init, post, v, dom, mset):
        """every cell of an array evolves on its own, or a single cell does"""
        if post.op == "lam" and is_seqlike(init) and post.a[0] is seqlen(init):
            w = fresh(mk("range", ZERO, post.a[0]))
            own = sel(m, w)
            body = sel(post, w)
            mi = fresh(None, "mu")
            ini = sel(init, w)
            MUTYPE[mi] = ini
            b2 = subst(body, {own: mi})
            if m in b2.fvs and dom is not None and dom.op == "range":
                # reads of other rows at positions that no earlier iteration writes in any row
                ws = row_writes(b2, mi)
                if ws and all(not (i.fvs & (mset | {mi, w})) and m not in i.fvs and not i.bvmax for i in ws):
                    rep = {}
                    for x in find_ops(b2, ("sel",)):
                        if x.a[0].op == "sel" and x.a[0].a[0] is m and m not in x.a[0].a[1].fvs and v not in x.a[0].a[1].fvs and m not in x.a[1].fvs and not x.bvmax:
                            if all(untouched(x.a[1], i, v, dom) for i in ws):
                                rep[x] = sel(sel(init, x.a[0].a[1]), x.a[1])
                    b2 = subst(b2, rep)
            if m in b2.fvs:
                return None
            f1 = self.classify(mi, ini, b2, v, dom, mset)
            if f1 is None:
                return None
            return lambda d: lam(post.a[0], w, f1(d))
        if post.op == "upd" and post.a[0] is m and v not in post.a[1].fvs and m not in post.a[1].fvs:
            i = post.a[1]
            own = sel(m, i)
            mi = fresh(None, "mu")
            ini = sel(init, i)
            MUTYPE[mi] = ini
            b2 = subst(post.a[2], {own: mi})
            if m in b2.fvs:
                # cells of the array other than this one keep their initial value
                b2 = subst(b2, {x: ite(eq(x.a[1], i), mi, sel(init, x.a[1])) for x in find_ops(b2, ("sel",)) if x.a[0] is m and m not in x.a[1].fvs and not x.a[1].bvmax})
            if m in b2.fvs or mi not in b2.fvs:
                return None
            f1 = self.classify(mi, ini, b2, v, dom, mset)
            if f1 is None:
                return None
            return lambda d: upd(init, i, f1(d))
        return None

    def _q(self, q, v, d, p, init, conj):
        w = fresh(d)
        r = q(w, d, subst(p, {v: w}))
        return and_(init, r) if conj else or_(init, r)

    noflush = False

    def flush_pair(self, unresolved, inits, s, v, dom):
        """leaves F (effects) and B (string) with  written(F) . B  growing by a string that depends on neither.

        Each of the two keeps an unknown part of the total T: F gets the event write(file, sbut(T)), B is srest(T), and the
        concatenation sbut(T) . srest(T) is T."""
        from .models import FX
        if dom is None or not s.alive:
            return None
        fl = [lf for lf in unresolved if lf[0] == FX and lf[1] == ()]
        if len(fl) != 1:
            return None
        fl = fl[0]
        mf = unresolved[fl]
        pf = getpath(s.env[fl[0]], fl[1])
        for bl, mb in unresolved.items():
            if bl == fl or inits[bl].op not in ("str", "scat", "fv", "srest", "ite"):
                continue
            pb = getpath(s.env[bl[0]], bl[1])
            if (pf.fvs | pb.fvs) & (set(unresolved.values()) - {mf, mb}) or mf in pb.fvs:
                continue
            d = delta_list(mf, pf)
            if d is None or mf in d.fvs:
                continue
            files = []
            d = event_text(d, files)
            if d is None or len(set(files)) != 1 or mb in files[0].fvs or v in files[0].fvs:
                continue
            q = case_join(d, pb, mb)
            if q is None:
                continue
            ap = delta_str(mb, q)
            if ap is None or mb in ap.fvs:
                continue
            ident = I(next(_flushid))

            def total(dd, ap=ap, bl=bl):
                w = fresh(dd)
                return scat(inits[bl], TM.smap(w, dd, TRUE, subst(ap, {v: w})))

            def ff(dd):
                return TM.cat(inits[fl], mk("vec", mk("ev", "write", files[0], mk("sbut", total(dd), ident))))

            def fb(dd):
                return mk("srest", total(dd), ident)
            return {fl: ff, bl: fb}
        return None

    def fold_leaves(self, unresolved, inits, s, v, dom, caught):
        """generic fold term for each leaf that evolves on its own"""
        if dom is None or not s.alive:
            return None
        if len(unresolved) > 1:
            out = {}
            for lf, m in unresolved.items():
                if not getpath(s.env[lf[0]], lf[1]).fvs & (set(unresolved.values()) - {m}):
                    out.update(self.fold_leaves({lf: m}, inits, s, v, dom, caught))
            return out or None
        (lf, m), = unresolved.items()
        post = getpath(s.env[lf[0]], lf[1])
        init = inits[lf]

        def f(d):
            w = fresh(d)
            mu = fresh(None, "mu")
            body = subst(post, {v: w, m: mu})
            b1, body1 = close(mu, body)
            b2, body2 = close(w, mk("pack", b1, body1))
            return mk("foldt", b2, d, init, body2)
        return {lf: f}


def is_seqlike(t):
    return t.op in ("arr", "lam", "vec", "upd", "updmany") or (t.op == "ite" and is_seqlike(t.a[1])) or (t.op == "sel" and t.a[0].op in ("arr", "fv", "lam"))


def gcd_(x, y):
    """gcd of two non-negative integers, arguments in canonical order"""
    if x.op == "ite":
        return ite(x.a[0], gcd_(x.a[1], y), gcd_(x.a[2], y))
    if y.op == "ite" :
        return ite(y.a[0], gcd_(x, y.a[1]), gcd_(x, y.a[2]))
    import math
    if x.op == "int" and y.op == "int":
        return I(math.gcd(x.a[0], y.a[0]))
    if x.key > y.key:
        x, y = y, x
    return mk("gcd", x, y)


MUTYPE = {}
PYFN = {}
CONSTS = {"core::f64::consts::PI": mk("sym", "PI", "f64"), "core::usize::MAX": I(2**64 - 1), "core::isize::MAX": I(2**63 - 1)}


def fn_(n):
    return int(n) if isinstance(n, str) and n.isdigit() else n


def json_key(c):
    if c.get("ctor"):
        return "ctor:" + (c.get("ctorof") or c["path"])
    if c.get("reslocal"):
        return c["reskey"]
    if c.get("local"):
        return c["key"]
    return c["path"]


def is_derived(b):
    mac = b["root"].get("mac") if isinstance(b["root"], dict) else None
    def first(x):
        if isinstance(x, dict):
            if x.get("mac"):
                return x["mac"]
            for k in ("e", "b", "expr", "stmts"):
                if x.get(k):
                    r = first(x[k])
                    if r:
                        return r
        if isinstance(x, list):
            for y in x:
                r = first(y)
                if r:
                    return r
        return None
    m = mac or first(b["root"])
    return bool(m) and any(z in m for z in ("PartialEq", "Clone", "Hash", "Debug", "PartialOrd", "Ord", "Eq"))


def has_ref(t):
    return t.op == "ref" or (t.op == "ite" and (has_ref(t.a[1]) or has_ref(t.a[2])))


def is_iterref(t):
    return t.op in ("refs", "zipl")


def has_let(c):
    while c["k"] == "scope":
        c = c["e"]
    if c["k"] == "let":
        return True
    if c["k"] == "logic":
        return has_let(c["l"]) or has_let(c["r"])
    return False


def ext(p, step):
    if p[0] == "tmp":
        if has_ref(p[1]):
            raise Unsupported("projection of a reference temporary")
        return ("tmp", getpath(p[1], (step,)))
    if p[0] == "itep":
        return ("itep", p[1], ext(p[2], step), ext(p[3], step))
    return (p[0], p[1], p[2], tuple(p[3]) + (step,))


def getpath(t, path):
    for s in path:
        if s[0] == "f":
            t = qfield(t, s[1])
        elif s[0] == "i":
            t = sel(t, s[1])
        elif s[0] == "p":
            t = payload(t, s[1], s[2], s[3])
        elif s[0] == "k":
            t = payload(hget(t, s[1]), "core::option::Option", "Some", 0)
    return t


def hget(m, k):
    """what a map holds under a key"""
    if m.op == "hmap":
        x = m.a[0]
        last = x.a[-1] if x.op == "cat" else x
        if last.op == "vec" and last.a and last.a[-1].op == "tuple" and last.a[-1].a[0] is k:
            return mk("enum", "core::option::Option", "Some", (last.a[-1].a[1],))
        if x is mk("vec"):
            return mk("enum", "core::option::Option", "None", ())
    if m.op == "ite":
        return ite(m.a[0], hget(m.a[1], k), hget(m.a[2], k))
    return mk("hget", m, k)


def hput(m, k, v):
    return mk("hmap", cat(m.a[0] if m.op == "hmap" else mk("kvs", m), mk("vec", mk("tuple", k, v))))


def qfield(t, n):
    if t.op == "quat":
        return t.a[{"s": 0}[n]] if n == "s" else mk("vec3", *t.a[1:])
    if t.op == "vec3":
        return t.a["xyz".index(n)]
    return field(t, n)


def setpath(t, path, v):
    if not path:
        return v
    s, rest = path[0], path[1:]
    if s[0] == "f":
        return setfield(t, s[1], setpath(field(t, s[1]), rest, v))
    if s[0] == "i":
        return upd(t, s[1], setpath(sel(t, s[1]), rest, v))
    if s[0] == "p":
        if t.op == "enum" and t.a[1] == s[2]:
            xs = list(t.a[2])
            xs[s[3]] = setpath(xs[s[3]], rest, v)
            return mk("enum", t.a[0], t.a[1], tuple(xs))
        return mk("setpay", t, s[1], s[2], s[3], setpath(payload(t, s[1], s[2], s[3]), rest, v))
    if s[0] == "k":
        return hput(t, s[1], setpath(getpath(t, (s,)), rest, v))
    raise Unsupported("path step")


def diff_leaves(a, b, path):
    """paths at which b differs from a, exploding structs and tuples"""
    if a is b:
        return []
    if a.op == "struct" and b.op == "struct" and a.a[0] == b.a[0]:
        out = []
        for (n, x), (_, y) in zip(a.a[1], b.a[1]):
            out += diff_leaves(x, y, path + (("f", n),))
        return out
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a) and a.a:
        out = []
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            out += diff_leaves(x, y, path + (("f", i),))
        return out
    return [path]


_facts_memo = {}


def facts(pc):
    out = []
    for c in pc:
        f = _facts_memo.get(c)
        if f is None:
            f = []
            st = [c]
            while st:
                x = st.pop()
                if x.op == "and":
                    st.extend(x.a)
                elif x.op == "ge0":
                    f.append(x.a[0])
                elif x.op == "eq0":
                    f.append(x.a[0])
                    f.append(neg(x.a[0]))
            _facts_memo[c] = f
        out += f
    return out


def lin_first(d, v):
    """smallest v >= 0 at which condition d (monotone linear in v) becomes true"""
    if d.op == "ge0":
        p = poly(d.a[0])
        c = p.get((v,), 0)
        if c <= 0 or any(v in x.fvs for m in p for x in m if m != (v,)):
            return None
        r = unpoly({m: k for m, k in p.items() if m != (v,)})
        nr = neg(r)
        if c != 1:
            # ceil(nr / c)
            nr = mk_div(add(nr, I(c - 1)), I(c))
        return max0(nr)
    if d.op == "eq0":
        p = poly(d.a[0])
        c = p.get((v,), 0)
        if abs(c) != 1 or any(v in x.fvs for m in p for x in m if m != (v,)):
            return None
        r = unpoly({m: k for m, k in p.items() if m != (v,)})
        n = neg(r) if c == 1 else r
        if prove_ge0(n):
            return n
    return None


def delta_num(m, post):
    if post.op == "ite":
        if m in post.a[0].fvs:
            return None
        x, y = delta_num(m, post.a[1]), delta_num(m, post.a[2])
        if x is None or y is None:
            return None
        return ite(post.a[0], x, y)
    if post.op == "wrap":
        return delta_num(m, post.a[1])
    if post is m:
        return ZERO
    if post.op == "poly":
        d = poly(post)
        if d.get((m,)) == 1 and not any(m in x.fvs for mm in d if mm != (m,) for x in mm):
            return unpoly({mm: c for mm, c in d.items() if mm != (m,)})
    if post.op == "quat":
        pass
    return None


def wrapty(post, m):
    w = find_ops(post, ("wrap",))
    return w[0].a[0] if w else ACCTY.get(m, "")


ACCTY = {}


def delta_list(m, post):
    if post.op == "ite":
        if m in post.a[0].fvs:
            return None
        x, y = delta_list(m, post.a[1]), delta_list(m, post.a[2])
        if x is None or y is None:
            return None
        return ite(post.a[0], x, y)
    if post is m:
        return mk("vec")
    if post.op == "cat" and post.a[0] is m:
        return cat(*post.a[1:])
    return None


def delta_str(m, post):
    if post.op == "ite":
        if m in post.a[0].fvs:
            return None
        x, y = delta_str(m, post.a[1]), delta_str(m, post.a[2])
        if x is None or y is None:
            return None
        return ite(post.a[0], x, y)
    if post is m:
        return S("")
    if post.op == "scat" and post.a[0] is m:
        return scat(*post.a[1:])
    return None


_flushid = itertools.count(1)


def event_text(d, files):
    """what a list of write events adds to the one file it writes to"""
    if d.op == "vec":
        out = []
        for ev in d.a:
            if ev.op != "ev" or ev.a[0] != "write":
                return None
            files.append(ev.a[1])
            out.append(ev.a[2])
        return scat(*out)
    if d.op == "ite":
        x, y = event_text(d.a[1], files), event_text(d.a[2], files)
        return None if x is None or y is None else ite(d.a[0], x, y)
    if d.op == "cat":
        xs = [event_text(x, files) for x in d.a]
        return None if any(x is None for x in xs) else scat(*xs)
    return None


def case_join(x, y, m, depth=8):
    """concatenation of two strings, the cases of both distinguished"""
    c = first_cond(x, m) or first_cond(y, m)
    if c is None:
        return scat(x, y)
    if depth == 0:
        return None
    a = case_join(TM.implies_under(c, x, True), TM.implies_under(c, y, True), m, depth - 1)
    b = case_join(TM.implies_under(c, x, False), TM.implies_under(c, y, False), m, depth - 1)
    return None if a is None or b is None else ite(c, a, b)


def first_cond(x, m):
    """an atomic condition the occurrence of m in a string depends on"""
    if x.op == "ite":
        c = x.a[0]
        while c.op in ("and", "or"):
            c = c.a[0]
        return c
    if x.op == "scat":
        for y in x.a:
            c = first_cond(y, m) if m in y.fvs else None
            if c is not None:
                return c
    return None


def delta_set(m, post):
    if post.op == "ite":
        if m in post.a[0].fvs:
            return None
        x, y = delta_set(m, post.a[1]), delta_set(m, post.a[2])
        if x is None or y is None:
            return None
        return ite(post.a[0], x, y)
    if post is m:
        return mk("vec")
    if post.op == "set" and post.a[0].op == "cat" and post.a[0].a[0].op == "elems" and post.a[0].a[0].a[0] is m:
        return cat(*post.a[0].a[1:])
    return None


def delta_fx(m, post):
    if post.op == "ite":
        if m in post.a[0].fvs:
            return None
        x, y = delta_fx(m, post.a[1]), delta_fx(m, post.a[2])
        if x is None or y is None:
            return None
        return ite(post.a[0], x, y)
    if post is m:
        return mk("vec")
    if post.op == "fx" and post.a[0] is m:
        return post.a[1]
    if post.op == "fx":
        x = delta_fx(m, post.a[0])
        if x is not None:
            return cat(x, post.a[1])
    return None


def delta_arr(m, post, v):
    """list of (guard, idx, val) applied in order, or None.  val/idx/guard may use m only as sel(m, idx)"""
    if post is m:
        return []
    if post.op == "upd":
        r = delta_arr(m, post.a[0], v)
        if r is None:
            return None
        return r + [(TRUE, post.a[1], post.a[2])]
    if post.op == "ite":
        x, y = delta_arr(m, post.a[1], v), delta_arr(m, post.a[2], v)
        if x is None or y is None or any(u[0] == "many" for u in x + y):
            return None
        c = post.a[0]
        return [(and_(c, g), i, t) for g, i, t in x] + [(and_(not_(c), g), i, t) for g, i, t in y]
    if post.op == "updmany" and m in post.a[2].fvs:
        r = delta_arr(m, post.a[2], v)
        if r is None or r:
            return None
        return [("many", post)]
    return None


def _affine(idx, v):
    d = poly(idx)
    c = d.get((v,), 0)
    if any(v in x.fvs for mm in d for x in mm if mm != (v,)):
        return None
    return c, unpoly({mm: k for mm, k in d.items() if mm != (v,)})


def array_closed(init, m, ups, v, d):
    if len(ups) > 1 and all(u[0] != "many" for u in ups) and len(set(u[1] for u in ups)) == 1:
        idx = ups[0][1]
        own = sel(m, idx)
        cur = own
        for g, i, t in ups:
            cur = ite(g, t, cur)
        ups = [(TRUE, idx, cur)]
    if len(ups) == 1 and ups[0][0] != "many":
        g, idx, val = ups[0]
        own = sel(m, idx)
        g1, val1 = subst(g, {own: mk("own")}), subst(val, {own: mk("own")})
        if (m in g1.fvs or m in val1.fvs) and d.op == "range":
            early = unwritten(mk("pack", g1, val1), m, init, idx, v, d)
            g1, val1 = subst(g1, early), subst(val1, early)
        if m not in g1.fvs and m not in val1.fvs and d.op == "range":
            lo, hi = d.a
            af = _affine(idx, v)
            if af is not None and af[0] in (1, -1):
                c, off = af
                n = seqlen(init)
                k = fresh(mk("range", ZERO, n))
                # idx = c*v + off = k  -> v = c*(k - off)
                vk = scale(sub(k, off), c)
                old = sel(init, k)
                inr = and_(le(lo, vk), lt(vk, hi))
                mp = {v: vk, mk("own"): old}
                body = ite(and_(inr, subst(g1, mp)), subst(val1, mp), old)
                return lam(n, k, body)
            if af is not None and af[0] == 0 and v not in idx.fvs:
                # same cell every iteration: last guarded value if it does not depend on itself
                if mk("own") not in _atoms(val1) and g1 is TRUE:
                    return ite(nonempty(d), upd(init, idx, subst(val1, {v: sub(hi, ONE)})), init)
                dl = delta_num(mk("own2"), subst(val1, {mk("own"): mk("own2")}))
            # idx = (c*v+off) mod n over the full cycle
            if idx.op == "mod" and lo is ZERO and hi is idx.a[1] and seqlen(init) is hi:
                af = _affine(idx.a[0], v)
                if af is not None and af[0] in (1, -1) and g1 is TRUE:
                    c, off = af
                    k = fresh(mk("range", ZERO, hi))
                    vk = mk_mod(scale(sub(k, off), c), hi)
                    mp = {v: vk, mk("own"): sel(init, k)}
                    return lam(hi, k, subst(val1, mp))
    # generic sequential updates
    w = fresh(d)
    mu = fresh(None, "mu")
    items = []
    for u in ups:
        if u[0] == "many":
            items.append(mk("um", subst(u[1], {v: w, m: mu})))
        else:
            items.append(mk("u1", subst(u[0], {v: w, m: mu}), subst(u[1], {v: w, m: mu}), subst(u[2], {v: w, m: mu})))
    pk = mk("pack", *items)
    b1, p1 = close(mu, pk)
    b2, p2 = close(w, mk("pack", b1, p1))
    return mk("updmany", b2, d, init, p2)


def unwritten(t, m, init, idx, v, d):
    """reads of cells that no earlier iteration writes"""
    out = {}
    af = _affine(idx, v)
    if af is None or af[0] not in (1, -1):
        return out
    c, off = af
    for x in find_ops(t, ("sel",)):
        if x.a[0] is m and v not in x.a[1].fvs and m not in x.a[1].fvs and not _bvs_free(x.a[1]):
            at = scale(sub(x.a[1], off), c)      # the iteration that writes this cell
            if prove_ge0(sub(at, v)) or prove_ge0(sub(sub(d.a[0], at), ONE)):
                out[x] = sel(init, x.a[1])
    return out


def row_writes(t, m):
    """the positions at which t differs from m, or None"""
    if t is m:
        return set()
    if t.op == "ite":
        x, y = row_writes(t.a[1], m), row_writes(t.a[2], m)
        return None if x is None or y is None else x | y
    if t.op == "upd":
        x = row_writes(t.a[0], m)
        return None if x is None else x | {t.a[1]}
    return None


def untouched(y, idx, v, d):
    """position y is not written, through idx, by an iteration before v"""
    af = _affine(idx, v)
    if af is None or af[0] not in (1, -1):
        return False
    c, off = af
    at = scale(sub(y, off), c)
    return prove_ge0(sub(at, v)) or prove_ge0(sub(sub(d.a[0], at), ONE))


def _bvs_free(t):
    return t.bvmax > 0


def _atoms(t):
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in out:
            continue
        out.add(x)
        st.extend(x.a)
    return out


def max0(t):
    if prove_ge0(t):
        return t
    if t.op == "int":
        return I(max(0, t.a[0]))
    return mk("max0", t)


def fdiv(l, r):
    if r.op == "int" and r.a[0] != 0:
        return scale(l, Fraction(1) / Fraction(r.a[0]))
    if l.op == "ite":
        return ite(l.a[0], fdiv(l.a[1], r), fdiv(l.a[2], r))
    return mk("fdiv", l, r)


def slice_(v, lo, hi):
    if v.op == "vec" and lo.op == "int" and hi.op == "int":
        return mk("vec", *v.a[lo.a[0]:hi.a[0]])
    if v.op == "str" and lo.op == "int" and hi.op == "int":
        return S(v.a[0][lo.a[0]:hi.a[0]])
    n = seqlen(v)
    if lo is ZERO and hi is n:
        return v
    if v.op in ("str", "scat", "disp", "smap"):
        return mk("substr", v, lo, hi)
    m = max0(sub(hi, lo))
    k = fresh(mk("range", ZERO, m))
    return lam(m, k, sel(v, add(lo, k)))


def drop_(L, k):
    if k is ZERO:
        return L
    if L.op == "range":
        return mk("range", add(L.a[0], k), L.a[1])
    if L.op == "refs":
        raise Unsupported("skip on mutable iterator")
    if L.op == "iter":
        return mk("iter", L.a[0], add(L.a[1], k))
    if L.op == "vec" and k.op == "int":
        return mk("vec", *L.a[k.a[0]:])
    if L.op == "rangefrom":
        return mk("rangefrom", add(L.a[0], k))
    return slice_(L, k, seqlen(L))


def zip_elem(L, i):
    """element i of a zip that contains mutable parts"""
    out = []
    for part in L.a[1]:
        if part.op == "refs":
            r = part.a[0]
            out.append(mk("ref", r.a[0], r.a[1], r.a[2] + (("i", i),)))
        elif part.op == "zipl":
            out.append(zip_elem(part, i))
        else:
            out.append(lsel(part, i))
    return mk("tuple", *out)


def lsel(L, i):
    if L.op == "range":
        return add(L.a[0], i)
    if L.op == "rangefrom":
        return add(L.a[0], i)
    if L.op == "iter":
        return lsel(L.a[0], add(L.a[1], i))
    return sel(L, i)


REBUILD["max0"] = max0
REBUILD["gcd"] = lambda a, b: gcd_(a, b)
REBUILD["range"] = lambda lo, hi: mk("range", lo, hi)
for _o in ("pick",):
    BINDPOS[_o] = 0
    REBUILD[_o] = TM._rebind(_o)
for _o in ("foldt", "updmany"):
    BINDPOS[_o] = 0
BINDPOS["uniqby"] = 0
