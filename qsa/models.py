"""Summaries of the library functions the crate uses."""
import itertools
from fractions import Fraction
from .terms import *
from . import terms as TM
from . import interp as IP
from .interp import (Unsupported, hget, hput, some, NONE, okv, errv, OPT, RES, has_ref, slice_, drop_, lsel, NEVER, max0, fdiv,
                     WIDTH, FLOATS, is_iterref, getpath)

MODELS = {}
PREFIX = []
_n = itertools.count(1)


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def prefix(p):
    def d(f):
        PREFIX.append((p, f))
        return f
    return d


def V(ip, t, st):
    return ip.val(t, st) if not is_iterref(t) else t


def ident(ip, args, e, st):
    return V(ip, args[0], st)


IT = "core::iter::traits::iterator::Iterator::"
for n in ["core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::boxed::Box::<T>::new", "alloc::slice::<impl [T]>::to_vec",
          "alloc::string::String::as_bytes", "alloc::string::String::as_str", "core::hint::must_use", "core::slice::<impl [T]>::iter", IT + "cloned", IT + "copied",
          IT + "collect", "itertools::Itertools::collect_vec", "core::str::<impl str>::as_bytes", "alloc::vec::Vec::<T, A>::as_slice",
          "core::convert::From::from", "core::convert::Into::into", "core::convert::AsRef::as_ref", "alloc::string::String::from",
          "rayon::iter::IntoParallelRefIterator::par_iter", "rayon::iter::IntoParallelIterator::into_par_iter", "rayon::iter::ParallelIterator::collect",
          "core::option::Option::<T>::as_ref", "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied", "core::result::Result::<T, E>::as_ref",
          "core::option::Option::<T>::cloned", "core::option::Option::<T>::copied", "core::option::Option::<T>::as_deref",
          "core::ops::deref::Deref::deref", "core::borrow::Borrow::borrow", "core::slice::<impl [T]>::as_ref", IT + "by_ref", IT + "fuse", IT + "peekable",
          "alloc::vec::Vec::<T, A>::into_boxed_slice", "core::slice::<impl [T]>::into_vec", "core::hint::black_box",
          "core::str::<impl str>::to_owned", "alloc::str::<impl str>::into_string", "core::iter::sources::once::once",
          "core::str::<impl str>::trim_end", "core::str::<impl str>::trim"]:
    MODELS[n] = ident
for n in ["core::str::<impl str>::trim_end", "core::str::<impl str>::trim", "core::iter::sources::once::once", "core::hint::black_box"]:
    del MODELS[n]


@model("core::hint::black_box")
def _bb(ip, args, e, st):
    return args[0]


@model("lazy_static::lazy::Lazy::<T>::get")
def _lazy(ip, args, e, st):
    key = "lazy:" + str(args[1])
    if key not in ip.statics:
        s = IP.St({}, [])
        old, oldst = ip.ctxs, ip.stack
        ip.ctxs, ip.stack = [], []
        try:
            ip.statics[key] = ip.apply(args[1], [], s, e)
        finally:
            ip.ctxs, ip.stack = old, oldst
        ip.sync(st)
    return ip.statics[key]


@model("core::mem::drop")
def _drop(ip, args, e, st):
    return UNIT


@model("core::mem::swap")
def _memswap(ip, args, e, st):
    a, b = V(ip, args[0], st), V(ip, args[1], st)
    ip.store(args[0], b, st)
    ip.store(args[1], a, st)
    return UNIT


@model("core::mem::replace")
def _memreplace(ip, args, e, st):
    a = V(ip, args[0], st)
    ip.store(args[0], args[1], st)
    return a


@model("core::mem::take")
def _memtake(ip, args, e, st):
    a = V(ip, args[0], st)
    ip.store(args[0], default_of(e["ty"]), st)
    return a


def default_of(ty):
    if ty in WIDTH or ty in FLOATS:
        return ZERO
    if ty == "bool":
        return FALSE
    if ty.startswith("alloc::vec::Vec"):
        return mk("vec")
    if ty.startswith("alloc::string::String"):
        return S("")
    if ty.startswith(OPT):
        return NONE
    if ty.startswith("std::collections::hash::set::HashSet"):
        return mk("set", mk("vec"))
    raise Unsupported("default of " + ty)


@model("core::default::Default::default")
def _default(ip, args, e, st):
    return default_of(e["ty"])


@model("core::clone::Clone::clone")
def _clone(ip, args, e, st):
    return V(ip, args[0], st)


@model("core::ops::deref::DerefMut::deref_mut", "alloc::vec::Vec::<T, A>::as_mut_slice", "core::iter::traits::iterator::Iterator::by_ref", "core::option::Option::<T>::as_mut")
def _identref(ip, args, e, st):
    return args[0]


# ------------------------------------------------------------ arithmetic
def num_ty(ty):
    return ty.replace("&", "").replace("'a ", "").replace("'b ", "").strip()


def is_quat(t, ty=""):
    return t.op == "struct" and t.a[0] == QUAT or "cgmath::quaternion::Quaternion" in ty


def is_cplx(t, ty=""):
    return t.op == "struct" and t.a[0] == CPLX or "num_complex::Complex" in ty


QUAT = "cgmath::quaternion::Quaternion"
VEC3 = "cgmath::vector::Vector3"
CPLX = "num_complex::Complex"


def quat(w, x, y, z):
    return mk("struct", QUAT, (("v", mk("struct", VEC3, (("x", x), ("y", y), ("z", z)))), ("s", w)))


def qparts(q):
    v = field(q, "v")
    return [field(q, "s"), field(v, "x"), field(v, "y"), field(v, "z")]


def qmul(p, q):
    a, b, c, d = qparts(p)
    w, x, y, z = qparts(q)
    return quat(add(mul(a, w), neg(mul(b, x)), neg(mul(c, y)), neg(mul(d, z))),
                add(mul(a, x), mul(b, w), mul(c, z), neg(mul(d, y))),
                add(mul(a, y), mul(c, w), mul(d, x), neg(mul(b, z))),
                add(mul(a, z), mul(d, w), mul(b, y), neg(mul(c, x))))


def cplx(r, i):
    return mk("struct", CPLX, (("re", r), ("im", i)))


def cparts(c):
    return [field(c, "re"), field(c, "im")]


def arith(op, l, r, lty, rty, ip, ty=""):
    ql, qr = is_quat(l, lty), is_quat(r, rty)
    cl, cr = is_cplx(l, lty), is_cplx(r, rty)
    if ql or qr:
        if op == "Mul":
            if ql and qr:
                return qmul(l, r)
            s, q = (r, l) if ql else (l, r)
            return quat(*[mul(s, x) for x in qparts(q)])
        if op == "Add":
            return quat(*[add(x, y) for x, y in zip(qparts(l), qparts(r))])
        if op == "Sub":
            return quat(*[sub(x, y) for x, y in zip(qparts(l), qparts(r))])
        if op == "Div" and ql and not qr:
            return quat(*[fdiv(x, r) for x in qparts(l)])
        raise Unsupported("quaternion " + op)
    if cl or cr:
        if op == "Mul":
            if cl and cr:
                a, b = cparts(l)
                c, d = cparts(r)
                return cplx(sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c)))
            s, q = (r, l) if cl else (l, r)
            return cplx(*[mul(s, x) for x in cparts(q)])
        if op == "Add":
            return cplx(*[add(x, y) for x, y in zip(cparts(l), cparts(r))])
        if op == "Sub":
            return cplx(*[sub(x, y) for x, y in zip(cparts(l), cparts(r))])
        if op == "Div" and cl and not cr:
            return cplx(*[fdiv(x, r) for x in cparts(l)])
        raise Unsupported("complex " + op)
    if "String" in lty and op == "Add":
        return scat(l, r)
    nt = num_ty(lty)
    if nt in WIDTH or nt in FLOATS:
        return ip.binop(op, l, r, nt, nt)
    raise Unsupported("%s on %s" % (op, lty))


def tys(e):
    a = (e.get("callee") or {}).get("args") or []
    l = a[0] if a else ""
    r = a[1] if len(a) > 1 else l
    return l, r


for _op in ("Add", "Sub", "Mul", "Div", "Rem"):
    def _mkop(op):
        def f(ip, args, e, st):
            l, r = V(ip, args[0], st), V(ip, args[1], st)
            lt_, rt_ = tys(e)
            return arith(op, l, r, lt_, rt_, ip)

        def g(ip, args, e, st):
            cur = V(ip, args[0], st)
            r = V(ip, args[1], st)
            lt_, rt_ = tys(e)
            ip.store(args[0], arith(op, cur, r, lt_, rt_, ip), st)
            return UNIT
        return f, g
    _f, _g = _mkop(_op)
    MODELS["core::ops::arith::%s::%s" % (_op, _op.lower())] = _f
    MODELS["core::ops::arith::%sAssign::%s_assign" % (_op, _op.lower())] = _g


@model("core::ops::arith::Neg::neg")
def _neg(ip, args, e, st):
    v = V(ip, args[0], st)
    ty = tys(e)[0]
    if is_quat(v, ty):
        return quat(*[neg(x) for x in qparts(v)])
    if is_cplx(v, ty):
        return cplx(*[neg(x) for x in cparts(v)])
    return ip.wrap(neg(v), num_ty(ty))


@model("core::ops::bit::Not::not")
def _not(ip, args, e, st):
    return not_(V(ip, args[0], st))


@model("cgmath::quaternion::Quaternion::<S>::new")
def _qnew(ip, args, e, st):
    return quat(*args)


@model("cgmath::quaternion::Quaternion::<S>::conjugate")
def _qconj(ip, args, e, st):
    w, x, y, z = qparts(V(ip, args[0], st))
    return quat(w, neg(x), neg(y), neg(z))


@model("num_complex::Complex::<T>::new")
def _cnew(ip, args, e, st):
    return cplx(*args)


@model("num_complex::Complex::<T>::conj")
def _cconj(ip, args, e, st):
    a, b = cparts(V(ip, args[0], st))
    return cplx(a, neg(b))


@model("num_complex::Complex::<T>::norm_sqr")
def _cns(ip, args, e, st):
    a, b = cparts(V(ip, args[0], st))
    return add(mul(a, a), mul(b, b))


def absval(v):
    if v.op == "int":
        return I(abs(v.a[0]))
    if v.op == "ite":
        return ite(v.a[0], absval(v.a[1]), absval(v.a[2]))
    if prove_ge0(v):
        return v
    if prove_ge0(neg(v)):
        return neg(v)
    n = neg(v)
    return mk("abs", min(v, n, key=lambda t: t.key))


REBUILD["abs"] = absval


@model("core::num::<impl i8>::abs", "core::num::<impl i16>::abs", "core::num::<impl i32>::abs", "core::num::<impl i64>::abs", "core::num::<impl isize>::abs",
       "core::f32::<impl f32>::abs", "core::f64::<impl f64>::abs")
def _abs(ip, args, e, st):
    return absval(V(ip, args[0], st))


@model("std::f32::<impl f32>::sqrt", "std::f64::<impl f64>::sqrt")
def _sqrt(ip, args, e, st):
    return mk("sqrt", V(ip, args[0], st))


@model("std::f64::<impl f64>::round", "std::f32::<impl f32>::round")
def _round(ip, args, e, st):
    return mk("round", V(ip, args[0], st))


@model("std::f64::<impl f64>::floor", "std::f32::<impl f32>::floor")
def _floor(ip, args, e, st):
    return mk("floor", V(ip, args[0], st))


@model("std::f64::<impl f64>::ceil", "std::f32::<impl f32>::ceil")
def _ceil(ip, args, e, st):
    return mk("ceil", V(ip, args[0], st))


@model("std::f64::<impl f64>::fract", "std::f32::<impl f32>::fract")
def _fract(ip, args, e, st):
    return mk("fract", V(ip, args[0], st))


def power(b, k):
    if k.op == "int" and 0 <= k.a[0] <= 6:
        r = ONE
        for _ in range(k.a[0]):
            r = mul(r, b)
        return r
    if b.op == "int" and b.a[0] == -1:
        return sub(ONE, scale(mk_mod(k, I(2)), 2))
    return mk("pow", b, k)


@model("num_traits::int::PrimInt::pow")
def _pow(ip, args, e, st):
    return power(V(ip, args[0], st), V(ip, args[1], st))


for _t in list(WIDTH):
    MODELS["core::num::<impl %s>::pow" % _t] = _pow

    def _rem_euclid(ip, args, e, st):
        return mk_mod(V(ip, args[0], st), V(ip, args[1], st))
    MODELS["core::num::<impl %s>::rem_euclid" % _t] = _rem_euclid

    def _signum(ip, args, e, st):
        v = V(ip, args[0], st)
        return ite(lt(ZERO, v), ONE, ite(eq(v, ZERO, True), ZERO, I(-1)))
    MODELS["core::num::<impl %s>::signum" % _t] = _signum

    def _absdiff(ip, args, e, st):
        return absval(sub(V(ip, args[0], st), V(ip, args[1], st)))
    MODELS["core::num::<impl %s>::abs_diff" % _t] = _absdiff
    MODELS["core::num::<impl %s>::unsigned_abs" % _t] = _abs

    def _is_pos(ip, args, e, st):
        return lt(ZERO, V(ip, args[0], st))
    MODELS["core::num::<impl %s>::is_positive" % _t] = _is_pos

    def _is_neg(ip, args, e, st):
        return lt(V(ip, args[0], st), ZERO)
    MODELS["core::num::<impl %s>::is_negative" % _t] = _is_neg

    def _satsub(ip, args, e, st):
        return max0(sub(V(ip, args[0], st), V(ip, args[1], st)))
    if _t.startswith("u"):
        MODELS["core::num::<impl %s>::saturating_sub" % _t] = _satsub

    def _mkwr(op):
        def f(ip, args, e, st):
            return op(V(ip, args[0], st), V(ip, args[1], st))
        return f
    if _t in ("usize", "isize", "i64", "u64", "i32", "u32"):
        MODELS["core::num::<impl %s>::wrapping_add" % _t] = _mkwr(add)
        MODELS["core::num::<impl %s>::wrapping_sub" % _t] = _mkwr(sub)
        MODELS["core::num::<impl %s>::wrapping_mul" % _t] = _mkwr(mul)

    def _isqrt(ip, args, e, st):
        return mk("isqrt", V(ip, args[0], st))
    MODELS["core::num::<impl %s>::isqrt" % _t] = _isqrt

    def _mkdiv(k):
        def f(ip, args, e, st):
            n, d = V(ip, args[0], st), V(ip, args[1], st)
            return eq(mk_mod(n, d), ZERO, True)
        return f
    MODELS["core::num::<impl %s>::is_multiple_of" % _t] = _mkdiv(0)

    def _divceil(ip, args, e, st):
        n, d = V(ip, args[0], st), V(ip, args[1], st)
        return mk_div(sub(add(n, d), ONE), d)
    MODELS["core::num::<impl %s>::div_ceil" % _t] = _divceil
    MODELS["core::num::<impl %s>::div_euclid" % _t] = lambda ip, args, e, st: mk_div(V(ip, args[0], st), V(ip, args[1], st))


def _cmp_ty(e):
    return num_ty(tys(e)[0])


@model("core::cmp::PartialEq::eq")
def _eq(ip, args, e, st):
    ty = _cmp_ty(e)
    return eq(V(ip, args[0], st), V(ip, args[1], st), ty in WIDTH or ty in FLOATS)


@model("core::cmp::PartialEq::ne")
def _ne(ip, args, e, st):
    return not_(_eq(ip, args, e, st))


def _ord(op):
    def f(ip, args, e, st):
        ty = _cmp_ty(e)
        l, r = V(ip, args[0], st), V(ip, args[1], st)
        if ty in WIDTH or ty in FLOATS:
            return ip.binop(op, l, r, ty, "bool")
        a, b = (l, r) if op in ("Lt", "Le") else (r, l)
        if op in ("Lt", "Gt"):
            return mk("lexlt", a, b)
        return not_(mk("lexlt", b, a))
    return f


MODELS["core::cmp::PartialOrd::lt"] = _ord("Lt")
MODELS["core::cmp::PartialOrd::le"] = _ord("Le")
MODELS["core::cmp::PartialOrd::gt"] = _ord("Gt")
MODELS["core::cmp::PartialOrd::ge"] = _ord("Ge")
ORDERING = "core::cmp::Ordering"


@model("core::cmp::Ord::cmp")
def _cmp(ip, args, e, st):
    ty = _cmp_ty(e)
    l, r = V(ip, args[0], st), V(ip, args[1], st)
    if ty in WIDTH:
        a, b = lt(l, r), eq(l, r, True)
    else:
        a, b = mk("lexlt", l, r), eq(l, r)
    E = lambda n: mk("enum", ORDERING, n, ())
    return ite(a, E("Less"), ite(b, E("Equal"), E("Greater")))


@model("core::cmp::Ord::min", "core::cmp::min")
def _min(ip, args, e, st):
    l, r = V(ip, args[0], st), V(ip, args[1], st)
    return ite(le(l, r), l, r)


@model("core::cmp::Ord::max", "core::cmp::max")
def _max(ip, args, e, st):
    l, r = V(ip, args[0], st), V(ip, args[1], st)
    return ite(le(l, r), r, l)


# ------------------------------------------------------------ vectors
@model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity")
def _vnew(ip, args, e, st):
    return mk("vec")


@model("alloc::string::String::new", "alloc::string::String::with_capacity")
def _snew(ip, args, e, st):
    return S("")


@model("alloc::vec::Vec::<T, A>::reserve", "alloc::string::String::reserve", "alloc::vec::Vec::<T, A>::shrink_to_fit")
def _unit(ip, args, e, st):
    return UNIT


@model("alloc::vec::from_elem")
def _from_elem(ip, args, e, st):
    v, n = V(ip, args[0], st), V(ip, args[1], st)
    return lam(n, fresh(mk("range", ZERO, n)), v)


@model("alloc::boxed::Box::<T>::new_uninit")
def _nu(ip, args, e, st):
    return UNIT


@model("alloc::intrinsics::write_box_via_move")
def _wb(ip, args, e, st):
    return args[1]


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def _ba(ip, args, e, st):
    return args[0]


def _lenof(v):
    if v.op == "set":
        return mk("card", v)
    if v.op == "zipl":
        return v.a[0]
    if v.op == "refs":
        return v.a[1]
    return seqlen(v)


@model("alloc::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "alloc::string::String::len", "core::str::<impl str>::len",
       "std::collections::hash::set::HashSet::<T, S, A>::len", "std::collections::hash::set::HashSet::<T, S>::len", "core::iter::traits::exact_size::ExactSizeIterator::len")
def _len(ip, args, e, st):
    return _lenof(V(ip, args[0], st))


@model("alloc::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "alloc::string::String::is_empty", "core::str::<impl str>::is_empty",
       "std::collections::hash::set::HashSet::<T, S, A>::is_empty")
def _is_empty(ip, args, e, st):
    return eq(_lenof(V(ip, args[0], st)), ZERO, True)


@model("alloc::vec::Vec::<T, A>::push")
def _push(ip, args, e, st):
    ip.store(args[0], cat(V(ip, args[0], st), mk("vec", args[1])), st)
    return UNIT


@model("alloc::vec::Vec::<T, A>::append")
def _append(ip, args, e, st):
    a, b = V(ip, args[0], st), V(ip, args[1], st)
    ip.store(args[0], cat(a, b), st)
    ip.store(args[1], mk("vec"), st)
    return UNIT


@model("alloc::vec::Vec::<T, A>::extend_from_slice")
def _efs(ip, args, e, st):
    ip.store(args[0], cat(V(ip, args[0], st), V(ip, args[1], st)), st)
    return UNIT


@model("core::iter::traits::collect::Extend::extend")
def _extend(ip, args, e, st):
    cur = V(ip, args[0], st)
    x = V(ip, args[1], st)
    if cur.op == "set" or "HashSet" in tys(e)[0]:
        ip.store(args[0], setadd(cur, aslist(x)), st)
    elif cur.op in ("str", "scat", "smap") or "String" in tys(e)[0]:
        ip.store(args[0], scat(cur, strlist(x)), st)
    else:
        ip.store(args[0], cat(cur, aslist(x)), st)
    return UNIT


def aslist(x):
    if x.op == "set":
        return mk("elems", x)
    if x.op == "range":
        return x if False else many_range(x)
    if x.op == "enum" and x.a[0] == OPT:
        return mk("vec", *x.a[2])
    if x.op == "ite":
        return ite(x.a[0], aslist(x.a[1]), aslist(x.a[2]))
    return x


def many_range(x):
    n = rlen(x)
    f = fresh(mk("range", ZERO, n))
    return lam(n, f, add(x.a[0], f))


@model("alloc::vec::Vec::<T, A>::pop")
def _pop(ip, args, e, st):
    v = V(ip, args[0], st)
    n = seqlen(v)
    if v.op == "vec" and not v.a:
        return NONE
    last = sel(v, sub(n, ONE))
    ip.store(args[0], ite(eq(n, ZERO, True), v, slice_(v, ZERO, sub(n, ONE))), st)
    return ite(eq(n, ZERO, True), NONE, some(last))


@model("alloc::vec::Vec::<T, A>::clear", "alloc::string::String::clear")
def _clear(ip, args, e, st):
    v = V(ip, args[0], st)
    ip.store(args[0], S("") if v.op in ("str", "scat", "smap") else mk("vec"), st)
    return UNIT


@model("alloc::vec::Vec::<T, A>::insert")
def _insert(ip, args, e, st):
    v, i, x = V(ip, args[0], st), V(ip, args[1], st), args[2]
    ip.store(args[0], cat(slice_(v, ZERO, i), mk("vec", x), slice_(v, i, seqlen(v))), st)
    return UNIT


@model("alloc::vec::Vec::<T, A>::remove")
def _vremove(ip, args, e, st):
    v, i = V(ip, args[0], st), V(ip, args[1], st)
    ip.store(args[0], cat(slice_(v, ZERO, i), slice_(v, add(i, ONE), seqlen(v))), st)
    return sel(v, i)


@model("alloc::vec::Vec::<T, A>::truncate")
def _trunc(ip, args, e, st):
    v, i = V(ip, args[0], st), V(ip, args[1], st)
    n = seqlen(v)
    ip.store(args[0], ite(lt(i, n), slice_(v, ZERO, i), v), st)
    return UNIT


@model("core::slice::<impl [T]>::swap")
def _swap(ip, args, e, st):
    v, i, j = V(ip, args[0], st), V(ip, args[1], st), V(ip, args[2], st)
    a, b = sel(v, i), sel(v, j)
    ip.store(args[0], upd(upd(v, i, b), j, a), st)
    return UNIT


@model("core::slice::<impl [T]>::reverse")
def _reverse(ip, args, e, st):
    ip.store(args[0], rev_(V(ip, args[0], st)), st)
    return UNIT


@model("core::slice::<impl [T]>::fill")
def _fill(ip, args, e, st):
    v = V(ip, args[0], st)
    n = seqlen(v)
    ip.store(args[0], lam(n, fresh(mk("range", ZERO, n)), V(ip, args[1], st)), st)
    return UNIT


@model("alloc::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::join")
def _concat(ip, args, e, st):
    v = V(ip, args[0], st)
    sep = V(ip, args[1], st) if len(args) > 1 else None
    if "String" in e["ty"] or "str" in e["ty"]:
        if v.op == "vec":
            out = []
            for i, x in enumerate(v.a):
                if i and sep is not None:
                    out.append(sep)
                out.append(disp(x))
            return scat(*out)
        n = seqlen(v)
        dom = mk("range", ZERO, n)
        f = fresh(dom)
        body = disp(sel(v, f))
        if sep is not None:
            body = scat(ite(eq(f, ZERO, True), S(""), sep), body)
        return smap(f, dom, TRUE, body)
    if sep is None:
        if v.op == "vec":
            return cat(*v.a)
        n = seqlen(v)
        dom = mk("range", ZERO, n)
        f = fresh(dom)
        return flatmany(f, dom, TRUE, sel(v, f))
    raise Unsupported("join of vectors")


@model("alloc::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable")
def _sort(ip, args, e, st):
    ip.store(args[0], mk("sorted", V(ip, args[0], st)), st)
    return UNIT


@model("alloc::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::sort_unstable_by", "alloc::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable_by_key")
def _sortby(ip, args, e, st):
    ip.store(args[0], mk("sortedby", V(ip, args[0], st), args[1]), st)
    return UNIT


def rev_(v):
    if v.op == "vec":
        return mk("vec", *reversed(v.a))
    if v.op == "zipl":
        raise Unsupported("reversed mutable zip")
    n = _lenof(v)
    if v.op == "range":
        f = fresh(mk("range", ZERO, n))
        return lam(n, f, sub(sub(v.a[1], ONE), f))
    f = fresh(mk("range", ZERO, n))
    return lam(n, f, sel(v, sub(sub(n, ONE), f)))


@model(IT + "rev")
def _rev(ip, args, e, st):
    return rev_(V(ip, args[0], st))


def index_value(ip, v, i, st):
    if i.op == "range":
        return slice_(v, i.a[0], i.a[1])
    if i.op == "rangefrom":
        return slice_(v, i.a[0], seqlen(v))
    if i.op == "rangeto":
        return slice_(v, ZERO, i.a[0])
    if i.op == "rangefull":
        return v
    return sel(v, i)


@model("core::ops::index::Index::index")
def _index(ip, args, e, st):
    v, i = V(ip, args[0], st), V(ip, args[1], st)
    return index_value(ip, v, i, st)


@model("core::ops::index::IndexMut::index_mut")
def _index_mut(ip, args, e, st):
    i = V(ip, args[1], st)
    if i.op in ("range", "rangefrom", "rangeto", "rangefull"):
        raise Unsupported("mutable sub-slice")
    return refext(ip, args[0], ("i", i), st)


def refext(ip, r, step, st):
    if r.op == "ite":
        return ite(r.a[0], refext(ip, r.a[1], step, st), refext(ip, r.a[2], step, st))
    if r.op != "ref":
        raise Unsupported("mutable projection of a value")
    inner = ip.read(("var", r.a[0], r.a[1], r.a[2]), st)
    if has_ref(inner):
        return refext(ip, inner, step, st)
    return mk("ref", r.a[0], r.a[1], r.a[2] + (step,))


@model("core::slice::<impl [T]>::get", "alloc::vec::Vec::<T, A>::get")
def _get(ip, args, e, st):
    v, i = V(ip, args[0], st), V(ip, args[1], st)
    if i.op in ("range", "rangefrom", "rangeto"):
        raise Unsupported("get with range")
    return ite(and_(le(ZERO, i), lt(i, seqlen(v))), some(sel(v, i)), NONE)


@model("core::slice::<impl [T]>::get_mut")
def _get_mut(ip, args, e, st):
    i = V(ip, args[1], st)
    v = V(ip, args[0], st)
    return ite(and_(le(ZERO, i), lt(i, seqlen(v))), some(refext(ip, args[0], ("i", i), st)), NONE)


@model("core::slice::<impl [T]>::first")
def _first(ip, args, e, st):
    v = V(ip, args[0], st)
    if v.op == "vec":
        return some(v.a[0]) if v.a else NONE
    return ite(eq(seqlen(v), ZERO, True), NONE, some(sel(v, ZERO)))


@model("core::slice::<impl [T]>::last", IT + "last")
def _last(ip, args, e, st):
    v = V(ip, args[0], st)
    if v.op == "vec":
        return some(v.a[-1]) if v.a else NONE
    n = _lenof(v)
    return ite(eq(n, ZERO, True), NONE, some(lsel(v, sub(n, ONE))))


@model(IT + "nth")
def _nth(ip, args, e, st):
    v, k = V(ip, args[0], st), V(ip, args[1], st)
    if has_ref(args[0]):
        ip.store(args[0], drop_(v, add(k, ONE)), st)
    if v.op == "vec" and k.op == "int":
        return some(v.a[k.a[0]]) if k.a[0] < len(v.a) else NONE
    return ite(lt(k, _lenof(v)), some(lsel(v, k)), NONE)


@model(IT + "next")
def _next(ip, args, e, st):
    v = V(ip, args[0], st)
    if v.op == "vec":
        if not v.a:
            return NONE
        ip.store(args[0], mk("vec", *v.a[1:]), st)
        return some(v.a[0])
    if v.op == "ite":
        return ip.fork(v.a[0], st, lambda s: _next_of(ip, args[0], v.a[1], s), lambda s: _next_of(ip, args[0], v.a[2], s))
    return _next_of(ip, args[0], v, st)


def _next_of(ip, r, v, st):
    if v.op == "vec":
        if not v.a:
            return NONE
        ip.store(r, mk("vec", *v.a[1:]), st)
        return some(v.a[0])
    base, pos = (v.a[0], v.a[1]) if v.op == "iter" else (v, ZERO)
    if base.op in ("refs", "zipl"):
        raise Unsupported("manual iteration over mutable elements")
    n = _lenof(base)
    c = lt(pos, n)
    ip.store(r, ite(c, mk("iter", base, add(pos, ONE)), mk("iter", base, pos)), st)
    return ite(c, some(lsel(base, pos)), NONE)


@model("core::iter::traits::collect::IntoIterator::into_iter")
def _into_iter(ip, args, e, st):
    a = args[0]
    ty = tys(e)[0]
    if ty.startswith("&mut") or ty.startswith("&'_ mut"):
        return mutiter(ip, a, st)
    if "::HashMap<" in ty.split("<")[0] + "<":
        return hitems(V(ip, a, st))
    if has_ref(a):
        return V(ip, a, st)
    return a


def mutiter(ip, a, st):
    if a.op != "ref":
        return a
    v = V(ip, a, st)
    inner = st.env.get((a.a[0], a.a[1]))
    x = getpath(inner, a.a[2])
    if has_ref(x):
        return mutiter(ip, x, st)
    if v.op in ("refs", "zipl", "iter", "range"):
        return v
    return mk("refs", a, seqlen(v))


@model("core::slice::<impl [T]>::iter_mut")
def _iter_mut(ip, args, e, st):
    return mutiter(ip, args[0], st)


# ------------------------------------------------------------ iterator adaptors
def acc_var(ip, st, init):
    k = (ip.cur, "$acc%d" % next(_n))
    st.env[k] = init
    return k


def build(ip, L, f, st):
    """list of results: f(elem, state) -> list term appended for each element"""
    k = acc_var(ip, st, mk("vec"))

    def step(x, s):
        r = f(x, s)
        if s.alive:
            s.env[k] = cat(s.env[k], r)
    ip.iterate(L, step, st)
    return st.env.pop(k) if st.alive else NEVER


def one(x):
    return mk("vec", x)


@model(IT + "map", "rayon::iter::ParallelIterator::map", "rayon::iter::parallel_iterator::ParallelIterator::map")
def _map(ip, args, e, st):
    L = V(ip, args[0], st)
    return build(ip, L, lambda x, s: one(ip.apply(args[1], [x], s, e)), st)


@model(IT + "for_each")
def _for_each(ip, args, e, st):
    ip.iterate(V(ip, args[0], st), lambda x, s: ip.apply(args[1], [x], s, e), st)
    return UNIT


@model(IT + "filter", "rayon::iter::ParallelIterator::filter")
def _filter(ip, args, e, st):
    L = V(ip, args[0], st)

    def f(x, s):
        c = ip.apply(args[1], [x], s, e)
        return ite(c, one(x), mk("vec"))
    return build(ip, L, f, st)


def opt_list(r):
    c = isv(r, OPT, "Some")
    return ite(c, one(payload(r, OPT, "Some", 0)), mk("vec"))


@model(IT + "filter_map", IT + "flat_map", IT + "flatten")
def _flatmap(ip, args, e, st):
    L = V(ip, args[0], st)

    def f(x, s):
        r = ip.apply(args[1], [x], s, e) if len(args) > 1 else x
        r = V(ip, r, s)
        if r.op == "enum" and r.a[0] == OPT or r.op == "ite" and "Option" in str(find_ops(r, ("enum",))[:1]):
            return opt_list(r)
        if r.op == "enum" and r.a[0] == RES:
            return one(r.a[2][0]) if r.a[1] == "Ok" else mk("vec")
        return aslist(r)
    return build(ip, L, f, st)


@model(IT + "enumerate")
def _enumerate(ip, args, e, st):
    L = V(ip, args[0], st)
    if is_iterref(L):
        n = _lenof(L)
        return mk("zipl", n, (mk("range", ZERO, n), L))
    if L.op == "vec":
        return mk("vec", *[mk("tuple", I(i), x) for i, x in enumerate(L.a)])
    k = acc_var(ip, st, ZERO)

    def f(x, s):
        i = s.env[k]
        s.env[k] = add(i, ONE)
        return one(mk("tuple", i, x))
    r = build(ip, L, f, st)
    st.env.pop(k, None)
    return r


@model(IT + "zip", "core::iter::adapters::zip::zip", "itertools::Itertools::zip_eq")
def _zip(ip, args, e, st):
    a, b = V(ip, args[0], st), V(ip, args[1], st)
    if is_iterref(a) or is_iterref(b):
        return mk("zipl", minlen(a, b), (a, b))
    if a.op == "vec" and b.op == "vec":
        return mk("vec", *[mk("tuple", x, y) for x, y in zip(a.a, b.a)])
    n = minlen(a, b)
    f = fresh(mk("range", ZERO, n))
    return lam(n, f, mk("tuple", lsel(a, f), lsel(b, f)))


def minlen(a, b):
    if a.op == "rangefrom":
        return _lenof(b)
    if b.op == "rangefrom":
        return _lenof(a)
    if a.op == "cycle":
        return _lenof(b)
    if b.op == "cycle":
        return _lenof(a)
    x, y = _lenof(a), _lenof(b)
    if x is y:
        return x
    if prove_ge0(sub(y, x)):
        return x
    if prove_ge0(sub(x, y)):
        return y
    return ite(le(x, y), x, y)


@model(IT + "chain")
def _chain(ip, args, e, st):
    return cat(aslist(V(ip, args[0], st)), aslist(V(ip, args[1], st)))


@model(IT + "skip")
def _skip(ip, args, e, st):
    L, k = V(ip, args[0], st), V(ip, args[1], st)
    if L.op == "range":
        return mk("range", add(L.a[0], k), L.a[1])
    return drop_(L, k)


@model(IT + "take")
def _take(ip, args, e, st):
    L, k = V(ip, args[0], st), V(ip, args[1], st)
    if L.op == "vec" and k.op == "int":
        return mk("vec", *L.a[:k.a[0]])
    if L.op == "rangefrom":
        return mk("range", L.a[0], add(L.a[0], k))
    if L.op == "cycle":
        f = fresh(mk("range", ZERO, k))
        return lam(k, f, sel(L.a[0], mk_mod(f, seqlen(L.a[0]))))
    n = _lenof(L)
    m = k if prove_ge0(sub(n, k)) else (n if prove_ge0(sub(k, n)) else ite(le(k, n), k, n))
    if L.op == "range":
        return mk("range", L.a[0], add(L.a[0], m))
    return slice_(L, ZERO, m)


@model(IT + "step_by")
def _step_by(ip, args, e, st):
    L, k = V(ip, args[0], st), V(ip, args[1], st)
    n = mk_div(sub(add(_lenof(L), k), ONE), k)
    f = fresh(mk("range", ZERO, n))
    return lam(n, f, lsel(L, mul(f, k)))


@model(IT + "cycle")
def _cycle(ip, args, e, st):
    return mk("cycle", V(ip, args[0], st))


@model("core::slice::<impl [T]>::windows")
def _windows(ip, args, e, st):
    v, k = V(ip, args[0], st), V(ip, args[1], st)
    n = max0(add(sub(seqlen(v), k), ONE))
    f = fresh(mk("range", ZERO, n))
    return lam(n, f, slice_(v, f, add(f, k)))


@model("itertools::Itertools::cartesian_product")
def _cart(ip, args, e, st):
    a, b = V(ip, args[0], st), V(ip, args[1], st)

    def outer(x, s):
        return build(ip, b, lambda y, q: one(mk("tuple", x, y)), s)
    return build(ip, a, outer, st)


def bool_loop(ip, L, st, init, f):
    k = acc_var(ip, st, B(init))

    def step(x, s):
        c = f(x, s)
        s.env[k] = and_(s.env[k], c) if init else or_(s.env[k], c)
    ip.iterate(L, step, st)
    return st.env.pop(k) if st.alive else NEVER


@model(IT + "all", "rayon::iter::ParallelIterator::all")
def _all(ip, args, e, st):
    return bool_loop(ip, V(ip, args[0], st), st, True, lambda x, s: ip.apply(args[1], [x], s, e))


@model(IT + "any", "rayon::iter::ParallelIterator::any")
def _any(ip, args, e, st):
    return bool_loop(ip, V(ip, args[0], st), st, False, lambda x, s: ip.apply(args[1], [x], s, e))


@model(IT + "fold")
def _fold(ip, args, e, st):
    L = V(ip, args[0], st)
    k = acc_var(ip, st, args[1])
    IP.MUTYPE  # noqa

    def step(x, s):
        s.env[k] = ip.apply(args[2], [s.env[k], x], s, e)
    ip.iterate(L, step, st)
    return st.env.pop(k) if st.alive else NEVER


@model(IT + "sum", "rayon::iter::ParallelIterator::sum")
def _sum(ip, args, e, st):
    L = V(ip, args[0], st)
    ty = num_ty(e["ty"])
    init = ZERO
    if is_cplx(ZERO, e["ty"]):
        init = cplx(ZERO, ZERO)
    elif "Quaternion" in e["ty"]:
        init = quat(ZERO, ZERO, ZERO, ZERO)
    k = acc_var(ip, st, init)

    def step(x, s):
        x = V(ip, x, s)
        s.env[k] = arith("Add", s.env[k], x, e["ty"], e["ty"], ip)
    ip.iterate(L, step, st)
    return st.env.pop(k) if st.alive else NEVER


@model(IT + "product")
def _product(ip, args, e, st):
    L = V(ip, args[0], st)
    if L.op == "vec":
        r = ONE
        for x in L.a:
            r = mul(r, V(ip, x, st))
        return r
    raise Unsupported("product of a symbolic list")


@model(IT + "count")
def _count(ip, args, e, st):
    L = V(ip, args[0], st)
    k = acc_var(ip, st, ZERO)

    def step(x, s):
        s.env[k] = add(s.env[k], ONE)
    ip.iterate(L, step, st)
    return st.env.pop(k) if st.alive else NEVER


@model(IT + "find", IT + "position", IT + "find_map")
def _find(ip, args, e, st):
    L = V(ip, args[0], st)
    nm = e["callee"]["name"]
    k = acc_var(ip, st, NONE)
    idx = acc_var(ip, st, ZERO)
    label = "$find%d" % next(_n)
    ctx = IP.Ctx("loop", label, ip.cur, len(st.pc))
    ip.ctxs.append(ctx)

    def step(x, s):
        i = s.env[idx]
        s.env[idx] = add(i, ONE)
        r = ip.apply(args[1], [x], s, e)
        if nm == "find_map":
            c, val = isv(r, OPT, "Some"), r
        else:
            c, val = r, some(x if nm == "find" else i)

        def hit(q):
            q.env[k] = val
            ctx.items.append((ip.rel(q, ctx.base), UNIT, q.env))
            q.alive = False
            return NEVER
        ip.fork(c, s, hit, lambda q: UNIT)
    try:
        ip.iterate(L, step, st)
    finally:
        ip.ctxs.pop()
    if ctx.items:
        ip.finish_ctx(ctx, st, UNIT)
    st.env.pop(idx, None)
    return st.env.pop(k) if st.alive else NEVER


@model(IT + "take_while", IT + "skip_while", IT + "map_while")
def _tw(ip, args, e, st):
    raise Unsupported(e["callee"]["name"])


@model(IT + "min", IT + "max")
def _imin(ip, args, e, st):
    L = V(ip, args[0], st)
    return mk("i" + e["callee"]["name"], L)


@model(IT + "min_by", IT + "max_by", IT + "min_by_key", IT + "max_by_key")
def _minby(ip, args, e, st):
    L = V(ip, args[0], st)
    a, b = fresh(None, "x"), fresh(None, "y")
    if e["callee"]["name"].endswith("_key"):
        c = mk("keycmp", ip.apply(args[1], [a], st, e), ip.apply(args[1], [b], st, e))
    else:
        c = ip.apply(args[1], [a, b], st, e)
    b1, c1 = close(b, c)
    b2, c2 = close(a, mk("pack", b1, c1))
    return mk("minby", e["callee"]["name"][:3], L, b2, c2)


@model("itertools::Itertools::unique")
def _unique(ip, args, e, st):
    return mk("uniq", aslist(V(ip, args[0], st)))


@model("itertools::Itertools::unique_by")
def _unique_by(ip, args, e, st):
    L = V(ip, args[0], st)
    a = fresh(None, "x")
    c = ip.apply(args[1], [a], st, e)
    b, cc = close(a, c)
    return mk("uniqby", b, L, cc)


@model("rayon::iter::ParallelIterator::fold")
def _pfold(ip, args, e, st):
    # sequential semantics of one accumulator; sound when reduce is the matching merge
    L = V(ip, args[0], st)
    init = ip.apply(args[1], [], st, e)
    k = acc_var(ip, st, init)

    def step(x, s):
        s.env[k] = ip.apply(args[2], [s.env[k], x], s, e)
    ip.iterate(L, step, st)
    return mk("pfold", st.env.pop(k))


@model("rayon::iter::ParallelIterator::reduce")
def _preduce(ip, args, e, st):
    L = V(ip, args[0], st)
    ident_ = ip.apply(args[1], [], st, e)
    if L.op == "pfold":
        return ip.apply(args[2], [ident_, L.a[0]], st, e)
    k = acc_var(ip, st, ident_)

    def step(x, s):
        s.env[k] = ip.apply(args[2], [s.env[k], x], s, e)
    ip.iterate(L, step, st)
    return st.env.pop(k) if st.alive else NEVER


@model("core::slice::<impl [T]>::contains")
def _contains(ip, args, e, st):
    return memb(V(ip, args[1], st), V(ip, args[0], st))


def memb(x, L):
    if L.op == "vec":
        return or_(*[eq(x, y) for y in L.a])
    if L.op == "set":
        return memb(x, L.a[0])
    if L.op == "range":
        return and_(le(L.a[0], x), lt(x, L.a[1]))
    if L.op == "cat":
        return or_(*[memb(x, p) for p in L.a])
    if L.op == "ite":
        return ite(L.a[0], memb(x, L.a[1]), memb(x, L.a[2]))
    if L.op == "elems":
        return memb(x, L.a[0])
    return mk("memb", x, L)


REBUILD["memb"] = memb


@model("core::ops::range::RangeInclusive::<Idx>::new")
def _ri(ip, args, e, st):
    return mk("range", args[0], add(args[1], ONE))


@model("core::ops::range::Range::<Idx>::contains", "core::ops::range::RangeInclusive::<Idx>::contains")
def _rc(ip, args, e, st):
    return memb(V(ip, args[1], st), V(ip, args[0], st))


@model("core::ops::range::Range::<Idx>::is_empty")
def _rie(ip, args, e, st):
    v = V(ip, args[0], st)
    return not_(nonempty(v))


# ------------------------------------------------------------ sets and maps
@model("std::collections::hash::set::HashSet::<T>::new", "std::collections::hash::set::HashSet::<T>::with_capacity", "alloc::collections::btree::set::BTreeSet::<T>::new")
def _hnew(ip, args, e, st):
    return mk("set", mk("vec"))


def setadd(cur, L):
    base = cur.a[0] if cur.op == "set" else mk("elems", cur)
    return mk("set", cat(base, L))


HS = "std::collections::hash::set::HashSet::<T, S, A>::"


@model(HS + "insert", "std::collections::hash::set::HashSet::<T, S>::insert")
def _hinsert(ip, args, e, st):
    cur = V(ip, args[0], st)
    x = V(ip, args[1], st)
    ip.store(args[0], setadd(cur, mk("vec", x)), st)
    return not_(memb(x, cur))


@model(HS + "contains")
def _hcontains(ip, args, e, st):
    return memb(V(ip, args[1], st), V(ip, args[0], st))


@model(HS + "remove")
def _hremove(ip, args, e, st):
    cur = V(ip, args[0], st)
    x = V(ip, args[1], st)
    ip.store(args[0], mk("setminus", cur, x), st)
    return memb(x, cur)


@model(HS + "iter", HS + "into_iter", HS + "drain")
def _hiter(ip, args, e, st):
    return V(ip, args[0], st)


# ------------------------------------------------------------ options and results
def unwrap(adt, good, bad):
    def f(ip, args, e, st):
        v = V(ip, args[0], st)
        c = isv(v, adt, good)
        c = ip.under_pc(c, st)
        if c is TRUE:
            return payload(v, adt, good, 0)
        if c is FALSE:
            return ip.panic(st, "unwrap", e)
        ip.fork(c, st, lambda s: UNIT, lambda s: ip.panic(s, "unwrap", e))
        return payload(v, adt, good, 0)
    return f


for n in ("unwrap", "expect"):
    MODELS["core::option::Option::<T>::" + n] = unwrap(OPT, "Some", "None")
    MODELS["core::result::Result::<T, E>::" + n] = unwrap(RES, "Ok", "Err")


@model("core::option::Option::<T>::is_some")
def _is_some(ip, args, e, st):
    return isv(V(ip, args[0], st), OPT, "Some")


@model("core::option::Option::<T>::is_none")
def _is_none(ip, args, e, st):
    return isv(V(ip, args[0], st), OPT, "None")


@model("core::result::Result::<T, E>::is_ok")
def _is_ok(ip, args, e, st):
    return isv(V(ip, args[0], st), RES, "Ok")


@model("core::result::Result::<T, E>::is_err")
def _is_err(ip, args, e, st):
    return isv(V(ip, args[0], st), RES, "Err")


@model("core::result::Result::<T, E>::ok")
def _ok(ip, args, e, st):
    v = V(ip, args[0], st)
    return ite(isv(v, RES, "Ok"), some(payload(v, RES, "Ok", 0)), NONE)


@model("core::option::Option::<T>::unwrap_or", "core::result::Result::<T, E>::unwrap_or")
def _uor(ip, args, e, st):
    v = V(ip, args[0], st)
    adt, g = (RES, "Ok") if "Result" in e["callee"]["path"] else (OPT, "Some")
    return ite(isv(v, adt, g), payload(v, adt, g, 0), args[1])


@model("core::option::Option::<T>::map", "core::result::Result::<T, E>::map", "core::option::Option::<T>::and_then")
def _omap(ip, args, e, st):
    v = V(ip, args[0], st)
    adt, g = (RES, "Ok") if "Result" in e["callee"]["path"] else (OPT, "Some")
    wrap = (lambda x: x) if e["callee"]["name"] == "and_then" else (okv if adt == RES else some)
    return ip.fork(isv(v, adt, g), st, lambda s: wrap(ip.apply(args[1], [payload(v, adt, g, 0)], s, e)), lambda s: v if adt == RES else NONE)


@model("core::option::Option::<T>::unwrap_or_else", "core::result::Result::<T, E>::unwrap_or_else", "core::option::Option::<T>::map_or", "core::option::Option::<T>::is_some_and")
def _uoe(ip, args, e, st):
    v = V(ip, args[0], st)
    adt, g = (RES, "Ok") if "Result" in e["callee"]["path"] else (OPT, "Some")
    nm = e["callee"]["name"]
    c, x = isv(v, adt, g), payload(v, adt, g, 0)
    if nm == "unwrap_or_else":
        return ip.fork(c, st, lambda s: x, lambda s: ip.apply(args[1], [] if adt == OPT else [payload(v, RES, "Err", 0)], s, e))
    if nm == "map_or":
        return ip.fork(c, st, lambda s: ip.apply(args[2], [x], s, e), lambda s: args[1])
    return ip.fork(c, st, lambda s: ip.apply(args[1], [x], s, e), lambda s: FALSE)


@model("core::bool::<impl bool>::then", "core::bool::<impl bool>::then_some")
def _then(ip, args, e, st):
    c = V(ip, args[0], st)
    if e["callee"]["name"] == "then_some":
        return ite(c, some(args[1]), NONE)
    return ip.fork(c, st, lambda s: some(ip.apply(args[1], [], s, e)), lambda s: NONE)


# ------------------------------------------------------------ strings and formatting
@model("alloc::string::ToString::to_string")
def _to_string(ip, args, e, st):
    return disp(V(ip, args[0], st))


@model("alloc::string::String::push_str")
def _push_str(ip, args, e, st):
    ip.store(args[0], scat(V(ip, args[0], st), disp(V(ip, args[1], st))), st)
    return UNIT


@model("alloc::string::String::push")
def _push_ch(ip, args, e, st):
    ip.store(args[0], scat(V(ip, args[0], st), disp(V(ip, args[1], st))), st)
    return UNIT


def local_display(ip, v, ty, st, e, dbg=False):
    """Display of a value: local impl if the crate defines one"""
    base = IP.strip_ty(ty)
    return None


@model("core::fmt::rt::Argument::<'_>::new_display")
def _arg_d(ip, args, e, st):
    v = V(ip, args[0], st)
    ty = tys(e)[0] if tys(e)[0] else ""
    return disp(v)


@model("core::fmt::rt::Argument::<'_>::new_debug")
def _arg_g(ip, args, e, st):
    v = V(ip, args[0], st)
    if v.op == "enum" and not v.a[2]:
        return S(v.a[1])
    if v.op == "ite" and all(x.op == "enum" and not x.a[2] for x in (v.a[1], v.a[2])):
        return ite(v.a[0], S(v.a[1].a[1]), S(v.a[2].a[1]))
    if v.op in ("int", "poly", "len", "mod", "div", "sum"):
        return disp(v)
    return mk("dbg", v)


def _rb_dbg(v):
    if v.op == "enum" and not v.a[2]:
        return S(v.a[1])
    return mk("dbg", v)


REBUILD["dbg"] = _rb_dbg


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new_const")
def _fstr(ip, args, e, st):
    return V(ip, args[0], st)


@model("core::fmt::Arguments::<'a>::new")
def _fargs(ip, args, e, st):
    tmpl = [x.a[0] for x in V(ip, args[0], st).a]
    av = V(ip, args[1], st).a
    out = []
    i = 0
    ai = 0
    while i < len(tmpl):
        n = tmpl[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(S(bytes(tmpl[i:i + n]).decode("utf8", "replace")))
            i += n
        elif n == 0x80:
            ln = tmpl[i] | tmpl[i + 1] << 8
            i += 2
            out.append(S(bytes(tmpl[i:i + ln]).decode("utf8", "replace")))
            i += ln
        else:
            spec = []
            if n & 1:
                spec.append(("flags", bytes(tmpl[i:i + 4]).hex()))
                i += 4
            if n & 2:
                spec.append(("width", tmpl[i] | tmpl[i + 1] << 8))
                i += 2
            if n & 4:
                spec.append(("prec", tmpl[i] | tmpl[i + 1] << 8))
                i += 2
            if n & 8:
                ai = tmpl[i] | tmpl[i + 1] << 8
                i += 2
            v = av[ai] if ai < len(av) else mk("fmtarg", ai)
            ai += 1
            out.append(mk("fmtspec", str(spec), v) if spec else v)
    return scat(*out)


@model("alloc::fmt::format")
def _format(ip, args, e, st):
    return V(ip, args[0], st)


def strlist(x):
    if x.op == "vec":
        return scat(*[disp(y) for y in x.a])
    n = seqlen(x)
    f = fresh(mk("range", ZERO, n))
    return smap(f, mk("range", ZERO, n), TRUE, disp(sel(x, f)))


@model("core::str::<impl str>::chars")
def _chars(ip, args, e, st):
    v = V(ip, args[0], st)
    if v.op == "str":
        return mk("vec", *[mk("char", c) for c in v.a[0]])
    return mk("chars", v)


def lit(x):
    """python value of a literal text or symbol pattern"""
    return x.a[0] if x.op in ("str", "char") else None


def strop(f):
    """string function: folded on literals, else an opaque term with a valuation"""
    def g(ip, args, e, st):
        nm = e["callee"]["name"]
        vs = [V(ip, a, st) for a in args]
        for v in vs[1:]:
            if v.op not in ("str", "char", "int", "sym", "sel", "disp", "scat", "poly", "pay", "bv", "ite", "strf"):
                raise Unsupported("%s with pattern %s" % (nm, v.op))
        from . import teval
        if all(v.op in ("str", "char", "int") for v in vs):
            r = teval.STRF[nm](*[v.a[0] for v in vs])
            return strterm(r)
        return mk("strf", nm, *vs)
    return g


def strterm(r):
    if isinstance(r, bool):
        return TRUE if r else FALSE
    if isinstance(r, int):
        return I(r)
    if isinstance(r, str):
        return S(r)
    if isinstance(r, list):
        return mk("vec", *[strterm(x) for x in r])
    if r[0] == "E" and r[1] in ("Some", "None"):
        return NONE if r[1] == "None" else some(strterm(r[2]))
    if r[0] == "E":
        return okv(strterm(r[2])) if r[1] == "Ok" else mk("enum", RES, "Err", (S("?"),))
    return mk("tuple", *[strterm(x) for x in r])


SI = "core::str::<impl str>::"
for nm in ("split", "rsplit", "splitn", "rsplitn", "split_once", "rsplit_once", "split_terminator", "strip_prefix", "strip_suffix", "find", "rfind", "ends_with", "starts_with",
           "contains", "trim", "trim_end", "trim_start", "lines", "split_whitespace", "trim_end_matches", "trim_start_matches", "trim_matches", "split_inclusive", "replace",
           "split_at"):
    MODELS[SI + nm] = strop(nm)
MODELS["alloc::str::<impl str>::replace"] = strop("replace")
MODELS["alloc::str::<impl str>::to_lowercase"] = strop("to_lowercase")
MODELS["alloc::str::<impl str>::to_uppercase"] = strop("to_uppercase")


@model("core::str::<impl str>::parse")
def _parse(ip, args, e, st):
    v = V(ip, args[0], st)
    ty = e["ty"]
    import re
    g = re.match(r"^core::result::Result<([a-z0-9]+),", ty)
    if g and g.group(1) in WIDTH:
        if v.op == "str":
            from . import teval
            return strterm(teval.STRF["parse"](v.a[0], g.group(1)))
        return mk("strf", "parse", v, S(g.group(1)))
    return mk("parse", ty, v)


@model("alloc::str::<impl str>::repeat")
def _repeat(ip, args, e, st):
    v, n = V(ip, args[0], st), V(ip, args[1], st)
    f = fresh(mk("range", ZERO, n))
    return smap(f, mk("range", ZERO, n), TRUE, v)


# ------------------------------------------------------------ panics
@prefix("core::panicking::")
@prefix("std::rt::begin_panic")
def _panic(ip, args, e, st):
    if "assert_failed" in (e["callee"].get("path") or ""):
        return ip.panic(st, "assert", e)
    return ip.panic(st, "panic", e)


# ------------------------------------------------------------ effects
FX = ("G", "fx")


def emit(st, *ev):
    st.env[FX] = cat(st.env.get(FX, mk("vec")), mk("vec", mk("ev", *ev)))


@model("std::io::stdio::_print")
def _print(ip, args, e, st):
    if getattr(ip, "prints", False):
        emit(st, "print", V(ip, args[0], st))
    return UNIT


@model("std::io::stdio::_eprint")
def _eprint(ip, args, e, st):
    return UNIT


@model("std::fs::File::create")
def _create(ip, args, e, st):
    p = V(ip, args[0], st)
    emit(st, "create", p)
    return okv(mk("file", p))


@model("std::fs::File::open")
def _open(ip, args, e, st):
    p = V(ip, args[0], st)
    if getattr(ip, "opened", None) is not None:
        ip.opened.append(p)
    return okv(mk("infile", p))


@model("alloc::io::buffered::bufreader::BufReader::<R>::new", "alloc::io::buffered::bufwriter::BufWriter::<W>::new")
def _bufr(ip, args, e, st):
    return V(ip, args[0], st)


@model("alloc::io::buf_read::BufRead::lines")
def _lines(ip, args, e, st):
    v = V(ip, args[0], st)
    L = mk("linesof", v)
    n = mk("len", L)
    f = fresh(mk("range", ZERO, n))
    return lam(n, f, okv(mk("sel", L, f)))


@model("core::io::write::Write::write", "core::io::write::Write::write_all")
def _write(ip, args, e, st):
    b = V(ip, args[1], st)
    emit(st, "write", V(ip, args[0], st), b)
    return okv(seqlen(b) if e["callee"]["name"] == "write" else UNIT)


@model("core::io::write::Write::write_fmt")
def _writefmt(ip, args, e, st):
    emit(st, "write", V(ip, args[0], st), V(ip, args[1], st))
    return okv(UNIT)


@model("core::io::write::Write::flush")
def _flush(ip, args, e, st):
    return okv(UNIT)


@model("std::fs::create_dir_all", "std::fs::create_dir")
def _mkdir(ip, args, e, st):
    emit(st, "mkdir", V(ip, args[0], st))
    return okv(UNIT)


@prefix("std::time::")
@prefix("time::")
@prefix("core::time::")
@prefix("memory_stats::")
def _time(ip, args, e, st):
    if getattr(ip, "prints", False):
        vs = [V(ip, a, st) for a in args]
        if e["callee"]["name"] in ("elapsed", "duration_since", "checked_duration_since") or e["callee"]["name"] == "sub":
            vs.append(clock(ip, st))
        return mk("time", e["callee"]["name"], *vs)
    return mk("time", e["callee"]["name"])


def clock(ip, st):
    """the point of the run, as the effects before it"""
    fx = st.env.get(FX, mk("vec"))
    if not hasattr(ip, "clocks"):
        ip.clocks = {}
    k = str(fx.key)
    ip.clocks[k] = fx
    return S(k)


@model("std::time::Instant::now", "time::instant::Instant::now")
def _now(ip, args, e, st):
    return mk("time", "now", clock(ip, st)) if getattr(ip, "prints", False) else mk("time", "now")


@model("std::env::args", "std::env::args_os")
def _args(ip, args, e, st):
    if getattr(ip, "argv", None) is not None:
        return mk("vec", *[S(x) if isinstance(x, str) else x for x in ip.argv])
    return mk("sym", "argv", "args")


# directory listings are given by the rule: ip.readdir(path term) -> [(name, is directory)]
@model("std::fs::read_dir", "std::path::Path::read_dir")
def _readdir(ip, args, e, st):
    if getattr(ip, "readdir", None) is None:
        raise Unsupported("std::fs::read_dir", e)
    p = disp(V(ip, args[0], st))
    return okv(mk("vec", *[okv(mk("dirent", p, S(nm) if isinstance(nm, str) else nm, TRUE if isdir else FALSE)) for nm, isdir in ip.readdir(p)]))


def _dirent(ip, a, st):
    v = V(ip, a, st)
    if v.op != "dirent":
        raise Unsupported("directory entry " + v.op)
    return v


@model("std::fs::DirEntry::path")
def _depath(ip, args, e, st):
    d = _dirent(ip, args[0], st)
    return scat(d.a[0], S("/"), d.a[1])


@model("std::fs::DirEntry::file_name")
def _dename(ip, args, e, st):
    return _dirent(ip, args[0], st).a[1]


@model("std::fs::DirEntry::metadata", "std::fs::DirEntry::file_type")
def _demeta(ip, args, e, st):
    return okv(_dirent(ip, args[0], st))


@model("std::fs::Metadata::is_dir", "std::fs::FileType::is_dir")
def _deisdir(ip, args, e, st):
    return _dirent(ip, args[0], st).a[2]


@model("std::fs::Metadata::is_file", "std::fs::FileType::is_file")
def _deisfile(ip, args, e, st):
    return not_(_dirent(ip, args[0], st).a[2])


@model("std::path::Path::is_dir")
def _pisdir(ip, args, e, st):
    raise Unsupported("is_dir of a path", e)


@model("std::ffi::os_str::OsString::into_string")
def _osinto(ip, args, e, st):
    return okv(V(ip, args[0], st))


@model("std::ffi::os_str::OsStr::to_str", "std::path::Path::to_str")
def _ostostr(ip, args, e, st):
    return some(V(ip, args[0], st))


@model("std::ffi::os_str::OsStr::to_string_lossy", "std::path::Path::to_string_lossy", "std::path::Path::to_path_buf", "std::ffi::os_str::OsStr::to_os_string")
def _oslossy(ip, args, e, st):
    return V(ip, args[0], st)


@model("std::path::Path::file_name")
def _pfile(ip, args, e, st):
    v = V(ip, args[0], st)
    if v.op == "str":
        b = v.a[0].rstrip("/").rsplit("/", 1)[-1]
        return some(S(b)) if b not in ("", "..") else NONE
    if v.op == "scat" and v.a[-1].op == "str" and "/" in v.a[-1].a[0]:
        return some(S(v.a[-1].a[0].rsplit("/", 1)[-1]))
    raise Unsupported("file_name of a path", e)


@model("std::path::Path::extension")
def _pext(ip, args, e, st):
    v = V(ip, args[0], st)
    t = v if v.op == "str" else v.a[-1] if v.op == "scat" else None
    if t is not None and t.op == "str":
        b = t.a[0].rsplit("/", 1)[-1]
        if "/" in t.a[0] or v.op == "str" or "." in b:
            i = b.rfind(".")
            return some(S(b[i + 1:])) if i > 0 or i == 0 and v.op == "scat" and "/" not in t.a[0] else NONE
    raise Unsupported("extension of a path", e)


@model("std::env::current_dir")
def _cwd(ip, args, e, st):
    return okv(mk("sym", "cwd", "path"))


@model("std::path::Path::new", "std::path::Path::display", "std::path::PathBuf::as_path")
def _pathid(ip, args, e, st):
    return V(ip, args[0], st)


@model("std::path::Path::join")
def _join(ip, args, e, st):
    return scat(disp(V(ip, args[0], st)), S("/"), disp(V(ip, args[1], st)))


@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def _fncall(ip, args, e, st):
    f = V(ip, args[0], st)
    a = V(ip, args[1], st)
    return ip.apply(f, list(a.a), st, e)


# ------------------------------------------------------------ graphs and canonical labels
GRAPH = "petgraph::Graph"
PG = "petgraph::graph_impl::Graph::<N, E, petgraph::Undirected>::"
PG2 = "petgraph::graph_impl::Graph::<N, E, Ty, Ix>::"


@model(PG + "new_undirected", "petgraph::graph_impl::Graph::<N, E>::new", PG2 + "with_capacity", PG2 + "default")
def _gnew(ip, args, e, st):
    return mk("struct", GRAPH, (("kind", S("undirected" if "ndirected" in str(e["callee"].get("path")) + str(e.get("ty")) else "directed")), ("nodes", ZERO), ("edges", mk("vec"))))


@model(PG2 + "add_node")
def _gnode(ip, args, e, st):
    g = V(ip, args[0], st)
    k = field(g, "nodes")
    ip.store(args[0], mk("struct", GRAPH, (("kind", field(g, "kind")), ("nodes", add(k, ONE)), ("edges", field(g, "edges")))), st)
    return k


@model(PG2 + "add_edge", PG2 + "update_edge")
def _gedge(ip, args, e, st):
    g = V(ip, args[0], st)
    a, b = V(ip, args[1], st), V(ip, args[2], st)
    op = "edge" if e["callee"]["name"] == "add_edge" else "uedge"
    ip.store(args[0], mk("struct", GRAPH, (("kind", field(g, "kind")), ("nodes", field(g, "nodes")), ("edges", cat(field(g, "edges"), mk("vec", mk("tuple", a, b)))))), st)
    return mk("len", field(g, "edges")) if op == "edge" else mk("edgeid", a, b)


@model("petgraph::graph_impl::NodeIndex::<Ix>::new", "petgraph::graph_impl::NodeIndex::<Ix>::index")
def _gidx(ip, args, e, st):
    return V(ip, args[0], st)


@model("graph_canon::canon::CanonLabeling::new", "graph_canon::CanonLabeling::new")
def _canon(ip, args, e, st):
    return mk("app", "canonlabel", V(ip, args[0], st))


# ------------------------------------------------------------ ? operator, collecting
CF = "core::ops::control_flow::ControlFlow"


@model("core::ops::try_trait::Try::branch")
def _branch(ip, args, e, st):
    v = V(ip, args[0], st)
    ty = tys(e)[0]

    def f(v):
        if v.op == "ite":
            return ite(v.a[0], f(v.a[1]), f(v.a[2]))
        if v.op == "enum" and v.a[0] in (OPT, RES):
            if v.a[1] in ("Some", "Ok"):
                return mk("enum", CF, "Continue", (v.a[2][0],))
            return mk("enum", CF, "Break", (v,))
        adt, good = (OPT, "Some") if ty.startswith(OPT) else (RES, "Ok")
        return ite(isv(v, adt, good), mk("enum", CF, "Continue", (payload(v, adt, good, 0),)), mk("enum", CF, "Break", (v,)))
    return f(v)


@model("core::ops::try_trait::FromResidual::from_residual")
def _resid(ip, args, e, st):
    return V(ip, args[0], st)


@model(IT + "collect", "rayon::iter::ParallelIterator::collect")
def _collect(ip, args, e, st):
    v = V(ip, args[0], st)
    ty = tys(e)[1]
    if "HashSet" in ty.split("<")[0] or "BTreeSet" in ty.split("<")[0]:
        return setadd(mk("set", mk("vec")), aslist(v))
    if "HashMap" in ty.split("<")[0] or "BTreeMap" in ty.split("<")[0]:
        return mk("hmap", aslist(v))
    if ty.startswith("alloc::string::String"):
        return strlist(aslist(v))
    if ty.startswith(RES) or ty.startswith(OPT):
        raise Unsupported("collect into " + ty[:60])
    return v


HM_ = "std::collections::hash::map::HashMap::<K, V, S, A>::"
HM2 = "std::collections::hash::map::HashMap::<K, V, S>::"


def hitems(v):
    if v.op == "hmap":
        return mk("hitems", v.a[0])
    if v.op == "ite":
        return ite(v.a[0], hitems(v.a[1]), hitems(v.a[2]))
    return mk("hitems", mk("kvs", v))


for _p in (HM_, HM2):
    @model(_p + "into_values", _p + "values")
    def _hvals(ip, args, e, st):
        L = hitems(V(ip, args[0], st))
        w = fresh(L)
        return flatmany(w, L, TRUE, mk("vec", lsel(w, ONE)))

    @model(_p + "into_keys", _p + "keys")
    def _hkeys(ip, args, e, st):
        L = hitems(V(ip, args[0], st))
        w = fresh(L)
        return flatmany(w, L, TRUE, mk("vec", lsel(w, ZERO)))

    @model(_p + "iter")
    def _hit(ip, args, e, st):
        return hitems(V(ip, args[0], st))


@model("std::collections::hash::map::HashMap::<K, V>::new", "std::collections::hash::map::HashMap::<K, V>::with_capacity")
def _hmnew(ip, args, e, st):
    return mk("hmap", mk("vec"))


@model("std::path::Path::parent")
def _parent(ip, args, e, st):
    return mk("parent", V(ip, args[0], st))


def delta_hmap(m, post):
    if post.op == "hmap" and post.a[0].op == "cat" and post.a[0].a[0] is mk("kvs", m):
        return cat(*post.a[0].a[1:])
    return None


for _p in (HM_, HM2):
    @model(_p + "insert")
    def _hminsert(ip, args, e, st):
        cur = V(ip, args[0], st)
        base = cur.a[0] if cur.op == "hmap" else mk("kvs", cur)
        k = V(ip, args[1], st)
        ip.store(args[0], mk("hmap", cat(base, mk("vec", mk("tuple", k, args[2])))), st)
        return hget(cur, k)

    @model(_p + "get_mut")
    def _hmgetm(ip, args, e, st):
        k = V(ip, args[1], st)
        r = refext(ip, args[0], ("k", k), st)
        return ite(isv(hget(V(ip, args[0], st), k), OPT, "Some"), some(r), NONE)

    @model(_p + "len")
    def _hmlen(ip, args, e, st):
        return mk("len", hitems(V(ip, args[0], st)))

    @model(_p + "get")
    def _hmget(ip, args, e, st):
        return hget(V(ip, args[0], st), V(ip, args[1], st))

    @model(_p + "contains_key")
    def _hmhas(ip, args, e, st):
        return isv(hget(V(ip, args[0], st), V(ip, args[1], st)), OPT, "Some")

for _nm in ("skip", "take", "zip", "enumerate", "rev", "map", "filter", "flat_map", "filter_map", "sum", "count", "all", "any", "cloned", "copied", "chain", "step_by"):
    for _q in ("rayon::iter::IndexedParallelIterator::", "rayon::iter::ParallelIterator::"):
        if _q + _nm not in MODELS and IT + _nm in MODELS:
            MODELS[_q + _nm] = MODELS[IT + _nm]
if "rayon::iter::ParallelIterator::flat_map_iter" not in MODELS:
    MODELS["rayon::iter::ParallelIterator::flat_map_iter"] = MODELS[IT + "flat_map"]


# ------------------------------------------------------------ process-wide state and FFT plans
def leaves_of(t, acc, seen):
    if isinstance(t, tuple):
        for x in t:
            leaves_of(x, acc, seen)
        return acc
    if not isinstance(t, T) or t in seen:
        return acc
    seen.add(t)
    if t.op in ("sym", "arr", "fv", "bv"):
        acc.add(t)
    for x in t.a:
        if isinstance(x, (T, tuple)):
            leaves_of(x, acc, seen)
    return acc


def earlier(v):
    """the same value computed by some earlier call: all inputs renamed"""
    m = {}
    for x in leaves_of(v, set(), set()):
        m[x] = mk(x.op, str(x.a[0]) + "'", *x.a[1:]) if x.op in ("sym", "arr") else mk("sym", "earlier%d" % x.a[0], "int")
    return subst(v, m)


def one_user(ip, static):
    """the static may be touched by one function only, otherwise its content is not determined by that function"""
    def uses(x):
        if isinstance(x, dict):
            if x.get("k") == "static" and x.get("path") == static.a[0]:
                return True
            return any(uses(y) for y in x.values())
        if isinstance(x, list):
            return any(uses(y) for y in x)
        return False
    key = "users:" + static.a[0]
    if key not in ip.statics:
        ip.statics[key] = [k for k, b in ip.bodies.items() if uses(b)]
    if len(ip.statics[key]) != 1:
        raise Unsupported("static %s used by %s" % (static.a[0], ip.statics[key]))


@model("std::sync::once_lock::OnceLock::<T>::get_or_init")
def _goi(ip, args, e, st):
    s = V(ip, args[0], st)
    if s.op != "static":
        raise Unsupported("OnceLock that is not a static")
    one_user(ip, s)
    v = ip.apply(args[1], [], st, e)
    if v is mk("hmap", mk("vec")):
        return mk("histmap", s.a[0])
    return ite(mk("sym", "initialised " + s.a[0], "bool"), earlier(v), v)


@model("std::sync::poison::mutex::Mutex::<T>::new")
def _mutex(ip, args, e, st):
    return args[0]


@model("std::sync::poison::mutex::Mutex::<T>::lock")
def _lock(ip, args, e, st):
    s = V(ip, args[0], st)
    if s.op == "static":
        raise Unsupported("static mutex")
    return okv(s)


for _p in (HM_, HM2):
    @model(_p + "entry")
    def _hmentry(ip, args, e, st):
        return mk("hentry", args[0], V(ip, args[1], st))


@model("std::collections::hash::map::Entry::<'a, K, V, A>::or_insert_with", "std::collections::hash::map::Entry::<'a, K, V>::or_insert_with",
       "std::collections::hash::map::Entry::<'a, K, V, A>::or_default", "std::collections::hash::map::Entry::<'a, K, V>::or_default",
       "std::collections::hash::map::Entry::<'a, K, V, A>::or_insert", "std::collections::hash::map::Entry::<'a, K, V>::or_insert")
def _orins(ip, args, e, st):
    en = V(ip, args[0], st)
    if en.op != "hentry":
        raise Unsupported("entry of " + en.op)
    m = V(ip, en.a[0], st)
    v = ip.apply(args[1], [], st, e) if e["callee"]["name"].endswith("with") else mk("vec") if e["callee"]["name"].endswith("default") else V(ip, args[1], st)
    k = en.a[1]
    if m.op != "histmap":
        ip.store(en.a[0], ite(isv(hget(m, k), OPT, "Some"), m, hput(m, k, v)), st)
        return refext(ip, en.a[0], ("k", k), st)
    # an entry that is already there was made by an earlier call with an equal key
    mark = mk("sym", "$key", "int")
    if not leaves_of(subst(v, {k: mark}), set(), set()) - {mark}:
        return v
    return ite(and_(mk("sym", "present in " + m.a[0], "bool"), eq(earlier(k), k)), earlier(v), v)


@model("fftw::plan::R2CPlan::aligned", "fftw::plan::C2RPlan::aligned")
def _plan(ip, args, e, st):
    return okv(mk("struct", "fft plan", (("kind", S(e["callee"]["path"].split("::")[2])), ("dims", V(ip, args[0], st)))))


@model("fftw::array::AlignedVec::<T>::new")
def _avec(ip, args, e, st):
    z = cplx(ZERO, ZERO) if "Complex" in e["ty"] else ZERO
    return lam(V(ip, args[0], st), fresh(args[0]), z)


@model("fftw::plan::R2CPlan::r2c", "fftw::plan::C2RPlan::c2r")
def _fft(ip, args, e, st):
    p, a, b = V(ip, args[0], st), V(ip, args[1], st), V(ip, args[2], st)
    r2c = e["callee"]["name"] == "r2c"
    dims = field(p, "dims")
    n = lsel(dims, ZERO)
    half = add(mk_div(n, I(2)), ONE)
    la, lb = (n, half) if r2c else (half, n)
    w = fresh(b)
    if r2c:
        out = lam(lb, w, cplx(mk("app", "rdft_re", dims, a, w), mk("app", "rdft_im", dims, a, w)))
    else:
        out = lam(lb, w, mk("app", "irdft", dims, a, w))
        ip.store(args[1], mk("app", "clobbered", a), st)
    good = and_(eq(_lenof(a), la), eq(_lenof(b), lb), eq(_lenof(dims), ONE))
    ip.store(args[2], ite(good, out, b), st)
    return ite(good, okv(UNIT), errv(S("InputArrayMismatch")))
