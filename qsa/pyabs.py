"""Abstract interpreter for the table script.

Values are Python values, texts with marked slots (a slot stands for a number of the log), numbers that come from slots, and
opaque values. The file system is abstract: a file is the list of its lines, given by the caller. No statement of the script
is executed by Python; regular expressions are decided on the line's text, the position of the captured group tells which
slot it is."""
import ast
import builtins
import re


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, kind, msg=""):
        self.kind = kind
        Exception.__init__(self, "%s %s" % (kind, msg))


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Exit(Exception):
    pass


class Txt(str):
    """a text with slots ((start, end, atom), ...)"""
    def __new__(cls, s, slots=()):
        x = str.__new__(cls, s)
        x.slots = tuple(slots)
        return x

    def cut(self, a, b):
        return Txt(str.__getitem__(self, slice(a, b)), [(max(s, a) - a, min(e, b) - a, t if s >= a and e <= b else ("part", t)) for s, e, t in self.slots if s < b and e > a])


def txt(x):
    return x if isinstance(x, Txt) else Txt(x)


def join(parts):
    out, sl = "", []
    for p in parts:
        p = txt(p)
        sl += [(s + len(out), e + len(out), t) for s, e, t in p.slots]
        out += str(p)
    return Txt(out, sl)


class Num:
    """a number with its provenance"""
    def __init__(self, value, src):
        self.value, self.src = value, src


class Opq:
    def __init__(self, name):
        self.name = name


class Func:
    def __init__(self, node, env):
        self.node, self.env = node, env


class Match:
    def __init__(self, m, t):
        self.m, self.t = m, t

    def group(self, *gs):
        if len(gs) > 1:
            return tuple(self.group(g) for g in gs)
        g = gs[0] if gs else 0
        try:
            a, b = self.m.span(g)
        except IndexError:
            raise PyRaise("IndexError")
        return None if a < 0 else self.t.cut(a, b)


class File:
    def __init__(self, lines):
        self.lines, self.pos = lines, 0

    def take(self):
        r = self.lines[self.pos:]
        self.pos = len(self.lines)
        return r


class Module:
    def __init__(self, name):
        self.name = name


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


def number(x):
    return isinstance(x, (int, float, Num)) and not isinstance(x, bool)


def plain(x):
    return x.value if isinstance(x, Num) else x


def totext(x):
    if isinstance(x, str):
        return txt(x)
    if isinstance(x, Num):
        s = str(x.value)
        return Txt(s, [(0, len(s), x.src)])
    if isinstance(x, Opq):
        return Txt("0", [(0, 1, ("opaque", x.name))])
    if isinstance(x, (int, float, bool, type(None))):
        s = str(x)
        return Txt(s, [(0, len(s), ("const", x))]) if number(x) else Txt(s)
    raise Unsupported("text of %s" % type(x).__name__)


def fmt(x, spec):
    if spec == "":
        return totext(x)
    if isinstance(x, str):
        try:
            return pad(txt(x), spec)
        except ValueError:
            raise PyRaise("ValueError")
    v = plain(x)
    if isinstance(x, Opq):
        v = 0.0
    if v is None or isinstance(v, (list, tuple, dict)):
        raise PyRaise("TypeError")
    try:
        s = format(v, spec)
    except ValueError:
        raise PyRaise("ValueError")
    a = len(s) - len(s.lstrip())
    b = len(s.rstrip())
    return Txt(s, [(a, b, x.src if isinstance(x, Num) else ("opaque", x.name) if isinstance(x, Opq) else ("const", x))])


def pad(t, spec):
    m = re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?s?", spec)
    if not m:
        raise Unsupported("format %s" % spec)
    fill, al, w = m.group(1) or " ", m.group(2) or "<", int(m.group(3) or 0)
    k = max(0, w - len(t))
    l = k if al == ">" else 0 if al == "<" else k // 2
    return join([fill * l, t, fill * (k - l)])


class Py:
    LIMIT = 400000

    def __init__(self, text, argv, files, popen=None):
        self.tree = ast.parse(text)
        self.argv, self.files, self.popen = argv, files, popen
        self.out = [Txt("")]
        self.opened, self.commands = [], []
        self.steps = 0
        self.g = {"__name__": "__main__"}

    # ------------------------------------------------------------ statements
    def run(self):
        try:
            self.block(self.tree.body, [self.g])
        except Exit:
            pass
        return join(self.out)

    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Unsupported("too many steps")
        k = type(s).__name__
        if k == "Expr":
            self.ev(s.value, env)
        elif k in ("Import", "ImportFrom"):
            for a in s.names:
                n = a.asname or a.name.split(".")[0]
                env[-1][n] = Module(a.name if a.asname else n) if k == "Import" else Module("%s.%s" % (s.module, a.name))
        elif k == "FunctionDef":
            env[-1][s.name] = Func(s, list(env))
        elif k == "Assign":
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif k == "AnnAssign":
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif k == "AugAssign":
            cur = self.ev(ast.copy_location(ast.fix_missing_locations(self.load(s.target)), s), env)
            v = self.ev(s.value, env)
            if isinstance(cur, list) and isinstance(s.op, ast.Add):
                cur.extend(self.seq(v))
            else:
                self.bind(s.target, self.binop(s.op, cur, v), env)
        elif k == "Return":
            raise Ret(self.ev(s.value, env) if s.value else None)
        elif k == "If":
            self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif k == "For":
            broke = False
            for x in self.seq(self.ev(s.iter, env)):
                self.bind(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Brk:
                    broke = True
                    break
                except Cont:
                    pass
            if not broke:
                self.block(s.orelse, env)
        elif k == "While":
            while self.truth(self.ev(s.test, env)):
                self.steps += 1
                if self.steps > self.LIMIT:
                    raise Unsupported("too many steps")
                try:
                    self.block(s.body, env)
                except Brk:
                    return
                except Cont:
                    pass
            self.block(s.orelse, env)
        elif k == "With":
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            self.block(s.body, env)
        elif k == "Try":
            try:
                try:
                    self.block(s.body, env)
                except PyRaise as ex:
                    for h in s.handlers:
                        names = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else h.type.elts if h.type is not None else []
                        if not names or any(self.catches(ast.unparse(n), ex.kind) for n in names):
                            if h.name:
                                env[-1][h.name] = Opq("exception")
                            self.block(h.body, env)
                            break
                    else:
                        raise
                else:
                    self.block(s.orelse, env)
            finally:
                self.block(s.finalbody, env)
        elif k == "Break":
            raise Brk()
        elif k == "Continue":
            raise Cont()
        elif k == "Pass":
            pass
        elif k == "Global":
            for n in s.names:
                env[-1].setdefault("__global__", set()).add(n)
        elif k == "Raise":
            raise PyRaise(ast.unparse(s.exc).split("(")[0] if s.exc else "Exception")
        elif k == "Assert":
            if not self.truth(self.ev(s.test, env)):
                raise PyRaise("AssertionError")
        else:
            raise Unsupported("statement %s (line %d)" % (k, s.lineno))

    def catches(self, name, kind):
        a, b = getattr(builtins, name.split(".")[-1], None), getattr(builtins, kind, None)
        if a is None or b is None:
            raise Unsupported("handler %s" % name)
        return issubclass(b, a)

    def load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        raise Unsupported("target")

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env[-1].get("__global__", ()):
                self.g[t.id] = v
            else:
                env[-1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.seq(v))
            if len(vs) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("unpacking")
            for a, b in zip(t.elts, vs):
                self.bind(a, b, env)
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, (list, dict)) and not isinstance(i, slice):
                try:
                    o[plain(i)] = v
                except IndexError:
                    raise PyRaise("IndexError")
            else:
                raise Unsupported("item assignment")
        else:
            raise Unsupported("target %s" % type(t).__name__)

    # ------------------------------------------------------------ values
    def truth(self, v):
        if isinstance(v, Opq):
            return True
        if isinstance(v, Num):
            return bool(v.value)
        if isinstance(v, (Match, File, Func, Module)):
            return True
        return bool(v)

    def seq(self, v):
        if isinstance(v, File):
            return v.take()
        if isinstance(v, (list, tuple, range, dict)):
            return v
        if isinstance(v, (set, frozenset)):
            return sorted(v)
        if isinstance(v, Opq):
            return [Opq("element of " + v.name)]
        if isinstance(v, str):
            t = txt(v)
            return [t.cut(i, i + 1) for i in range(len(t))]
        raise PyRaise("TypeError", "not iterable")

    def name(self, n, env):
        for e in reversed(env):
            if n in e:
                return e[n]
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        if hasattr(builtins, n):
            return Module("builtins." + n)
        raise PyRaise("NameError", n)

    def ev(self, e, env):
        self.steps += 1
        k = type(e).__name__
        if k == "Constant":
            return e.value
        if k == "Name":
            return self.name(e.id, env)
        if k == "JoinedStr":
            out = []
            for p in e.values:
                if isinstance(p, ast.Constant):
                    out.append(p.value)
                else:
                    if p.conversion not in (-1, 115):
                        raise Unsupported("conversion")
                    out.append(fmt(self.ev(p.value, env), str(self.ev(p.format_spec, env)) if p.format_spec else ""))
            return join(out)
        if k in ("List", "Tuple", "Set"):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += list(self.seq(self.ev(x.value, env)))
                else:
                    out.append(self.ev(x, env))
            return out if k == "List" else tuple(out) if k == "Tuple" else set(out)
        if k == "Dict":
            if any(x is None for x in e.keys):
                raise Unsupported("dict display")
            return {self.ev(a, env): self.ev(b, env) for a, b in zip(e.keys, e.values)}
        if k == "BinOp":
            return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if k == "BoolOp":
            v = None
            for x in e.values:
                v = self.ev(x, env)
                if self.truth(v) != isinstance(e.op, ast.And):
                    return v
            return v
        if k == "UnaryOp":
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(v, (int, float)):
                return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
            if isinstance(v, Num):
                return Num(-v.value, ("op", "-", v.src))
            if isinstance(v, Opq):
                return v
            raise PyRaise("TypeError")
        if k == "Compare":
            l = self.ev(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                r = self.ev(r, env)
                if not self.compare(op, l, r):
                    return False
                l = r
            return True
        if k == "IfExp":
            return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        if k == "Subscript":
            o = self.ev(e.value, env)
            if isinstance(e.slice, ast.Slice):
                a, b, c = (plain(self.ev(x, env)) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
                if isinstance(o, str) and c is None:
                    a, b, _ = slice(a, b).indices(len(o))
                    return txt(o).cut(a, max(a, b))
                if isinstance(o, (list, tuple)):
                    return o[a:b:c]
                raise Unsupported("slice")
            i = plain(self.ev(e.slice, env))
            if isinstance(o, Opq):
                return Opq("item of " + o.name)
            if isinstance(o, Match):
                return o.group(i)
            if isinstance(o, str):
                i = i + len(o) if i < 0 else i
                if not 0 <= i < len(o):
                    raise PyRaise("IndexError")
                return txt(o).cut(i, i + 1)
            if isinstance(o, (list, tuple, dict)):
                try:
                    return o[i]
                except IndexError:
                    raise PyRaise("IndexError")
                except KeyError:
                    raise PyRaise("KeyError")
            if o is None or number(o):
                raise PyRaise("TypeError")
            raise Unsupported("subscript")
        if k == "Attribute":
            o = self.ev(e.value, env)
            if isinstance(o, Module):
                if o.name == "sys" and e.attr == "argv":
                    return list(self.argv)
                return Module(o.name + "." + e.attr)
            if isinstance(o, Opq):
                return Opq("%s.%s" % (o.name, e.attr))
            return Bound(o, e.attr)
        if k == "Call":
            f = self.ev(e.func, env)
            args = []
            for x in e.args:
                if isinstance(x, ast.Starred):
                    args += list(self.seq(self.ev(x.value, env)))
                else:
                    args.append(self.ev(x, env))
            kw = {}
            for x in e.keywords:
                if x.arg is None:
                    raise Unsupported("**")
                kw[x.arg] = self.ev(x.value, env)
            return self.call(f, args, kw, e)
        if k in ("ListComp", "GeneratorExp", "SetComp", "DictComp"):
            out = []
            sub = list(env) + [{}]

            def gen(i):
                if i == len(e.generators):
                    out.append((self.ev(e.key, sub), self.ev(e.value, sub)) if k == "DictComp" else self.ev(e.elt, sub))
                    return
                g = e.generators[i]
                for x in self.seq(self.ev(g.iter, sub)):
                    self.bind(g.target, x, sub)
                    if all(self.truth(self.ev(c, sub)) for c in g.ifs):
                        gen(i + 1)
            gen(0)
            return dict(out) if k == "DictComp" else set(out) if k == "SetComp" else out
        if k == "Lambda":
            return Func(e, list(env))
        if k == "NamedExpr":
            v = self.ev(e.value, env)
            i = len(env) - 1
            env[i][e.target.id] = v
            return v
        raise Unsupported("expression %s (line %d)" % (k, e.lineno))

    def compare(self, op, l, r):
        k = type(op).__name__
        if k in ("Is", "IsNot"):
            same = l is r if l is None or r is None or isinstance(l, bool) or isinstance(r, bool) else plain(l) == plain(r)
            return same == (k == "Is")
        if isinstance(l, Opq) or isinstance(r, Opq):
            return True
        l, r = plain(l), plain(r)
        if isinstance(r, File):
            r = r.take()
        try:
            return {"Eq": lambda: l == r, "NotEq": lambda: l != r, "Lt": lambda: l < r, "LtE": lambda: l <= r, "Gt": lambda: l > r, "GtE": lambda: l >= r, "In": lambda: l in r,
                    "NotIn": lambda: l not in r}[k]()
        except TypeError:
            raise PyRaise("TypeError")

    def binop(self, op, a, b):
        k = type(op).__name__
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq("(%s %s %s)" % (getattr(a, "name", "?"), k, getattr(b, "name", "?")))
        if isinstance(a, str) and k == "Mod":
            vs = list(b) if isinstance(b, tuple) else [b]
            out, i = [], 0
            for p in re.split(r"(%%|%[-+ 0]*\d*(?:\.\d+)?[sdfr])", str(a)):
                if p == "%%":
                    out.append("%")
                elif p.startswith("%") and len(p) > 1:
                    v = vs[i]
                    i += 1
                    if p[-1] in "sr":
                        t = totext(v)
                        w = p[1:-1]
                        out.append(t if not w else join([t, " " * (int(w[1:]) - len(t))]) if w[0] == "-" else join([" " * (int(w) - len(t)), t]))
                    elif isinstance(v, str):
                        raise PyRaise("TypeError")
                    else:
                        out.append(fmt(v, p[1:].replace("-", "<")))
                else:
                    out.append(p)
            return join(out)
        if isinstance(a, str) and isinstance(b, str) and k == "Add":
            return join([a, b])
        if k == "Mult" and isinstance(a, str) and isinstance(b, int):
            return join([a] * b)
        if k == "Div" and (isinstance(a, str) or isinstance(b, str)):
            return Txt("%s/%s" % (a, b))          # pathlib
        if isinstance(a, (list, tuple)) and type(a) is type(b) and k == "Add":
            return a + b
        if k == "Mult" and isinstance(a, list) and isinstance(b, int):
            return a * b
        if number(a) and number(b):
            x, y = plain(a), plain(b)
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y, "FloorDiv": lambda: x // y, "Mod": lambda: x % y, "Pow": lambda: x ** y}.get(k)
            if f is None:
                raise Unsupported("operator %s" % k)
            try:
                v = f()
            except ZeroDivisionError:
                raise PyRaise("ZeroDivisionError")
            if not isinstance(a, Num) and not isinstance(b, Num):
                return v
            if k == "Add":
                return Num(v, self.plus(a, b))
            return Num(v, ("op", k, a.src if isinstance(a, Num) else ("const", a), b.src if isinstance(b, Num) else ("const", b)))
        if type(op).__name__ in ("BitOr", "BitAnd") and isinstance(a, (set, dict)):
            return a | b if k == "BitOr" else a & b
        raise PyRaise("TypeError", k)

    def plus(self, a, b):
        out = []
        for x in (a, b):
            s = x.src if isinstance(x, Num) else ("const", x)
            if s == ("const", 0) or s == ("const", 0.0):
                continue
            out += list(s[1]) if s[0] == "sum" else [s]
        return ("sum", tuple(out)) if len(out) != 1 else out[0]

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, e):
        if isinstance(f, Func):
            return self.func(f, args, kw)
        if isinstance(f, Opq):
            return Opq(f.name + "()")
        if isinstance(f, Module):
            return self.library(f.name, args, kw, e)
        if isinstance(f, Bound):
            return self.method(f.obj, f.name, args, kw)
        raise PyRaise("TypeError", "not callable")

    def func(self, f, args, kw):
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unsupported("parameters")
        names = [x.arg for x in a.args]
        loc = {}
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            loc[n] = self.ev(d, f.env)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                loc[x.arg] = self.ev(d, f.env)
        if len(args) > len(a.args):
            raise PyRaise("TypeError")
        loc.update(zip(names, args))
        for n, v in kw.items():
            if n not in names:
                raise PyRaise("TypeError")
            loc[n] = v
        if any(n not in loc for n in names):
            raise PyRaise("TypeError")
        env = list(f.env) + [loc]
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(f.node)):
            return self.generator(f, env)
        if len(env) > 60:
            raise Unsupported("recursion")
        try:
            self.block(f.node.body, env)
        except Ret as r:
            return r.v
        return None

    def generator(self, f, env):
        raise Unsupported("generator function %s" % f.node.name)

    def lines(self, path):
        p = re.sub(r"/+", "/", str(path))
        p = p[2:] if p.startswith("./") else p
        self.opened.append(p)
        if p in self.files:
            return self.files[p]
        raise PyRaise("FileNotFoundError", p)

    def regex(self, args, kw):
        flags = kw.get("flags", args[2] if len(args) > 2 else 0)
        if isinstance(flags, Module):
            flags = getattr(re, flags.name.split(".")[-1], None)
        if flags is None or not isinstance(flags, (int, re.RegexFlag)):
            raise Unsupported("regular expression flags")
        p = args[0]
        return p if isinstance(p, re.Pattern) else re.compile(str(p), flags)

    def search(self, fn, args, kw):
        try:
            p = self.regex(args, kw)
        except re.error:
            raise PyRaise("ValueError", "regular expression")
        s = args[1] if len(args) > 1 else kw.get("string")
        if not isinstance(s, str):
            if isinstance(s, Opq):
                raise Unsupported("search in %s" % s.name)
            raise PyRaise("TypeError")
        t = txt(s)
        if fn in ("search", "match", "fullmatch"):
            m = getattr(p, fn)(str(t))
            return Match(m, t) if m else None
        if fn == "finditer":
            return [Match(m, t) for m in p.finditer(str(t))]
        if fn == "findall":
            out = []
            for m in p.finditer(str(t)):
                x = Match(m, t)
                out.append(x.group(0) if p.groups == 0 else x.group(1) if p.groups == 1 else tuple(x.group(i + 1) for i in range(p.groups)))
            return out
        raise Unsupported("re." + fn)

    def tonum(self, conv, v):
        if isinstance(v, Opq):
            return v
        if isinstance(v, Num):
            if conv is int and v.value != int(v.value):
                return Num(int(v.value), ("op", "int", v.src))
            return Num(conv(v.value), v.src)
        if isinstance(v, (int, float)):
            return conv(v)
        if isinstance(v, str):
            t = txt(v)
            a = len(t) - len(t.lstrip())
            b = len(t.rstrip())
            try:
                x = conv(str(t))
            except ValueError:
                raise PyRaise("ValueError", str(t))
            for s, e, at in t.slots:
                if (s, e) == (a, b):
                    return Num(x, at)
            return Num(x, ("text", str(t)[a:b], tuple(at for s, e, at in t.slots)))
        raise PyRaise("TypeError")

    def library(self, n, args, kw, e):
        b = n.split(".")[-1]
        if n.startswith("builtins."):
            if b == "print":
                sep, end = kw.get("sep", " "), kw.get("end", "\n")
                if kw.get("file") is not None:
                    return None
                for i, x in enumerate(args):
                    if i:
                        self.out.append(sep)
                    self.out.append(self.show(x))
                self.out.append(end)
                return None
            if b == "open":
                mode = kw.get("mode", args[1] if len(args) > 1 else "r")
                if "w" in mode or "a" in mode or "+" in mode:
                    raise Unsupported("the script writes a file")
                return File(list(self.lines(args[0])))
            if b in ("int", "float"):
                return self.tonum(int if b == "int" else float, args[0]) if args else 0
            if b == "str":
                return totext(args[0]) if args and not isinstance(args[0], (list, dict, tuple)) else Txt(str(args[0]) if args else "")
            if b == "len":
                if isinstance(args[0], (list, tuple, str, dict, set, range)):
                    return len(args[0])
                if isinstance(args[0], Opq):
                    return Opq("len " + args[0].name)
                raise PyRaise("TypeError")
            if b == "sum":
                acc = args[1] if len(args) > 1 else kw.get("start", 0)
                for x in self.seq(args[0]):
                    acc = self.binop(ast.Add(), acc, x)
                return acc
            if b == "range":
                return range(*[plain(x) for x in args])
            if b == "enumerate":
                return list(enumerate(self.seq(args[0]), plain(args[1]) if len(args) > 1 else kw.get("start", 0)))
            if b == "zip":
                return list(zip(*[self.seq(a) for a in args]))
            if b in ("list", "tuple", "set"):
                s = list(self.seq(args[0])) if args else []
                return s if b == "list" else tuple(s) if b == "tuple" else set(s)
            if b == "dict" and not args:
                return dict(kw)
            if b in ("max", "min"):
                xs = list(self.seq(args[0])) if len(args) == 1 else args
                if not xs:
                    if "default" in kw:
                        return kw["default"]
                    raise PyRaise("ValueError")
                if any(isinstance(x, Opq) for x in xs):
                    return Opq(b)
                return (max if b == "max" else min)(xs, key=plain)
            if b == "round":
                if isinstance(args[0], Num):
                    return Num(round(args[0].value, *args[1:]), ("op", "round", args[0].src))
                return args[0] if isinstance(args[0], Opq) else round(*args)
            if b in ("any", "all"):
                xs = [self.truth(x) for x in self.seq(args[0])]
                return any(xs) if b == "any" else all(xs)
            if b == "next":
                s = args[0]
                if isinstance(s, File):
                    if s.pos < len(s.lines):
                        s.pos += 1
                        return s.lines[s.pos - 1]
                elif isinstance(s, list):
                    if s:
                        return s[0]                        # generators are lists here; the first of them
                else:
                    raise Unsupported("next")
                if len(args) > 1:
                    return args[1]
                raise PyRaise("StopIteration")
            if b == "iter":
                return args[0]
            if b == "map":
                return [self.call(args[0], list(x), {}, e) for x in zip(*[self.seq(a) for a in args[1:]])]
            if b == "filter":
                return [x for x in self.seq(args[1]) if self.truth(x if args[0] is None else self.call(args[0], [x], {}, e))]
            if b == "reversed":
                return list(reversed(list(self.seq(args[0]))))
            if b in ("exit", "quit"):
                raise Exit()
            if b == "isinstance":
                raise Unsupported("isinstance")
            if b == "bool":
                return self.truth(args[0])
            if b == "format":
                return fmt(args[0], args[1] if len(args) > 1 else "")
            raise Unsupported(n)
        if n in ("sys.exit", "os._exit"):
            raise Exit()
        if n.startswith("re."):
            if b == "compile":
                try:
                    return self.regex([args[0], None] + args[1:], kw)
                except re.error:
                    raise PyRaise("ValueError")
            if b == "escape":
                return Txt(re.escape(str(args[0])))
            return self.search(b, args, kw)
        if n in ("os.path.isfile", "os.path.exists", "os.path.isdir"):
            try:
                self.lines(args[0])
                self.opened.pop()
                return True
            except PyRaise:
                self.opened.pop()
                return n == "os.path.isdir"
        if n == "os.path.join":
            return Txt("/".join(map(str, args)))
        if n == "os.popen" or n.startswith("subprocess."):
            cmd = args[0] if isinstance(args[0], str) else Txt(" ".join(map(str, args[0])))
            self.commands.append(str(cmd))
            return Opq("output of " + str(cmd))
        if n in ("pathlib.Path", "pathlib.PurePath"):
            return Opq("path " + "/".join(map(str, args)))
        if n.startswith("os.") or n.startswith("shutil."):
            return Opq(n)
        if n in ("collections.defaultdict", "collections.OrderedDict") or n.startswith("collections."):
            raise Unsupported(n)
        if n.startswith("math."):
            raise Unsupported(n)
        raise Unsupported(n)

    def show(self, x):
        if isinstance(x, (list, tuple, dict)):
            return Txt(repr(x))
        return totext(x)

    def method(self, o, n, args, kw):
        if isinstance(o, re.Pattern):
            return self.search(n, [o] + args, kw)
        if isinstance(o, Match):
            if n == "group":
                return o.group(*args)
            if n == "groups":
                return tuple(o.group(i + 1) for i in range(o.m.re.groups))
            if n == "groupdict":
                return {g: o.group(g) for g in o.m.re.groupindex}
            if n in ("start", "end", "span"):
                return getattr(o.m, n)(*args)
            raise Unsupported("match.%s" % n)
        if isinstance(o, File):
            if n == "readlines":
                return o.take()
            if n == "readline":
                if o.pos < len(o.lines):
                    o.pos += 1
                    return o.lines[o.pos - 1]
                return Txt("")
            if n == "read":
                return join(o.take())
            if n in ("close", "__enter__", "__exit__"):
                return None
            if n == "seek":
                o.pos = 0
                return 0
            raise Unsupported("file.%s" % n)
        if isinstance(o, str):
            return self.strmethod(txt(o), n, args, kw)
        if isinstance(o, list):
            if n == "append":
                o.append(args[0])
                return None
            if n == "extend":
                o.extend(self.seq(args[0]))
                return None
            if n == "copy":
                return list(o)
            if n == "pop" and o:
                return o.pop(*args)
            if n == "insert":
                o.insert(*args)
                return None
            raise Unsupported("list.%s" % n)
        if isinstance(o, dict):
            if n in ("get", "setdefault", "pop"):
                return getattr(o, n)(*args)
            if n in ("items", "keys", "values"):
                return [tuple(x) for x in o.items()] if n == "items" else list(getattr(o, n)())
            if n == "update" and args:
                o.update(args[0])
                return None
            raise Unsupported("dict.%s" % n)
        if isinstance(o, set) and n == "add":
            o.add(args[0])
            return None
        if o is None:
            raise PyRaise("AttributeError", n)
        raise Unsupported("%s.%s" % (type(o).__name__, n))

    def strmethod(self, t, n, args, kw):
        s = str(t)
        if n in ("rjust", "ljust", "center"):
            w, fill = plain(args[0]), args[1] if len(args) > 1 else " "
            r = getattr(s, n)(w, fill)
            l = {"rjust": len(r) - len(s), "ljust": 0}.get(n, (len(r) - len(s)) // 2)
            return join([fill * l, t, fill * (len(r) - len(s) - l)])
        if n in ("strip", "lstrip", "rstrip"):
            r = getattr(s, n)(*map(str, args))
            a = len(s) - len(s.lstrip(*map(str, args))) if n != "rstrip" else 0
            return t.cut(a, a + len(r))
        if n == "split":
            sep = args[0] if args else kw.get("sep")
            mx = plain(args[1]) if len(args) > 1 else kw.get("maxsplit", -1)
            out, i = [], 0
            if sep is None:
                return [t.cut(m.start(), m.end()) for m in re.finditer(r"\S+", s)] if mx < 0 else self.bad("split")
            while True:
                j = s.find(sep, i) if mx < 0 or len(out) < mx else -1
                if j < 0:
                    out.append(t.cut(i, len(s)))
                    return out
                out.append(t.cut(i, j))
                i = j + len(sep)
        if n == "splitlines":
            out, i = [], 0
            for l in s.splitlines(True):
                out.append(t.cut(i, i + len(l.rstrip("\n"))))
                i += len(l)
            return out
        if n == "partition":
            j = s.find(args[0])
            return (t, Txt(""), Txt("")) if j < 0 else (t.cut(0, j), Txt(args[0]), t.cut(j + len(args[0]), len(s)))
        if n in ("startswith", "endswith", "find", "rfind", "index", "count", "isdigit", "isnumeric", "isspace", "isalpha", "rindex"):
            try:
                return getattr(s, n)(*[str(a) if isinstance(a, str) else a for a in args])
            except ValueError:
                raise PyRaise("ValueError")
        if n == "join":
            out = []
            for i, x in enumerate(self.seq(args[0])):
                if not isinstance(x, str):
                    raise PyRaise("TypeError")
                out += [t] * bool(i) + [x]
            return join(out)
        if n == "format":
            out, auto = [], 0
            import string
            for l, f, spec, conv in string.Formatter().parse(s):
                out.append(l)
                if f is not None:
                    if f == "":
                        v = args[auto]
                        auto += 1
                    elif f.isdigit():
                        v = args[int(f)]
                    elif f in kw:
                        v = kw[f]
                    else:
                        raise Unsupported("format field " + f)
                    out.append(fmt(v, spec or ""))
            return join(out)
        if n in ("replace", "lower", "upper", "title", "zfill", "removeprefix", "removesuffix"):
            r = getattr(s, n)(*[str(a) if isinstance(a, str) else a for a in args])
            if r == s:
                return t
            if t.slots and n not in ("lower", "upper", "title"):
                if n == "replace" and len(args[0]) == len(args[1]):
                    return Txt(r, t.slots)
                if n == "removeprefix":
                    return t.cut(len(s) - len(r), len(s))
                if n == "removesuffix":
                    return t.cut(0, len(r))
                self.bad(n)
            return Txt(r, t.slots)
        if n == "encode" or n == "decode":
            return t
        self.bad("str." + n)

    def bad(self, what):
        raise Unsupported(what)
