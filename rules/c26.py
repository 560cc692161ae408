"""The results table reads the lines the programs log.

Three summaries are composed, nothing is run: the lines each program prints (effects of the stages' typed IR, with the term of
every printed number and, for durations, the work between the two clock readings), the lines and redirections of the scripts
(abstract interpretation, in the order of the pipeline), and the table script (abstract interpretation on a log whose lines
carry slots instead of numbers). For every column the slot that reaches it has to be the one whose term is the quantity of the
column, for every sequence type and both table forms, and for short, zero and long numbers."""
import os
import random
import re

from qsa.interp import NEVER
from qsa.models import FX, emit, _lenof
from qsa.ob import Fail, Mod, Undecided
from qsa.pyabs import Py, PyRaise, Txt, join
from qsa.pyabs import Unsupported as PyUnsupported
from qsa.sh import Unsupported as ShUnsupported
from qsa.sh import ZERO as SZERO
from qsa.sh import lit as shlit
from qsa.sh import show as shshow
from qsa.spec import *
from qsa.teval import NoEval, value
from qsa.world import norm
from rules import c11, c12, c15, c25

FLOOR = 12
N = 7
TYPES_ = ("qts", "wts", "ws")
ROOT = c25.ROOT


# ---------------------------------------------------------------- scripts
class Log(c25.Scripts):
    """records what is written to which file, in order"""
    def __init__(self, text, name):
        c25.Scripts.__init__(self, text, name)
        self.log, self.subs, self.incomplete = {}, {}, set()
        self.tick = 0
        self.compound(self.ast)

    def compound(self, x):
        if isinstance(x, (tuple, list)):
            if len(x) > 2 and x[0] in ("group", "sub", "if", "while", "for", "cfor", "case") and isinstance(x[-2], (list, tuple)) and x[-2] and all(isinstance(y, tuple) and len(y) == 3 for y in x[-2]) \
                    and any(y[1] in (">", ">>", "&>", "&>>", ">|") for y in x[-2]):
                self.incomplete.add(x[-1])
            for y in x:
                self.compound(y)

    def record(self, line, src, target, append, st):
        self.log.setdefault((line, src, target, append), (len(self.log), frozenset(f[1] for f in st.facts if f[0] == "done"), frozenset(f[1] for f in st.facts if f[0] == "option")))

    def direct(self, line, src, redirs, ctx, st):
        """output that is not piped on"""
        for fd, op, t in redirs:
            if op in (">", ">>", "&>", "&>>", ">|") and fd in ("", "1"):
                self.record(line, src, t, ">>" in op, st)
                return True
        return False

    def on(self, kind, line=0, st=None, **kw):
        ctx = kw.get("ctx") or ()
        if kind == "stage":
            src = ("stage", kw["label"], tuple(kw["argv"]), line)
            if not self.direct(line, src, kw["redirs"], ctx, st) and "out" in ctx:
                st = st.copy(facts=st.facts | {("pending", src)})
            r = c25.Scripts.on(self, kind, line=line, st=st, **kw)
            return r
        if kind == "cmd" and kw["name"] in ("echo", "printf"):
            src = ("text", kw["name"], tuple(kw["argv"][1:]), line)
            if not self.direct(line, src, kw["redirs"], ctx, st) and "out" in ctx:
                st.facts = st.facts | {("pending", src)}
            self.subs.setdefault(line, " ".join(shshow(a) for a in kw["argv"][1:]))
            return None
        if kind == "cmd" and kw["name"] == "expr":
            self.subs[line] = " ".join(shshow(a) for a in kw["argv"][1:])
        if kind == "cmd" and kw["name"] == "tee":
            app, files = False, []
            for a in kw["argv"][1:]:
                if shlit(a) in ("-a", "--append", "-ai", "-ia"):
                    app = True
                elif (shlit(a) or "").startswith("-"):
                    self.incomplete.add(line)
                else:
                    files.append(a)
            for f in sorted((f for f in st.facts if f[0] == "pending"), key=lambda f: f[1][3]):
                for t in files:
                    self.record(line, f[1], t, app, st)
                self.direct(line, f[1], kw["redirs"], (), st)
                if "out" not in ctx:
                    st.facts = st.facts - {f}
            return None
        if kind == "cmd" and any(f[0] == "pending" for f in st.facts) and "in" in ctx:
            # through another filter
            st.facts = frozenset(f for f in st.facts if f[0] != "pending")
        return c25.Scripts.on(self, kind, line=line, st=st, **kw)


_L = {}


def script(f):
    if f not in _L:
        path = os.path.join(ROOT, f)
        if not os.path.exists(path):
            raise Undecided("%s is not there" % f)
        sh = Log(open(path).read(), f)
        try:
            sh.run()
        except ShUnsupported as ex:
            raise Undecided("%s: %s" % (f, ex))
        except (IndexError, ValueError, TypeError) as ex:
            raise Undecided("%s: %s" % (f, ex))
        _L[f] = sh
    return _L[f]


# ---------------------------------------------------------------- slots
class Slot:
    """a number in a line of the log"""
    def __init__(self, ctx, line, kind, term=None, prec=None, span=None, known=True):
        self.ctx, self.line, self.kind, self.term, self.prec, self.span, self.known = ctx, line, kind, term, prec, span, known

    def text(self, mode):
        if self.kind == "int":
            return {"short": "3", "zero": "0", "long": "1234567"}[mode]
        x = {"short": 0.52, "zero": 0.0, "long": 123456.78}[mode]
        return "%.*f" % (self.prec, x) if self.prec is not None else repr(x)

    def name(self):
        return "%s: %s" % (self.ctx, self.line.strip())


SECONDS = ("as_secs_f32", "as_secs_f64", "as_seconds_f32", "as_seconds_f64")


def template(ctx, t, ip, fx):
    """parts of a printed term: texts and slots"""
    parts = list(t.a) if t.op == "scat" else [t]
    out = []

    def words():
        return "".join(x if isinstance(x, str) else "{}" for x in out)
    for p in parts:
        prec = None
        if p.op == "fmtspec":
            spec = dict(eval(p.a[0], {"__builtins__": {}}))
            if "width" in spec:
                raise Undecided("line with padded number: %s" % show(t)[:200])
            prec = spec.get("prec")
            p = p.a[1]
        if p.op == "ite":
            q = lift(p)
            p = mk("disp", q) if q is not None else p
        if p.op == "str":
            out.append(p.a[0])
        elif p.op == "dbg":
            try:
                v = value(Mod({}), p.a[0])
            except NoEval:
                v = ("bottom", "")
            out.append(str(v[1]) if v[0] != "bottom" and not isinstance(v[1], str) else '"%s"' % v[1] if v[0] != "bottom" else "(1, 1, 3, 5)")
        elif p.op == "disp":
            x = p.a[0]
            if x.op in ("scat", "fmtspec", "disp", "dbg"):
                out += template(ctx, x, ip, fx)
            elif x.op == "time":
                unit = x.a[0]
                span = None
                inner = x
                while inner.op == "time" and inner.a[0] != "elapsed" and len(inner.a) > 1:
                    inner = inner.a[1]
                if inner.op == "time" and inner.a[0] == "elapsed" and len(inner.a) == 3 and inner.a[1].op == "time" and inner.a[1].a[0] == "now":
                    a, b = ip.clocks.get(inner.a[1].a[1].a[0]), ip.clocks.get(inner.a[2].a[0])
                    if a is not None and b is not None:
                        ma, mb = marks(a), marks(b)
                        span = mb[len(ma):] if mb[:len(ma)] == ma else None
                out.append(Slot(ctx, t, "float" if unit in SECONDS else "int", x, prec, span, known=unit in SECONDS or unit in ("as_secs", "whole_seconds")))
                if unit not in SECONDS and unit not in ("as_secs", "whole_seconds", "as_millis", "as_micros", "as_nanos", "whole_milliseconds", "whole_microseconds", "whole_nanoseconds"):
                    raise Undecided("duration in an unknown unit: %s" % show(x)[:100])
            elif istext(x):
                out.append(sample(x))
            elif isfloat(x):
                out.append(Slot(ctx, t, "float", x, prec))
            else:
                out.append(Slot(ctx, t, "int", x, prec))
        elif istext(p):
            out.append(sample(p))
        else:
            raise Undecided("printed text of unknown form: %s" % show(p)[:200])
    w = words()
    for x in out:
        if isinstance(x, Slot):
            x.line = w
    return out


def lift(p):
    """the number a choice of printed numbers prints"""
    if p.op == "ite":
        a, b = lift(p.a[1]), lift(p.a[2])
        return None if a is None or b is None else ite(p.a[0], a, b)
    if p.op == "disp":
        return p.a[0]
    if p.op == "str" and re.fullmatch(r"-?\d+", p.a[0]):
        return I(int(p.a[0]))
    return None


def istext(x):
    return x.op in ("str", "scat", "smap", "slice", "fstr", "char") or x.op == "app" and "to_string" in str(x.a[0]) or x.op == "sym" and x.a[1] in ("str", "args", "char") or x.op in ("last", "nth", "lsel", "infile", "path", "pathfile", "parent")


def isfloat(x):
    return x.op in ("foldt", "fl", "float") or x.op.startswith("f") and x.op not in ("fld", "fold")


def sample(x):
    try:
        v = value(Mod({}), x)
    except NoEval:
        v = ("bottom", "")
    return v[1] if v[0] != "bottom" and isinstance(v[1], str) else "text"


def ordered(t):
    """events in the order of the run; those in loops twice"""
    if t.op == "ev":
        return [t]
    if t.op in ("vec", "cat"):
        return [e for x in t.a for e in ordered(x)]
    out = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif hasattr(x, "op"):
            if x.op == "ev":
                out.append(x)
            elif "ev" in ops(x):
                for y in x.a:
                    go(y)
    go(t)
    return out if t.op == "ite" else out + out


_OPS = {}


def ops(t):
    if t not in _OPS:
        s = {t.op}
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, tuple):
                    for z in y:
                        if hasattr(z, "op"):
                            s |= ops(z)
                elif hasattr(y, "op"):
                    s |= ops(y)
        _OPS[t] = s
    return _OPS[t]


def marks(fx):
    return [e.a[1] for e in ordered(fx) if e.a[0] == "mark"]


# ---------------------------------------------------------------- programs
class Stage:
    """printed lines of one program run"""
    def __init__(self, name):
        self.name, self.parts, self.all = name, [], []


def run(ck, ctx, key, args, marked=(), un=(), argv=None):
    ip = ck.ip(uninterp=list(un))
    ip.prints = True
    ip.clocks = {}
    ip.opened = []
    if argv:
        ip.argv = argv
    ip.readdir = lambda p: [("rowsum_-1_3_3_3", True), ("result.log", False), ("rowsum_1_1_1_5", True)]
    for k in marked:
        def h(ip_, st, a, e, k=k):
            vs = [ip_.val(x, st) for x in a]
            emit(st, "mark", k)
            return mk("app", k, *vs)
        ip.keep[k] = h
    v, st = ip.run(key, args, assume=[])
    if v is NEVER or v is None or v.op == "never":
        raise Fail("%s panics" % ctx, key)
    fx = st.env.get(FX, mk("vec"))
    s = Stage(ctx)
    s.ip, s.fx, s.value, s.key = ip, fx, v, key
    s.marks = marks(fx)
    for e in ordered(fx):
        if e.a[0] == "print":
            s.parts.append(template(ctx, e.a[1], ip, fx))
        elif e.a[0] == "mark":
            s.parts.append(("mark", e.a[1]))
    return s


def silent(ck):
    """local functions which neither print nor change their arguments, also not through others"""
    by = {b["key"]: b for b in ck.dump["bodies"]}
    loud, uses = set(), {}

    def scan(x, k):
        if isinstance(x, dict):
            if x.get("k") == "call" and isinstance(x.get("callee"), dict) and re.search(r"::_print$|::io::|::fs::|::time::|::process::", x["callee"].get("path") or ""):
                loud.add(k)
            for f in ("key", "reskey"):
                if isinstance(x.get(f), str):
                    uses.setdefault(k, set()).add(x[f])
            for v in x.values():
                scan(v, k)
        elif isinstance(x, list):
            for v in x:
                scan(v, k)
    for k, b in by.items():
        scan(b.get("root"), k)
        if any("&mut" in str(p) or "&'a mut" in str(p) for p in b.get("params") or ()):
            loud.add(k)
    n = -1
    while n != len(loud):
        n = len(loud)
        loud |= {k for k in by if uses.get(k, set()) & loud}
    return [k for k in by if k not in loud and "{closure" not in k]


class Programs:
    """lines of the programs of the pipeline for one type"""
    def __init__(self, ck, ty):
        self.ck, self.ty = ck, ty
        T_ = c15.TYPE[ty]
        g = lambda *a: ck.find(*a)
        wr, gen, gs = ck.key("write_pairs_rowsum"), ck.key("generate_rowsums"), ck.key("generate_sequences_with_rowsum")
        U = c12.uninterp(ck)
        km = ck.key("main")
        self.rowsum = run(ck, "pairs of one row sum", wr, [S(ty), mk("tuple", *map(I, c15.RSV)), I(N), c11.opt("PSD"), c11.pairing("WZ")], un=[U["dft"], U["idft"], gs])
        self.pairs = run(ck, "pairs", km, [], marked=[wr], un=[gen], argv=["rust", "pairs", ty, str(N), "psd", "WZ"])
        jf, red, jp = ck.key("join_pairs_files"), ck.key("reduce_to_canonical_reps"), ck.key("join_pairs")
        un = [k for k in (g("ns_canonical"), g("sn_ss_canonical"), g("get_sequences_from_dir"), g("get_order_from_dir")) if k]
        self.joinpairs = run(ck, "matching and reduction", jp, [I(N), T_], marked=[jf, red], un=un)
        un = [k for k in (g("to_string", "QuadSeq"), g("to_qs", "QuadSeq"), g("to_string_raw", "QS"), g("is_amicable", "QuadSeq")) if k]
        self.join = run(ck, "join", km, [], marked=[red, jp], un=un, argv=["rust", "join", ty, str(N)])
        bools, conv = [k for k in (g("verify", "QuadSeq"), g("is_amicable", "QuadSeq"), g("verify_qts", "QuadSeq"), g("verify_wts", "QuadSeq"), g("verify_ws", "QuadSeq")) if k], []
        o = mk("tuple", *[tag(c) for c in "WZXY"])
        s4 = mk("tuple", *[Sym("s%d" % i, "list") for i in range(4)])
        self.files = run(ck, "one pair of files", jf, [mk("tuple", S("a/pair_WZ.pair.sorted"), S("a/pair_XY.pair.sorted")), T_, o, s4], un=silent(ck))
        un = [k for k in (g("from_williamson", "HM"), g("verify", "QuadSeq"), g("from_str", "QS"), g("from_pqs", "QuadSeq"), g("to_string_magma", "HM"), g("graph_from_hm"), g("canon_hm"),
                          g("to_string", "QHM"), g("from_pqs", "QHM"), g("dephased", "QHM"), g("dephase", "QHM"), g("contains_non_commuting_elements", "QHM")) if k]
        self.hm = run(ck, "conversion to Hadamard matrices", km, [], un=un, argv=["rust", "convert", "hm", ty, str(N)])
        self.qhm = run(ck, "conversion to quaternionic matrices", km, [], un=un, argv=["rust", "convert", "qhm", ty, str(N)])
        self.kw, self.kj, self.kr, self.kf, self.kg = wr, jp, red, jf, gen
        self.mat = sorted({p for p in c15.created_(self.hm.fx)} if hasattr(c15, "created_") else {norm(c15.text(e.a[1])) for e in ordered(self.hm.fx) if e.a[0] in ("create", "append")})

    def lines(self, stage):
        sub = {self.kw: self.rowsum, self.kj: self.joinpairs, self.kf: self.files}
        out = []
        for p in stage.parts:
            if isinstance(p, tuple):
                if p[1] in sub:
                    out += self.lines(sub[p[1]])
            else:
                out += p
        return out

    def of(self, argv):
        """printed parts of a command line of a script"""
        cmd = [shlit(a) for a in argv[1:3]]
        s = {"pairs": self.pairs, "join": self.join}.get(cmd[0])
        if cmd[0] == "convert":
            s = {"hm": self.hm, "qhm": self.qhm}.get(cmd[1])
        if s is None:
            raise Undecided("command %s" % shshow(argv[0]))
        return self.lines(s)


# ---------------------------------------------------------------- the log
def value_of(sh, t, kind):
    """slot of a shell value; its interval, if it is the difference of two clock readings"""
    m = re.fullmatch(r"<\?output of line (\d+)>", t)
    s = Slot(sh.name, "", kind, None)
    s.known = False
    if m:
        d = re.fullmatch(r"\(?<\?output of line (\d+)> - <\?output of line (\d+)>\)?", sh.subs.get(int(m.group(1)), ""))
        if d:
            a, b = int(d.group(2)), int(d.group(1))
            s.span = [("calls",) + k for k in sorted({(l, lab) + tuple(shlit(x) or "" for x in av[1:3]) for l, lab, av, _, _ in sh.calls if a < l < b})]
            s.span = list(dict.fromkeys(s.span))
            s.known = True
        elif int(m.group(1)) in sh.subs:
            s.what = sh.subs[int(m.group(1))]
    return s


def shell_text(sh, src, env):
    """parts of a line written by printf or echo"""
    _, cmd, args, line = src
    args = list(args)
    out = []

    def word(v, kind="int"):
        t = "".join(x if isinstance(x, str) else "<" + x[1] + ">" for x in v)
        for p in re.split(r"(<[^<>]*>)", t):
            if p.startswith("<") and p.endswith(">"):
                if p.startswith("<?"):
                    out.append(value_of(sh, p, kind))
                else:
                    out.append(c15.resolve((("sym", p[1:-1]),), env))
            elif p:
                out.append(p)
    if cmd == "printf":
        f = shlit(args[0])
        if f is None:
            raise Undecided("%s line %d: printf format" % (sh.name, line))
        vs = args[1:]
        f = f.replace("\\n", "\n").replace("\\t", "\t")
        i = 0
        for p in re.split(r"(%%|%[-+ 0]*\d*(?:\.\d+)?[a-zA-Z])", f):
            if p == "%%":
                out.append("%")
            elif p.startswith("%") and len(p) > 1:
                if i >= len(vs):
                    raise Undecided("%s line %d: printf without argument" % (sh.name, line))
                v = vs[i]
                i += 1
                if p[-1] in "fFeg":
                    m = re.fullmatch(r"%\.(\d+)f", p)
                    s = value_of(sh, shshow(v), "float")
                    s.prec = int(m.group(1)) if m else 6
                    if not m and p != "%f":
                        raise Undecided("%s line %d: %s" % (sh.name, line, p))
                    out.append(s)
                elif p in ("%s", "%d", "%i"):
                    word(v, "int")
                else:
                    raise Undecided("%s line %d: %s" % (sh.name, line, p))
            elif p:
                out.append(p)
    else:
        nl, esc = "\n", False
        while args and re.fullmatch(r"-[neE]+", shlit(args[0]) or ""):
            nl = "" if "n" in shlit(args[0]) else nl
            esc = esc or "e" in shlit(args[0])
            args = args[1:]
        for i, a in enumerate(args):
            if i:
                out.append(" ")
            if esc:
                a = tuple(x.replace("\\n", "\n").replace("\\t", "\t") if isinstance(x, str) else x for x in a)
            word(a)
        out.append(nl)
    w = "".join(x if isinstance(x, str) else "{}" for x in out)
    for x in out:
        if isinstance(x, Slot):
            x.line = w
    return out


def compose(prog, f, log, env, problems, top=True):
    """parts the script f appends to the log"""
    sh = script(f)
    if sh.incomplete:
        problems.append("%s: lines %s redirect in a form that is not analysed" % (f, sorted(sh.incomplete)))
    out = []
    items = sorted(sh.log.items(), key=lambda kv: kv[1][0])
    # calls of other scripts at the place of the call
    seq = [(line, "log", k, v) for k, v in items for line in (k[1][3],)]
    called = {}
    for line, label, argv, done, opts in sh.calls:
        if label.endswith(".sh"):
            called.setdefault((line, label), argv)
    seq += [(line, "call", label, None) for (line, label) in called]
    seq.sort(key=lambda x: (x[0], x[1] == "call"))
    seen = set()
    n = 0
    for line, what, k, v in seq:
        if what == "call":
            if k not in seen and os.path.exists(os.path.join(ROOT, k)):
                seen.add(k)
                out += compose(prog, k, log, env, problems, False)
                n += 1
            continue
        _, src, target, append = k
        try:
            p = norm(c15.resolve(target, env))
        except Undecided as ex:
            problems.append("%s line %d: %s" % (f, line, ex))
            continue
        if p != log:
            continue
        key = (src[0], src[1], tuple(shlit(a) for a in src[2][1:3]), line) if src[0] == "stage" else src
        if key in seen:
            continue
        seen.add(key)
        if not append and (out or n or not top):
            raise Fail("line %d of %s truncates the log that earlier stages have written" % (line, f), "rust/%s:%d" % (f, line))
        if src[0] == "stage":
            if src[1].startswith("rust"):
                out += prog.of(src[2])
        else:
            out += shell_text(sh, src, env)
    return out


PIPES = {"driver.sh": ("driver.sh",), "single scripts": ("pairs.sh", "sortpairs.sh", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh")}


def logof(prog, pipe, ty):
    env = {"$1": ty, "$2": str(N), "OPTARG of -p": "WZ"}
    log = "results/pairs/%s/find_%d/result.log" % (ty, N)
    problems, out = [], []
    for i, f in enumerate(PIPES[pipe]):
        out += compose(prog, f, log, env, problems, i == 0)
    return log, out, problems


def render(parts, mode):
    """lines of the log with their slots"""
    out = []
    for i, p in enumerate(parts):
        if isinstance(p, Slot):
            t = p.text(mode)
            out.append(Txt(t, [(0, len(t), ("slot", i))]))
        else:
            out.append(p)
    whole = join(out)
    lines, i = [], 0
    for l in str(whole).splitlines(True):
        lines.append(whole.cut(i, i + len(l)))
        i += len(l)
    return lines


# ---------------------------------------------------------------- the table
LABELS = (("W", r"W_"), ("Q", r"Q_"), ("M", r"M_"), ("qt", r"QT Equ"), ("hm", r"HM Equ"), ("time", r"Time"), ("pairs", r"Pairs"), ("disk", r"Disk|Space"))
HEAD = re.compile(r"[WQM]_\S*|(?:QT|HM) Equ.*?\(s\)|\S*[Tt]ime\b(?: \(s\))?|\S*[Pp]airs\b|(?:Disk|Space)[^&\t]*")


def split(line, seps):
    s, out, i = str(line), [], 0
    for p in re.split(seps, s):
        out.append(line.cut(i, i + len(p)))
        i += len(p) + 1
    return out


def cells(line, latex):
    if latex:
        return split(line.cut(0, len(str(line).rstrip("\\"))), "&")
    if "\t" in str(line):
        return split(line, "\t")
    return [line.cut(m.start(), m.end()) for m in re.finditer(r"\S+", str(line))]


def table(py, latex):
    """label -> provenance of the cell"""
    out = py.run()
    lines, i = [], 0
    for l in str(out).split("\n"):
        lines.append(out.cut(i, i + len(l)))
        i += len(l) + 1
    head = None
    for k, l in enumerate(lines):
        heads = [m.group(0) for m in HEAD.finditer(str(l))]
        labs = [next((nm for nm, rx in LABELS if re.search(rx, x)), None) for x in heads]
        if labs.count("pairs") == 1 and "Q" in labs:
            head = (k, labs)
            break
    if head is None:
        raise Undecided("no header line in the table: %s" % str(out)[:300])
    k, labs = head
    if None in labs or len(set(labs)) != len(labs):
        raise Undecided("header of the table: %s" % str(lines[k]))
    for l in lines[k + 1:]:
        # the row of the length
        r = cells(l, latex)
        if not r or str(r[0]).strip() != str(N):
            continue
        if len(r) != len(labs) + 1:
            raise Fail("the row has %d cells after the length, the header names %d: %s" % (len(r) - 1, len(labs), labs), "rust/collect_results.py")
        got = {}
        for lab, x in zip(labs, r[1:]):
            s = [t for a, b, t in x.slots if b > a]
            got[lab] = s[0] if len(s) == 1 else ("text", str(x).strip(), tuple(s))
        return got
    raise Undecided("no row for the length: %s" % str(out)[:300])


# ---------------------------------------------------------------- check
class Model(Mod):
    """opaque calls as functions of their arguments: lists for the stages, values for the rest"""
    def v_dirent(self, t, e):
        return "/".join(str(x) if isinstance(x, str) else str(value(self, x)[1]) if x.op not in ("bool",) else "" for x in t.a)


def equal(a, b, prog):
    """True / message / None"""
    if a is b:
        return True
    r = random.Random(26)
    apps = {x.a[0] for z in (a, b) for x in find_ops(z, ("app",))}
    done, err = 0, None
    for rep in range(30):
        memo = {}

        def fn(name, memo=memo):
            def f(*args):
                key = (name, repr(args))
                if key not in memo:
                    if name == prog.kw:
                        memo[key] = r.randrange(50)
                    elif name == prog.kr:
                        memo[key] = sorted(set(x % 4 for x in args[0] if isinstance(x, int))) if args and isinstance(args[0], (list, tuple)) else [r.randrange(4)]
                    elif name == prog.kf:
                        memo[key] = [r.randrange(12) for _ in range(r.randrange(1, 9))]
                    elif "order" in name or "dir" in name:
                        memo[key] = tuple(r.randrange(100) for _ in range(4))
                    elif args and isinstance(args[0], int):
                        memo[key] = args[0] % 6
                    elif "to_qs" in name or "string" in name:
                        memo[key] = key[1]
                    else:
                        memo[key] = [r.randrange(12) for _ in range(r.randrange(6))]
                return memo[key]
            return f
        try:
            m = Model(dict(n=N), {x: fn(x) for x in apps})
            x, y = value(m, a), value(m, b)
        except (NoEval, KeyError, TypeError, ValueError, IndexError, AttributeError) as ex:
            err = ex
            continue
        if "bottom" in (x[0], y[0]):
            continue
        done += 1
        if x != y:
            return "%s instead of %s when %d calls of the stages return given lists" % (x[1], y[1], len(memo))
    return None


def check(ck):
    site = "rust/collect_results.py"
    path = os.path.join(ROOT, "collect_results.py")
    progs, errs = {}, {}
    for ty in TYPES_:
        def build(ty=ty):
            progs[ty] = Programs(ck, ty)
        nm = "lines printed by the programs for %s" % ty

        def go(ty=ty, nm=nm):
            build(ty)
            p = progs[ty]
            n_ = sum(1 for s in (p.pairs, p.rowsum, p.join, p.joinpairs, p.files, p.hm, p.qhm) for x in s.parts if isinstance(x, list))
            ck.ok(nm, "effects of the stages with the printed terms", p.pairs.key, "%d lines" % n_)
        ck.run(nm, "main", go)
    for pipe in PIPES:
        for ty in TYPES_:
            for form in ("t", "l"):
                nm = "table of a run of %s, type %s, form %s" % (pipe, ty, form)

                def go(pipe=pipe, ty=ty, form=form, nm=nm):
                    if ty not in progs:
                        raise Undecided("the printed lines are not known")
                    if not os.path.exists(path):
                        raise Undecided("collect_results.py is not there")
                    one(ck, nm, site, path, progs[ty], pipe, ty, form)
                ck.run(nm, site, go)


def one(ck, nm, site, path, prog, pipe, ty, form):
    log, parts, problems = logof(prog, pipe, ty)
    nslots = sum(isinstance(p, Slot) for p in parts)
    src = open(path).read()
    und = list(problems)
    notes = []
    mats = {"short": 13, "zero": 0, "long": 17}
    for mode in ("short", "zero", "long"):
        for withmat in ((True, False) if mode == "short" else (True,)):
            lines = render(parts, mode)
            files = {log: lines}
            if withmat:
                for f in prog.mat:
                    files[f] = [Txt("[[1]]\n")] * mats[mode]
            try:
                py = Py(src, ["collect_results.py", str(N), str(N), ty, form], files)
                got = table(py, form == "l")
            except PyRaise as ex:
                raise Fail("the table script fails with %s on the log of a completed run (%s numbers)" % (ex, mode), site)
            except SyntaxError as ex:
                raise Fail("the table script is not valid: %s" % ex, site)
            except PyUnsupported as ex:
                raise Undecided("the table script uses %s" % ex)
            for lab in ("W", "Q", "M", "time", "pairs") + (("qt", "hm") if form == "t" else ()):
                if lab not in got:
                    if lab == "W" and ty != "wts":
                        continue
                    raise Undecided("no column %s in the table" % lab)
                if lab == "M":
                    w = ("const", mats[mode]) if withmat else ("const", -1)
                    if got[lab] != w:
                        raise Fail("the number of matrices is shown as %s when result.mat %s" % (tell(got[lab], parts), "has %d lines" % mats[mode] if withmat else "does not exist"), site)
                    continue
                r = judge(prog, lab, got[lab], parts, ty)
                if r is None:
                    und.append("column %s: origin of %s is not decided" % (lab, tell(got[lab], parts)))
                elif r is not True:
                    if problems and got[lab][:1] == ("const",):
                        und.append(r)
                        continue
                    raise Fail("column %s (%s numbers): %s" % (lab, mode, r), site)
                elif mode == "short" and withmat:
                    notes.append("%s <- %s" % (lab, tell(got[lab], parts)))
    if und:
        raise Undecided("; ".join(dict.fromkeys(und)))
    ck.ok(nm, "provenance of every cell, abstract log of %d numbers in %d parts" % (nslots, len(parts)), site, "; ".join(notes))


def slots_of(src, parts):
    if src[0] == "slot":
        return [parts[src[1]]]
    if src[0] == "sum":
        out = []
        for x in src[1]:
            s = slots_of(x, parts)
            if s is None:
                return None
            out += s
        return out
    return None


def tell(src, parts):
    s = slots_of(src, parts)
    if s is not None:
        return " + ".join("the number of \"%s\" (%s)" % (x.line.strip(), x.ctx) for x in s) or "0"
    if src[0] == "const":
        return "%s: no line of the log matches" % src[1] if src[1] == -1 else "the constant %s" % (src[1],)
    if src[0] == "text":
        return "the text %r, which is not a whole number of the log" % src[1]
    if src[0] == "opaque":
        return "a value that is not read from the log (%s)" % src[1]
    return str(src)


def stage_of(span, prog):
    """what a duration covers"""
    if span is None:
        return None
    return sorted(set(span))


def judge(prog, lab, src, parts, ty):
    """True, None (not decided) or what is wrong"""
    s = slots_of(src, parts)
    if lab in ("W", "Q", "pairs"):
        if ty == "ws" and lab == "Q" and src == ("const", -1):
            return True                                    # not computed for this type
        if s is None or len(s) != 1:
            return "shows %s" % tell(src, parts)
        x, = s
        if lab == "pairs":
            if x.ctx != prog.pairs.name:
                return "shows %s, not the total of all row sums" % tell(src, parts)
            t = x.term
            r = total(t, prog)
            return r if r in (True, None) else "the line \"%s\" holds %s" % (x.line.strip(), r)
        st = prog.join if lab == "Q" and ty == "wts" else prog.joinpairs
        if x.ctx != st.name:
            return "shows %s" % tell(src, parts)
        if st is prog.joinpairs:
            want = _lenof(st.value)
        else:
            reds = sorted({a for a in find_ops(st.fx, ("app",)) if a.a[0] == prog.kr}, key=lambda a: a.key)
            if len(reds) != 1:
                return None
            want = _lenof(reds[0])
        r = equal(x.term, want, prog)
        return True if r is True else None if r is None else "the line \"%s\" holds %s, not the number of sequences in the result (%s)" % (x.line.strip(), show(x.term)[:200], r)
    # durations
    if s is None or (not s and src != ("const", 0)):
        return "shows %s" % tell(src, parts)
    kinds = []
    for x in s:
        if x.term is not None and not x.known:
            return "the line \"%s\" is not in seconds" % x.line.strip()
        if x.span is None:
            if x.ctx == prog.rowsum.name or x.ctx == prog.files.name:
                return "includes %s, which is part of another time" % tell(("slot", parts.index(x)), parts)
            return None
        kinds.append(kind_of(x, prog))
    want = {"time": ["match", "pairs", "sort"], "qt": ["reduce"], "hm": ["hm"]}[lab]
    if None in kinds:
        bad = [x for x, k in zip(s, kinds) if k is None]
        return "includes the duration of \"%s\", which covers %s" % (bad[0].line.strip(), bad[0].span)
    if sorted(kinds) != want:
        return "is the time of %s, not of %s (%s)" % (sorted(kinds), want, tell(src, parts))
    if lab == "qt" and ty == "wts":
        x, = s
        if x.ctx != prog.join.name:
            return "shows the time of the reduction up to Williamson-type equivalence, not the one up to QT equivalence"
    return True


def total(t, prog):
    """True / message / None: t is the sum of the counts of all row sums"""
    apps = {x.a[0] for x in find_ops(t, ("app",))}
    if not apps <= {prog.kw, prog.kg}:
        return None
    r = random.Random(26)
    for rep in range(10):
        rows = [tuple(r.sample(range(100), 4)) for _ in range(rep % 5)]
        memo = {}

        def count(*a):
            return memo.setdefault(repr(a), r.randrange(1, 50))
        try:
            v = value(Mod(dict(n=N), {prog.kw: count, prog.kg: lambda *a: rows}), t)
        except (NoEval, KeyError, TypeError, ValueError, IndexError):
            return None
        if len(memo) > len(rows):
            return None
        if len(memo) < len(rows) or v != ("v", sum(memo.values())):
            return "%s, which is %s for %d row sums with the counts %s" % (show(t)[:150], v[1], len(rows), sorted(memo.values()))
    return True


def kind_of(x, prog):
    if x.term is not None:
        sp = x.span
        if x.ctx == prog.pairs.name and set(sp) == {prog.kw} and len(sp) == prog.pairs.marks.count(prog.kw):
            return "pairs"
        if x.ctx == prog.joinpairs.name:
            if set(sp) == {prog.kf} and len(sp) == prog.joinpairs.marks.count(prog.kf):
                return "match"
            if set(sp) == {prog.kr}:
                return "reduce"
        if x.ctx == prog.join.name and set(sp) == {prog.kr}:
            return "reduce"
        return None
    labs = {k[2:] for k in x.span}
    names = {l[0] for l in labs}
    if x.ctx == "sortpairs.sh" and names == {"sort"}:
        return "sort"
    if names == {"sortpairs.sh"}:
        return "sort"
    if labs and all(l[0].startswith("rust") and l[1:3] == ("convert", "hm") for l in labs):
        return "hm"
    return None
