"""Shell scripts: parser and abstract interpreter (no command is run).

Values are tuples of literal pieces and atoms ("sym", name). Every external command of interest forks the state into its
success and its failure; loops are run to a fixpoint over the finite set of abstract states."""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- parser
KW = {"if", "then", "elif", "else", "fi", "for", "while", "until", "do", "done", "case", "esac", "in", "{", "}", "!", "function"}
OPS = ["&>>", "&>", "<<<", "<<", "<&", ">&", ">>", ">|", "&&", "||", ";;", "|&", "|", "&", ";", "(", ")", "<", ">", "\n"]


class P:
    def __init__(self, text):
        self.s, self.i = text, 0

    def line(self, i=None):
        return self.s.count("\n", 0, self.i if i is None else i) + 1

    def ws(self):
        s = self.s
        while self.i < len(s):
            if s[self.i] in " \t\r":
                self.i += 1
            elif s.startswith("\\\n", self.i):
                self.i += 2
            elif s[self.i] == "#":
                while self.i < len(s) and s[self.i] != "\n":
                    self.i += 1
            else:
                return

    def op(self):
        self.ws()
        if self.i >= len(self.s):
            return "EOF"
        for o in OPS:
            if self.s.startswith(o, self.i):
                return o
        return None

    def eat(self, o):
        if self.op() == o:
            self.i += len(o)
            return True
        return False

    def nl(self):
        while self.eat("\n"):
            pass

    def peekword(self):
        """literal text of the next word when it is plain, without consuming"""
        self.ws()
        m = re.compile(r"[^\s;&|()<>'\"$`\\]+").match(self.s, self.i)
        if not m:
            return None
        e = m.end()
        if e < len(self.s) and self.s[e] in "'\"$`\\":
            return None
        return m.group()

    def kw(self, w):
        if self.peekword() == w:
            self.i += len(w)
            return True
        return False

    def need(self, w):
        self.nl()
        if not self.kw(w):
            raise Unsupported(f"line {self.line()}: expected {w}")

    # words
    def dollar(self):
        s = self.s
        assert s[self.i] == "$"
        self.i += 1
        if s.startswith("((", self.i):
            d, j = 0, self.i
            while j < len(s):
                d += (s[j] == "(") - (s[j] == ")")
                j += 1
                if d == 0:
                    break
            t = s[self.i + 2:j - 2]
            self.i = j
            return ("arith", t)
        if s.startswith("(", self.i):
            self.i += 1
            ln = self.line()
            l = self.list({")"})
            if not self.eat(")"):
                raise Unsupported(f"line {ln}: unclosed $(")
            return ("cmd", l, ln)
        if s.startswith("{", self.i):
            j = s.index("}", self.i)
            t = s[self.i + 1:j]
            self.i = j + 1
            m = re.fullmatch(r"([A-Za-z_]\w*|[0-9]+|[?#@*$!])((?:\[[^\]]*\])?)(.*)", t, re.S)
            if t.startswith("#") and len(t) > 1:
                return ("var", t[1:], "#len")
            if not m:
                raise Unsupported(f"line {self.line()}: ${{{t}}}")
            return ("var", m.group(1) + m.group(2), m.group(3))
        m = re.compile(r"[A-Za-z_]\w*|[0-9]|[?#@*$!-]").match(s, self.i)
        if not m:
            return ("lit", "$")
        self.i = m.end()
        return ("var", m.group(), "")

    def word(self):
        self.ws()
        s, parts = self.s, []
        while self.i < len(s):
            c = s[self.i]
            if c in " \t\r\n;&|()<>":
                break
            if c == "'":
                j = s.index("'", self.i + 1)
                parts.append(("q", s[self.i + 1:j]))
                self.i = j + 1
            elif c == '"':
                self.i += 1
                sub = []
                while s[self.i] != '"':
                    if s[self.i] == "\\" and s[self.i + 1] in '$`"\\':
                        sub.append(("q", s[self.i + 1]))
                        self.i += 2
                    elif s.startswith("\\\n", self.i):
                        self.i += 2
                    elif s[self.i] == "$":
                        sub.append(self.dollar())
                    elif s[self.i] == "`":
                        sub.append(self.backtick())
                    else:
                        sub.append(("q", s[self.i]))
                        self.i += 1
                    if self.i >= len(s):
                        raise Unsupported("unclosed quote")
                self.i += 1
                parts.append(("dq", tuple(sub)))
            elif c == "\\":
                if s.startswith("\\\n", self.i):
                    self.i += 2
                    continue
                parts.append(("q", s[self.i + 1]))
                self.i += 2
            elif c == "$":
                parts.append(self.dollar())
            elif c == "`":
                parts.append(self.backtick())
            else:
                parts.append(("lit", c))
                self.i += 1
                # array assignment
                if c == "=" and s.startswith("(", self.i) and re.fullmatch(r"[A-Za-z_]\w*\+?=", "".join(x[1] for x in parts if x[0] == "lit")):
                    j = s.index(")", self.i)
                    sub = P(s[self.i + 1:j])
                    ws = []
                    while True:
                        sub.ws()
                        if sub.eat("\n"):
                            continue
                        if sub.i >= len(sub.s):
                            break
                        ws.append(sub.word())
                    parts.append(("array", tuple(ws)))
                    self.i = j + 1
        if not parts:
            return None
        out = []
        for p in parts:                                    # merge literal characters
            if out and p[0] == out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
            else:
                out.append(p)
        return tuple(out)

    def backtick(self):
        j = self.i + 1
        while self.s[j] != "`":
            j += 1 + (self.s[j] == "\\")
        ln = self.line()
        t = self.s[self.i + 1:j].replace("\\`", "`")
        self.i = j + 1
        return ("cmd", P(t).list({"EOF"}), ln)

    # commands
    def list(self, stop):
        """items until an operator or keyword in stop"""
        items = []
        while True:
            self.nl()
            o = self.op()
            if o in stop or o == "EOF":
                return items
            w = self.peekword()
            if w in stop:
                return items
            if w in ("then", "fi", "do", "done", "else", "elif", "esac", "}"):
                raise Unsupported(f"line {self.line()}: unexpected {w}")
            ao = [("", self.pipeline())]
            while True:
                if self.eat("&&"):
                    self.nl()
                    ao.append(("&&", self.pipeline()))
                elif self.eat("||"):
                    self.nl()
                    ao.append(("||", self.pipeline()))
                else:
                    break
            bg = False
            if self.op() == "&":
                self.i += 1
                bg = True
            elif not self.eat(";"):
                o = self.op()
                if o not in stop and o not in ("\n", "EOF"):
                    raise Unsupported(f"line {self.line()}: unexpected {o or self.s[self.i:self.i+10]!r}")
            items.append((ao, bg))

    def pipeline(self):
        neg = False
        ln = self.line()
        while True:
            if self.kw("!"):
                neg = not neg
            elif self.kw("time"):
                pass
            else:
                break
        cs = [self.command()]
        while self.op() in ("|", "|&"):
            self.i += len(self.op())
            self.nl()
            cs.append(self.command())
        return (neg, cs, ln)

    def redirs(self):
        rs = []
        while True:
            self.ws()
            m = re.compile(r"([0-9]*)(&>>|&>|<<<|<<|<&|>&|>>|>\||<|>)").match(self.s, self.i)
            if not m:
                return rs
            if m.group(2) == "<<":
                raise Unsupported(f"line {self.line()}: here-document")
            self.i = m.end()
            w = self.word()
            rs.append((m.group(1), m.group(2), w))

    def command(self):
        self.ws()
        ln = self.line()
        if self.s.startswith("((", self.i):
            j = self.s.index("))", self.i)
            t = self.s[self.i + 2:j]
            self.i = j + 2
            return ("arith", t, ln)
        if self.eat("("):
            l = self.list({")"})
            if not self.eat(")"):
                raise Unsupported(f"line {ln}: unclosed (")
            return ("sub", l, self.redirs(), ln)
        w = self.peekword()
        if w == "{":
            self.i += 1
            l = self.list({"}"})
            self.need("}")
            return ("group", l, self.redirs(), ln)
        if w == "if":
            self.i += 2
            arms, els = [], None
            c = self.list({"then"})
            self.need("then")
            arms.append((c, self.list({"elif", "else", "fi"})))
            while True:
                if self.kw("elif"):
                    c = self.list({"then"})
                    self.need("then")
                    arms.append((c, self.list({"elif", "else", "fi"})))
                elif self.kw("else"):
                    els = self.list({"fi"})
                else:
                    self.need("fi")
                    return ("if", arms, els, self.redirs(), ln)
        if w in ("while", "until"):
            self.i += 5
            c = self.list({"do"})
            self.need("do")
            b = self.list({"done"})
            self.need("done")
            return ("while", w == "until", c, b, self.redirs(), ln)
        if w == "for":
            self.i += 3
            self.ws()
            if self.s.startswith("((", self.i):
                j = self.s.index("))", self.i)
                t = self.s[self.i + 2:j]
                self.i = j + 2
                self.eat(";")
                self.need("do")
                b = self.list({"done"})
                self.need("done")
                return ("cfor", t, b, self.redirs(), ln)
            v = self.word()
            self.nl()
            ws = None
            if self.kw("in"):
                ws = []
                while self.op() is None:
                    ws.append(self.word())
            self.eat(";")
            self.need("do")
            b = self.list({"done"})
            self.need("done")
            return ("for", v[0][1], ws, b, self.redirs(), ln)
        if w == "case":
            self.i += 4
            x = self.word()
            self.need("in")
            arms = []
            while True:
                self.nl()
                if self.kw("esac"):
                    return ("case", x, arms, self.redirs(), ln)
                self.eat("(")
                ps = [self.word()]
                while self.eat("|"):
                    ps.append(self.word())
                if not self.eat(")"):
                    raise Unsupported(f"line {self.line()}: case pattern")
                b = self.list({";;", "esac"})
                self.eat(";;")
                arms.append((ps, b))
        if w == "function":
            self.i += 8
            name = self.peekword()
            self.i += len(name)
            self.ws()
            if self.s.startswith("()", self.i):
                self.i += 2
            self.nl()
            return ("func", name, self.command(), ln)
        m = re.compile(r"([A-Za-z_][\w-]*)[ \t]*\([ \t]*\)").match(self.s, self.i)
        if m:
            self.i = m.end()
            self.nl()
            return ("func", m.group(1), self.command(), ln)
        if w == "[[":
            self.i += 2
            j = self.s.index("]]", self.i)
            t = P(self.s[self.i:j])
            ws = []
            while True:
                t.ws()
                if t.i >= len(t.s):
                    break
                o = t.op()
                if o:
                    ws.append((("q", o),))
                    t.i += len(o)
                    continue
                ws.append(t.word())
            self.i = j + 2
            return ("test", ws, self.redirs(), ln)
        assigns, words, rs = [], [], []
        while True:
            rs += self.redirs()
            if self.op() is not None:
                break
            x = self.word()
            if x is None:
                break
            m = re.match(r"([A-Za-z_]\w*)(\+?)=", x[0][1]) if x[0][0] == "lit" else None
            if m and not words:
                rest = ((("lit", x[0][1][m.end():]),) if x[0][1][m.end():] else ()) + x[1:]
                assigns.append((m.group(1), m.group(2), rest))
            else:
                words.append(x)
        if not (assigns or words or rs):
            raise Unsupported(f"line {ln}: empty command at {self.s[self.i:self.i+12]!r}")
        return ("simple", assigns, words, rs, ln)


def parse(text):
    p = P(text)
    l = p.list({"EOF"})
    if p.op() != "EOF":
        raise Unsupported(f"line {p.line()}: stray input")
    return l


# ---------------------------------------------------------------- abstract interpreter
NZ = (("sym", "nonzero"),)
ZERO = ("0",)


def show(v):
    return "".join(x if isinstance(x, str) else "<" + x[1] + ">" for x in v)


def norm(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return tuple(out)


def lit(v):
    if v == ():
        return ""
    return v[0] if len(v) == 1 and isinstance(v[0], str) else None


class S:
    """abstract state"""
    __slots__ = ("vars", "exp", "errexit", "pipefail", "failed", "status", "pstat", "facts", "assume", "args", "trail", "funcs")

    def __init__(self):
        self.vars, self.exp, self.errexit, self.pipefail, self.failed = {}, frozenset(), False, False, None
        self.status, self.pstat, self.facts, self.assume, self.args, self.trail, self.funcs = ZERO, (), frozenset(), {}, (), (), {}

    def copy(self, **kw):
        s = S.__new__(S)
        for k in S.__slots__:
            setattr(s, k, getattr(self, k))
        s.vars, s.assume = dict(self.vars), dict(self.assume)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def key(self):
        return (tuple(sorted(self.vars.items())), self.exp, self.errexit, self.pipefail, self.failed, self.status, self.pstat, self.facts, tuple(sorted(self.assume.items())), self.args,
                tuple(sorted(self.funcs)))


QUIET = {"echo", "printf", "tee", "date", "mkdir", "wc", "bc", "expr", "cat", "touch", "export", "shift", "set", ":", "true", "rm", "mv", "cp", "cd", "sleep", "local", "declare", "readonly", "typeset", "unset",
         "ls", "head", "tail", "cut", "tr", "sed", "awk", "basename", "dirname", "shopt", "chmod", "ulimit", "wait", "trap", "find", "umask", "let", "hash", "uname", "nproc", "seq", "sync", "id", "whoami"}
PREFIX = {"time", "env", "nice", "command", "exec", "nohup", "builtin", "stdbuf", "ionice"}


class Sh:
    def __init__(self, text, name):
        self.name, self.ast = name, parse(text)
        self.events = []            # ("stage", label, args, redirs, state, line) ...
        self.limit = 400000
        self.posix = not re.match(r"#!\s*\S*(?:bash|env bash)", text)

    # hooks -----------------------------------------------------------------
    def stage(self, argv):
        """label of a stage command, or None"""
        return None

    def on(self, kind, **kw):
        pass

    # values ----------------------------------------------------------------
    def expand(self, w, st, quoted=False):
        """a word -> list of values (fields)"""
        fields, cur, multi = [], [], False
        glob = False
        for p in w:
            k = p[0]
            if k == "lit":
                t = p[1]
                if not fields and not cur and t.startswith("~"):
                    raise Unsupported("tilde")
                if re.search(r"[*?]|\[[^\]]+\]", t):
                    for q in re.split(r"(\*|\?|\[[^\]]+\])", t):
                        cur.append(("sym", "glob:" + q) if q and re.fullmatch(r"\*|\?|\[[^\]]+\]", q) else q)
                else:
                    cur.append(t)
            elif k == "q":
                cur.append(p[1])
            elif k == "dq":
                sub = p[1]
                if any(q[0] == "var" and q[1].split("[")[0] == "@" or q[0] == "var" and q[1].endswith("[@]") for q in sub):
                    if len(sub) != 1:
                        raise Unsupported("\"...$@...\"")
                    vs = self.multi(sub[0], st)
                    if len(w) == 1:
                        return list(vs)
                    raise Unsupported("\"$@\" joined to a word")
                for q in sub:
                    cur.append("") if q[0] == "q" and q[1] == "" else None
                    if q[0] == "q":
                        cur.append(q[1])
                    else:
                        cur.extend(self.scalar(q, st))
                if not sub:
                    cur.append("")
                multi = True
            elif k == "array":
                raise Unsupported("array value")
            else:
                if k == "var" and (p[1] in ("@", "*") or p[1].endswith("[@]") or p[1].endswith("[*]")):
                    if len(w) == 1:
                        return list(self.multi(p, st))
                    raise Unsupported("$@ joined to a word")
                v = self.scalar(p, st)
                for x in v:
                    if isinstance(x, str) and " " in x and not quoted:
                        ps = x.split(" ")
                        cur.append(ps[0])
                        for y in ps[1:]:
                            if norm(cur) or multi:
                                fields.append(norm(cur))
                            cur, multi = [y], False
                    else:
                        cur.append(x)
        v = norm(cur)
        if v or multi or quoted:
            fields.append(v)
        return fields

    def one(self, w, st):
        f = self.expand(w, st, True)
        return f[0] if f else ()

    def multi(self, p, st):
        if p[1] in ("@", "*"):
            return st.args
        v = st.vars.get(p[1].split("[")[0])
        if isinstance(v, tuple) and v and v[0] == "ARR":
            return v[1]
        raise Unsupported("array " + p[1])

    def scalar(self, p, st):
        k = p[0]
        if k == "var":
            n, mod = p[1], p[2]
            if n == "?":
                return st.status
            if n.startswith("PIPESTATUS"):
                m = re.fullmatch(r"PIPESTATUS(?:\[(\d+)\])?", n)
                if not m:
                    raise Unsupported(n)
                i = int(m.group(1) or 0)
                return st.pstat[i] if i < len(st.pstat) else ()
            if n.isdigit():
                i = int(n)
                if i and st.args == () and "0shift" in st.vars:
                    i += len(lit(st.vars["0shift"]))
                    n = str(i)
                v = (self.name,) if i == 0 else st.args[i - 1] if i <= len(st.args) else (("sym", "$" + n),) if st.args == () else ()
            elif n == "#":
                return (("sym", "$#"),)
            elif n in "$!-":
                return (("sym", "$" + n),)
            elif "[" in n:
                b = n.split("[")[0]
                return (("sym", n),) if b not in st.vars or st.vars[b][:1] != ("ARR",) else self.elem(st.vars[b][1], n)
            else:
                v = st.vars.get(n)
                if v is None:
                    v = (("sym", "$" + n),)
                elif v[:1] == ("ARR",):
                    v = v[1][0] if v[1] else ()
            if mod == "":
                return v
            if mod == "#len":
                return (("sym", "len " + n),)
            m = re.fullmatch(r":?-(.*)", mod, re.S)
            if m:
                if v == () or (n not in st.vars and not n.isdigit()):
                    return (("sym", f"{n} or {m.group(1)}"),) if n not in st.vars else (m.group(1),)
                return v
            m = re.fullmatch(r"%(\.?[\w.]+)", mod)
            if m:
                if v and isinstance(v[-1], str) and v[-1].endswith(m.group(1)):
                    return norm(v[:-1] + (v[-1][:-len(m.group(1))],))
                return (("sym", show(v) + "%" + m.group(1)),)
            return (("sym", "${" + n + mod + "}" + show(v)),)
        if k == "cmd":
            return (("sym", f"?output of line {p[2]}"),)
        if k == "arith":
            return self.arith(p[1], st)
        if k in ("lit", "q"):
            return (p[1],)
        raise Unsupported(k)

    def elem(self, vs, n):
        m = re.fullmatch(r"\w+\[(\d+)\]", n)
        return vs[int(m.group(1))] if m and int(m.group(1)) < len(vs) else (("sym", n),)

    def arith(self, t, st):
        def sub(m):
            n = m.group(1) or m.group(2)
            if n == "?":
                v = st.status
            else:
                v = st.vars.get(n, (("sym", "$" + n),))
            l = lit(v)
            if l is None or not re.fullmatch(r"-?\d+", l.strip() or "0"):
                raise KeyError(n)
            return "(" + (l or "0") + ")"
        try:
            e = re.sub(r"\$\{?(\w+|\?)\}?|\b([A-Za-z_]\w*)\b", sub, t)
        except KeyError:
            e = re.sub(r"\s+", "", t)
            vs = [show(st.vars.get(n, ("$" + n,))) for n in re.findall(r"[A-Za-z_]\w*", t)]
            if any("nonzero" in v for v in vs) or "?" in t and st.status == NZ:
                m = re.fullmatch(r"(?:\w+|\(\w+\))?\|+(?:\$?\w+|\$\?)|\$?\w+\|+\$?\w+", e)
                if m:                                      # or-ing a nonzero status keeps it nonzero
                    return NZ
            return (("sym", "?arithmetic"),)
        if not re.fullmatch(r"[\d\s()+\-*/%|&<>=!^]*", e) or not e.strip():
            raise Unsupported("arithmetic " + t)
        e = e.replace("||", " or ").replace("&&", " and ").replace("/", "//")
        try:
            return (str(int(eval(re.sub(r"!(?!=)", " not ", e), {"__builtins__": {}}))),)
        except Exception:
            raise Unsupported("arithmetic " + t)

    # tests -----------------------------------------------------------------
    def test(self, ws, st, dbl):
        """-> list of (bool, state)"""
        def ors(i):
            l, i = ands(i)
            while i < len(ws) and lit(ws[i]) in ("-o", "||"):
                r, j = ands(i + 1)
                l, i = ("or", l, r), j
            return l, i

        def ands(i):
            l, i = nots(i)
            while i < len(ws) and lit(ws[i]) in ("-a", "&&"):
                r, j = nots(i + 1)
                l, i = ("and", l, r), j
            return l, i

        def nots(i):
            if i < len(ws) and lit(ws[i]) == "!":
                r, j = nots(i + 1)
                return ("not", r), j
            if i < len(ws) and lit(ws[i]) == "(":
                r, j = ors(i + 1)
                if lit(ws[j]) != ")":
                    raise Unsupported("test parentheses")
                return r, j + 1
            if i + 2 < len(ws) + 0 and lit(ws[i + 1]) in ("=", "==", "!=", "-eq", "-ne", "-lt", "-gt", "-le", "-ge", "=~", "<", ">", "-nt", "-ot"):
                return ("bin", lit(ws[i + 1]), ws[i], ws[i + 2]), i + 3
            if i + 1 < len(ws) and re.fullmatch(r"-[a-zA-Z]", lit(ws[i]) or ""):
                return ("un", lit(ws[i]), ws[i + 1]), i + 2
            return ("un", "-n", ws[i]), i + 1

        if not ws:
            return [(False, st)]
        e, i = ors(0)
        if i != len(ws):
            raise Unsupported("test expression")

        def ev(e, st):
            if e[0] == "not":
                return [(not b, s) for b, s in ev(e[1], st)]
            if e[0] in ("and", "or"):
                out = []
                for b, s in ev(e[1], st):
                    out += ev(e[2], s) if b == (e[0] == "and") else [(b, s)]
                return out
            if e[0] == "un":
                l = lit(e[2])
                if e[1] in ("-z", "-n"):
                    if l is not None:
                        return [((l == "") == (e[1] == "-z"), st)]
                    if any(isinstance(x, str) and x for x in e[2]) or e[2] == NZ:
                        return [(e[1] == "-n", st)]
                    if any(isinstance(x, tuple) and x[1].startswith("?") for x in e[2]):
                        return [(True, st), (False, st)]
                    return self.guess(("empty", e[2]), e[1] == "-z", st)
                return [(True, st), (False, st)]
            _, o, a, b = e
            if o in ("=~", "<", ">", "-nt", "-ot"):
                return [(True, st), (False, st)]
            if o == "!=":
                return [(not x, s) for x, s in ev(("bin", "=", a, b), st)]
            if o == "-ne":
                return [(not x, s) for x, s in ev(("bin", "-eq", a, b), st)]
            la, lb = lit(a), lit(b)
            num = o.startswith("-")
            if la is not None and lb is not None:
                if num:
                    try:
                        x, y = int(la), int(lb)
                    except ValueError:
                        return [(False, st)]               # "integer expression expected": status 2
                    return [({"-eq": x == y, "-lt": x < y, "-gt": x > y, "-le": x <= y, "-ge": x >= y}[o], st)]
                return [(la == lb, st)]
            if any(isinstance(x, tuple) and x[1].startswith("?") for x in a + b):
                return [(True, st), (False, st)]
            if a == b:
                return [(o in ("=", "==", "-eq", "-le", "-ge"), st)]
            if NZ in (a, b):
                other = lb if a == NZ else la
                if o in ("=", "==", "-eq") and other is not None and other.strip() == "0":
                    return [(False, st)]
                if o == "-gt" and lb == "0" or o == "-ge" and lb == "1":
                    return [(True, st)]                    # exit statuses are not negative
                if o == "-le" and lb == "0" or o == "-lt" and lb in ("0", "1"):
                    return [(False, st)]
                return [(True, st), (False, st)]
            if o in ("=", "==") or o == "-eq":
                if any(isinstance(x, tuple) and x[1].startswith("glob:") for x in a + b):
                    return [(True, st), (False, st)]
                # a known other value settles it
                for (kind, x), val in st.assume.items():
                    if val and kind == "eq":
                        p, q = x
                        for u, v in ((a, b), (b, a)):
                            if p == u and lit(q) is not None and lit(v) is not None and lit(q) != lit(v):
                                return [(False, st)]
                return self.guess(("eq", (a, b)), True, st)
            return self.guess((o, (a, b)), True, st)

        return ev(e, st)

    def guess(self, cond, pos, st):
        if cond in st.assume:
            return [(st.assume[cond] == pos, st)]
        out = []
        for b in (True, False):
            s = st.copy()
            s.assume[cond] = b
            out.append((b == pos, s))
        return out

    # execution -------------------------------------------------------------
    def run(self):
        self.count = 0
        st = S()
        out = []
        for o, s in self.lst(self.ast, st, False):
            if o in ("next", "exit", "return"):
                out.append(s)
            else:
                out.append(s)
        seen, ends = set(), []
        for s in out:
            k = (s.failed, s.status, s.key())
            if k not in seen:
                seen.add(k)
                ends.append(s)
        return ends

    def dedup(self, rs):
        seen, out = set(), []
        for o, s in rs:
            k = (o, s.key())
            if k not in seen:
                seen.add(k)
                out.append((o, s))
        return out

    def lst(self, items, st, cond):
        """cond: in a condition, where errexit is off"""
        cur = [("next", st)]
        done = []
        for ao, bg in items:
            nxt = []
            for _, s in cur:
                if bg:
                    for o, t in self.andor(ao, s.copy(), True):
                        u = s.copy(failed=t.failed or s.failed, status=ZERO, facts=s.facts)
                        nxt.append(("next", u))
                else:
                    nxt += self.andor(ao, s, cond)
            nxt = self.dedup(nxt)
            done += [x for x in nxt if x[0] != "next"]
            cur = [x for x in nxt if x[0] == "next"]
            if not cur:
                break
        return self.dedup(done + cur)

    def andor(self, ao, st, cond):
        cur = [("next", st, False)]
        out = []
        for i, (op, pl) in enumerate(ao):
            nxt = []
            last = i == len(ao) - 1
            for o, s, _ in cur:
                if op and (s.status == ZERO) != (op == "&&"):
                    nxt.append((o, s, True))               # short-circuited: its failure is not an errexit failure
                    continue
                for o2, t in self.pipe(pl, s, cond or not last):
                    (nxt if o2 == "next" else out).append((o2, t, not last or pl[0]))
            cur = nxt
        res = []
        for o, s, skip in cur:
            if s.errexit and not cond and not skip and s.status != ZERO:
                res.append(("exit", s))
            else:
                res.append((o, s))
        return res + [(o, s) for o, s, _ in out]

    def pipe(self, pl, st, cond):
        neg, cs, ln = pl
        if len(cs) == 1:
            rs = self.cmd(cs[0], st, cond, ())
            out = []
            for o, s in rs:
                if o == "next":
                    s = s.copy(pstat=(s.status,))
                    if neg:
                        s.status = NZ if s.status == ZERO else ZERO
                out.append((o, s))
            return out
        cur = [(st, ())]
        for i, c in enumerate(cs):
            nxt = []
            for s, stats in cur:
                for o, t in self.cmd(c, s.copy(), cond, ("in" if i else "",) + (("out",) if i < len(cs) - 1 else ())):
                    u = s.copy(failed=t.failed, facts=t.facts)   # each part runs in a subshell
                    nxt.append((u, stats + (t.status,)))
            seen, cur = set(), []
            for u, stats in nxt:
                k = (u.key(), stats)
                if k not in seen:
                    seen.add(k)
                    cur.append((u, stats))
        out = []
        for s, stats in cur:
            status = stats[-1]
            if s.pipefail and any(x != ZERO for x in stats):
                status = NZ
            if neg:
                status = NZ if status == ZERO else ZERO
            out.append(("next", s.copy(status=status, pstat=stats)))
        return out

    def substs(self, w):
        for p in w:
            if p[0] == "cmd":
                yield p
            elif p[0] == "dq":
                yield from self.substs(p[1])
            elif p[0] == "array":
                for x in p[1]:
                    yield from self.substs(x)

    def cmd(self, c, st, cond, ctx):
        self.count += 1
        if self.count > self.limit:
            raise Unsupported("too many abstract states")
        k = c[0]
        if k == "simple":
            return self.simple(c, st, cond, ctx)
        if k == "test":
            return [("next", s.copy(status=ZERO if b else NZ)) for b, s in self.test([self.one(w, st) for w in c[1]], st, True)]
        if k == "arith":
            v = self.arith(c[1], st) if not re.search(r"(?<![=!<>])=(?!=)|\+\+|--", c[1]) else None
            if v is None:
                m = re.fullmatch(r"\s*([A-Za-z_]\w*)\s*([-+*|&^]?)=\s*(.*)", c[1], re.S) or re.fullmatch(r"\s*([A-Za-z_]\w*)\s*(\+\+|--)()\s*", c[1])
                if not m:
                    raise Unsupported("(( " + c[1] + " ))")
                n, op, e = m.groups()
                ex = f"{n} {op[0]} 1" if op in ("++", "--") else f"{n} {op} ({e})" if op else e
                v = self.arith(ex, st)
                s = st.copy()
                s.vars[n] = v
                return [("next", s.copy(status=ZERO))]
            l = lit(v)
            if l is not None:
                return [("next", st.copy(status=NZ if l == "0" else ZERO))]
            if v == NZ:
                return [("next", st.copy(status=ZERO))]
            return [("next", st.copy(status=ZERO)), ("next", st.copy(status=NZ))]
        if k == "func":
            s = st.copy(funcs={**st.funcs, c[1]: c[2]}, status=ZERO)
            return [("next", s)]
        if k == "group":
            return self.lst(c[1], st, cond)
        if k == "sub":
            out = []
            for o, s in self.lst(c[1], st.copy(), cond):
                out.append(("next", st.copy(failed=s.failed, facts=s.facts, status=s.status)))
            return self.dedup(out)
        if k == "if":
            out, cur = [], [st]
            for cnd, body in c[1]:
                nxt = []
                for s in cur:
                    for o, t in self.lst(cnd, s, True):
                        if o != "next":
                            out.append((o, t))
                        elif t.status == ZERO:
                            out += self.lst(body, t, cond)
                        else:
                            nxt.append(t)
                cur = [s for _, s in self.dedup([("", s) for s in nxt])]
            for s in cur:
                out += self.lst(c[2], s, cond) if c[2] is not None else [("next", s.copy(status=ZERO))]
            return self.dedup(out)
        if k == "while":
            def head(s):
                for o, t in self.lst(c[2], s, True):
                    if o != "next":
                        yield "leave", (o, t)
                    elif (t.status == ZERO) != c[1]:
                        yield "body", t
                    else:
                        yield "leave", ("next", t.copy(status=ZERO))
            return self.loop(st, head, c[3], cond)
        if k == "for":
            words = []
            for w in c[2] if c[2] is not None else [(("dq", (("var", "@", ""),)),)]:
                words += self.expand(w, st)
            fixed = all(not any(isinstance(x, tuple) and x[1].startswith("glob:") for x in v) for v in words)
            if fixed and 0 < len(words) <= 12 and all(len(v) for v in words):
                cur, out = [st], []
                for v in words:
                    nxt = []
                    for s in cur:
                        s = s.copy()
                        s.vars[c[1]] = v
                        for o, t in self.lst(c[3], s, cond):
                            if o in ("next", "continue"):
                                nxt.append(t)
                            elif o == "break":
                                out.append(("next", t))
                            else:
                                out.append((o, t))
                    cur = [s for _, s in self.dedup([("", s) for s in nxt])]
                return self.dedup(out + [("next", s) for s in cur])
            atom = f"{c[1]}@{c[4] if len(c) < 6 else c[5]} in " + " ".join(show(v) for v in words)

            def head(s):
                yield "leave", ("next", s.copy(status=ZERO))
                yield "body", self.bind(s, c[1], atom)
            return self.loop(st, head, c[3], cond)
        if k == "cfor":
            m = re.match(r"\s*(\w+)\s*=", c[1])
            var = m.group(1) if m else "i"

            def head(s):
                yield "leave", ("next", s.copy(status=ZERO))
                yield "body", self.bind(s, var, f"{var}@{c[4]} in counter")
            return self.loop(st, head, c[2], cond)
        if k == "case":
            v = self.one(c[1], st)
            cur, out = [st], []
            for ps, body in c[2]:
                nxt = []
                for s in cur:
                    hit, miss = [], [s]
                    for p in ps:
                        m2 = []
                        for t in miss:
                            for b, u in self.match(v, p, t):
                                (hit if b else m2).append(u)
                        miss = m2
                    for t in hit:
                        out += self.lst(body, t, cond)
                    nxt += miss
                cur = nxt
            return self.dedup(out + [("next", s.copy(status=ZERO)) for s in cur])
        raise Unsupported(k)

    def match(self, v, p, st):
        pat = self.one(p, st)
        text = "".join(x if isinstance(x, str) else x[1][5:] if x[1].startswith("glob:") else "\0" for x in pat)
        quoted = all(x[0] in ("q", "dq") for x in p)
        l = lit(v)
        if "\0" in text:
            return [(True, st), (False, st)]
        wild = any(isinstance(x, tuple) for x in pat)
        if text == "*" and wild:
            return [(True, st)]
        if l is None:
            if wild:
                return [(True, st), (False, st)]
            return self.test([v, ("=",), (text,)], st, True)
        rx = "".join((".*" if x[1] == "glob:*" else "." if x[1] == "glob:?" else x[1][5:].replace("[!", "[^")) if isinstance(x, tuple) else re.escape(x) for x in pat)
        return [(re.fullmatch(rx, l, re.S) is not None, st)]

    def bind(self, s, var, atom):
        """var takes a new value; facts about its previous value are dropped or renamed"""
        a = ("sym", atom)
        old = ("sym", atom + "'")

        def ren(v):
            if isinstance(v, tuple):
                if v == a:
                    return old
                return tuple(ren(x) for x in v)
            return v

        def has(v):
            return v == a or v == old or isinstance(v, tuple) and any(has(x) for x in v)
        t = s.copy()
        t.vars = {k: ren(v) for k, v in s.vars.items()}
        t.vars[var] = (a,)
        t.facts = frozenset(f for f in s.facts if not has(f))
        t.assume = {k: v for k, v in s.assume.items() if not has(k)}
        t.args = ren(s.args)
        return t

    def loop(self, st, head, body, cond):
        seen, todo, out = set(), [st], []
        while todo:
            s = todo.pop()
            k = s.key()
            if k in seen:
                continue
            seen.add(k)
            for kind, x in head(s):
                if kind == "leave":
                    out.append(x)
                    continue
                for o, t in self.lst(body, x, cond):
                    if o in ("next", "continue"):
                        todo.append(t)
                    elif o == "break":
                        out.append(("next", t))
                    else:
                        out.append((o, t))
        return self.dedup(out)

    def simple(self, c, st, cond, ctx):
        _, assigns, words, rs, ln = c
        cur = [st]
        subs = [p for w in words + [a[2] for a in assigns] + [r[2] for r in rs if r[2]] for p in self.substs(w)]
        for p in subs:
            nxt = []
            for s in cur:
                for o, t in self.lst(p[1], s.copy(), True):
                    nxt.append(s.copy(failed=t.failed, facts=t.facts, status=t.status))
            cur = [s for _, s in self.dedup([("", s) for s in nxt])]
        out = []
        for s in cur:
            out += self.simple1(c, s, cond, ctx, bool(subs))
        return self.dedup(out)

    def assign(self, s, n, plus, w):
        if len(w) == 1 and w[0][0] == "array":
            vs = []
            for x in w[0][1]:
                vs += self.expand(x, s)
            old = s.vars.get(n, ("ARR", ()))
            s.vars[n] = ("ARR", (old[1] if plus and old[:1] == ("ARR",) else ()) + tuple(vs))
            return
        v = self.one(w, s)
        s.vars[n] = norm(s.vars.get(n, ()) + v) if plus else v

    def simple1(self, c, st, cond, ctx, hadsub):
        _, assigns, words, rs, ln = c
        s = st.copy()
        red = [(a, b, self.one(w, st) if w else ()) for a, b, w in rs]
        for _, op, tgt in red:
            if op in (">", ">>", "&>", "&>>", ">|"):
                self.on("write", target=tgt, append=">>" in op, line=ln, st=st, cmd=None)
        if not words:
            for n, plus, w in assigns:
                self.assign(s, n, plus, w)
            if not hadsub:
                s.status = ZERO
            return [("next", s)]
        argv = []
        for w in words:
            argv += self.expand(w, st)
        envs = {}
        if assigns:
            t = st.copy()
            for n, plus, w in assigns:
                self.assign(t, n, plus, w)
                envs[n] = t.vars[n]
        if not argv:
            return [("next", s.copy(status=ZERO))]
        while argv and lit(argv[0]) in PREFIX:
            p = lit(argv[0])
            argv = argv[1:]
            if p == "exec":
                if not argv:
                    return [("next", s.copy(status=ZERO))]
                return [("exit", t) for _, t in self.simple2(argv, envs, red, s, cond, ctx, ln)]
            while argv and (lit(argv[0]) or "").startswith("-"):
                argv = argv[1 + (lit(argv[0]) == "-n"):]
            while p == "env" and argv and argv[0] and isinstance(argv[0][0], str) and "=" in argv[0][0]:
                n, v = argv[0][0].split("=", 1)
                envs[n] = norm((v,) + argv[0][1:])
                argv = argv[1:]
        return self.simple2(argv, envs, red, s, cond, ctx, ln)

    def simple2(self, argv, envs, red, s, cond, ctx, ln):
        name = lit(argv[0])
        if name is None:
            raise Unsupported(f"line {ln}: command name {show(argv[0])} is not known")
        if name in s.funcs:
            inner = s.copy(args=tuple(argv[1:]))
            out = []
            for o, t in self.cmd(inner.funcs[name], inner, cond, ctx):
                out.append(("next" if o == "return" else o, t.copy(args=s.args) if o in ("next", "return") else t))
            return self.dedup(out)
        if name in ("exit", "return"):
            v = argv[1] if len(argv) > 1 else s.status
            l = lit(v)
            if l is not None:
                v = ZERO if re.fullmatch(r"-?\d+", l) and int(l) % 256 == 0 else NZ
            elif v != NZ:
                v = (("sym", "status " + show(v)),)
            return [(name, s.copy(status=v))]
        if name in ("break", "continue"):
            return [(name, s)]
        if name in ("[", "test"):
            ws = argv[1:]
            if name == "[":
                ws = ws[:-1]
            return [("next", t.copy(status=ZERO if b else NZ)) for b, t in self.test(ws, s, False)]
        if name in ("source", ".", "eval"):
            raise Unsupported(f"line {ln}: {name}")
        if name == "trap":
            raise Unsupported(f"line {ln}: trap")
        if name == "false":
            return [("next", s.copy(status=NZ))]
        if name == "set":
            i = 1
            while i < len(argv):
                a = lit(argv[i]) or ""
                if a in ("-o", "+o") or re.fullmatch(r"[-+][a-z]*o", a):
                    on = a[0] == "-"
                    if "e" in a:
                        s.errexit = on
                    opt = lit(argv[i + 1]) if i + 1 < len(argv) else ""
                    if opt == "pipefail":
                        s.pipefail = on
                    elif opt == "errexit":
                        s.errexit = on
                    i += 2
                    continue
                if a == "--":
                    s.args = tuple(argv[i + 1:])
                    break
                if re.fullmatch(r"[-+][a-zA-Z]+", a):
                    if "e" in a:
                        s.errexit = a[0] == "-"
                    i += 1
                    continue
                raise Unsupported(f"line {ln}: set {a}")
            return [("next", s.copy(status=ZERO))]
        if name == "export" or name in ("declare", "typeset", "readonly", "local"):
            exported = name == "export"
            for a in argv[1:]:
                if lit(a) in ("-x", "-rx", "-gx"):
                    exported = True
                    continue
                if a and isinstance(a[0], str) and a[0].startswith("-"):
                    if name == "export":
                        raise Unsupported("export " + a[0])
                    continue
                if a and isinstance(a[0], str) and "=" in a[0]:
                    n, v = a[0].split("=", 1)
                    s.vars[n] = norm((v,) + a[1:])
                else:
                    n = lit(a)
                if exported:
                    s.exp = s.exp | {n}
            return [("next", s.copy(status=ZERO))]
        if name == "unset":
            for a in argv[1:]:
                s.vars.pop(lit(a), None)
                s.exp = s.exp - {lit(a)}
            return [("next", s.copy(status=ZERO))]
        if name == "read":
            t = s.copy(status=ZERO)
            for a in argv[1:]:
                if lit(a) and not lit(a).startswith("-"):
                    t = self.bind(t, lit(a), f"{lit(a)}@{ln} in input")
            return [("next", t), ("next", s.copy(status=NZ))]
        if name == "getopts":
            optstring, var = lit(argv[1]), lit(argv[2])
            if optstring is None or var is None:
                raise Unsupported("getopts")
            out = [("next", s.copy(status=NZ))]
            for i, ch in enumerate(optstring):
                if ch == ":":
                    continue
                t = s.copy(status=ZERO)
                t.vars[var] = (ch,)
                t.facts = t.facts | {("option", ch)}
                if optstring[i + 1:i + 2] == ":":
                    t = self.bind(t, "OPTARG", f"OPTARG of -{ch}")
                out.append(("next", t))
            t = s.copy(status=ZERO)
            t.vars[var] = ("?",)
            out.append(("next", t))
            return out
        if name == "shift":
            if s.args:
                s.args = s.args[1:]
            else:
                for v in list(s.vars):
                    pass
                s.vars["0shift"] = ("".join([lit(s.vars.get("0shift", ())) or "", "x"]),)
                if len(s.vars["0shift"][0]) > 6:
                    raise Unsupported("shift in a loop")
            return [("next", s.copy(status=ZERO))]
        label = self.stage(argv)
        if label is not None:
            ok, bad = self.on("stage", label=label, argv=argv, env=envs, redirs=red, st=s, line=ln, ctx=ctx) or (s, None)
            t = ok.copy(status=ZERO)
            u = (bad or s).copy(status=NZ, failed=s.failed or f"{label} (line {ln})")
            return [("next", t), ("next", u)]
        r = self.on("cmd", name=name, argv=argv, env=envs, redirs=red, st=s, line=ln, ctx=ctx)
        if r is not None:
            return r
        if name in QUIET:
            return [("next", s.copy(status=ZERO))]
        return [("next", s.copy(status=ZERO)), ("next", s.copy(status=NZ))]
