"""Matrix output lists every entry once, in order, in readable syntax.

The text of a symbolic matrix of every size is summarised as a term built from concatenations over the rows and columns; it
is compared with the reviewed form, another form is read back on valuations (every line of the text, resp. the bracketed
list, must give the rows of the matrix in order). The result files are summarised with the rendering kept opaque."""
import random
import re
from rules.c18 import *
from rules.c19 import qmat, UNITS
from rules.c04 import qt, unit24
from qsa.models import FX
from qsa.world import outputs, WorldError
from rules.c29 import HMUO, MUM, oper

FLOOR = 9
TEXT = {}


def rows_pred(m, text):
    k = m.syms["n"]
    if not isinstance(text, str):
        raise Undecided("not a text")
    lines = [l for l in text.split("\n") if l.strip()]
    if len(lines) != k:
        return "%d lines of text for a matrix of size %d" % (len(lines), k)
    for i, l in enumerate(lines):
        got = [c for c in l if c not in " |[],;()"]
        want = [m.char(i, j) for j in range(k)]
        if got != want:
            return "line %d reads %r, the entries of row %d are %s" % (i, l, i, "".join(want))
    return None


def magma_pred(m, text):
    k = m.syms["n"]
    want = [[m.apps["$A"](i, j) for j in range(k)] for i in range(k)]
    if "\n" in text or "\r" in text:
        return "the matrix is spread over several lines: %r" % text
    s = text.replace(" ", "")
    x = re.search(r"\[(.*)\]", s)
    if not x:
        return "no bracketed list in %r" % text
    inner = x.group(1)
    if not re.fullmatch(r"\[[-0-9,]*\](,\[[-0-9,]*\])*", inner):
        return "%r is not a list of comma separated bracketed rows" % text
    got = []
    for row in re.findall(r"\[([^\]]*)\]", inner):
        r = row.split(",")
        if any(v not in ("1", "-1") for v in r):
            return "the row %r is not a comma separated list of 1 and -1" % row
        got.append([int(v) for v in r])
    if got != want:
        return "the text %r lists %s, the matrix is %s" % (text, got, want)
    if s[:x.start()].count("(") != s[x.end():].count(")"):
        return "unbalanced brackets around the list in %r" % text
    return None


def sizes(lits):
    out = [2, 3, 1, 4, 5, 2, 3, 6]
    for c in sorted(lits):
        if 6 < c <= 40:
            out += [c, c + 1]
    return out


def hmod(lits):
    r = random.Random(7)
    for k in sizes(lits):
        A = {(i, j): r.choice((1, -1)) for i in range(k) for j in range(k)}
        m = Mod(dict(n=k), {"$A": lambda i, j, A=A: A[(i, j)]})
        m.char = lambda i, j, A=A: "+" if A[(i, j)] == 1 else "-"
        yield m


def qmod(lits):
    r = random.Random(8)
    if len(TEXT) < 24:
        raise Undecided("the symbols are not known")
    for k in sizes(lits):
        A = {(i, j): r.choice(UNITS) for i in range(k) for j in range(k)}
        m = Mod(dict(n=k), {"$Q" + c: lambda i, j, A=A, x=x: A[(i, j)][x] for x, c in enumerate("sxyz")})
        m.char = lambda i, j, A=A: TEXT[tuple(A[(i, j)])]
        yield m


ENT = lambda i, j: mk("app", "$A", i, j)


def check(ck):
    def text(name, key, arg, pred, ms):
        def f():
            ip = ck.ip()
            # the entries of a matrix are 1 or -1
            v, _ = ip.run(key, [arg], assume=POS)
            ck.certified_rel(name, key, v, pred, ms)
            if arg.a[0] == HMT:
                ck.no_panic(name + ": no panic", key, ip, ms)
        ck.run(name, key, f)

    kw = ck.key("quaternion_to_string")

    def symbols():
        TEXT.clear()
        for u in unit24():
            v, _ = ck.ip().run(kw, [qt(u)])
            if v is None or v.op != "str" or len(v.a[0]) != 1 or v.a[0] in " |[],;()\n" or v.a[0] in TEXT.values():
                raise Fail("the unit quaternion %s is written %s, not one character of its own" % (u, show(v) if v is not None else None), kw)
            TEXT[u] = v.a[0]
        ck.ok("every unit quaternion is written with one character of its own", "constant folding of the writer on each of the 24", kw, str(sorted(TEXT.values())))
    ck.run("every unit quaternion is written with one character of its own", kw, symbols)

    H = ck.key("to_string", "HM")
    M = ck.key("to_string_magma", "HM")
    Q = ck.key("to_string", "QHM")
    text("text of a real matrix lists its rows", H, hm("A", n), rows_pred, hmod)
    text("Magma text of a real matrix is one bracketed line", M, hm("A", n), magma_pred, hmod)
    text("text of a quaternion matrix lists its rows", Q, qmat(), rows_pred, qmod)
    operators(ck, text)
    magma_file(ck, M)
    qhm_file(ck, Q)
    qhm_all(ck, Q)


def oneop(m, t):
    """message or None for the text of one operator"""
    want = ["%d%s%di" % (x, "-" if y < 0 else "+", abs(y)) for i in range(m.k) for j in range(m.k) for x, y in [m.B[(i, j)]]]
    ls = [l for l in t.split("\n") if l.strip()]
    if len(ls) != m.k:
        return "%d lines for an operator of dimension %d" % (len(ls), m.k)
    for i, l in enumerate(ls):
        got = re.findall(r"-?\d+[+-]\d+i", l)
        if got != want[i * m.k:(i + 1) * m.k]:
            return "line %d reads %r, the entries of row %d are %s" % (i, l, i, want[i * m.k:(i + 1) * m.k])
    return None


def opmod(lits):
    r = random.Random(9)
    for k in sizes(lits):
        B = {(i, j): (r.randint(-9, 9), r.randint(-9, 9)) for i in range(k) for j in range(k)}
        m = Mod(dict(n=k), {"$RA": lambda i, j, B=B: B[(i, j)][0], "$IA": lambda i, j, B=B: B[(i, j)][1]})
        m.B, m.k = B, k
        yield m


def operators(ck, text):
    """textual forms of the operators and of the wrappers that carry them"""
    ks = [ck.find("to_string", x) for x in ("Operator", "HMUO", "MUM")]
    if not all(ks):
        return
    A = oper("A", n)
    pred = lambda m, t: oneop(m, t) if isinstance(t, str) else "not a text"
    text("text of an operator lists its rows", ks[0], A, pred, opmod)
    text("text of a unitary operator lists its rows", ks[1], mk("struct", HMUO, (("matrix_size", n), ("operator", A))), pred, opmod)

    def seqmod(lits):
        r = random.Random(10)
        for c in (1, 2, 3, 5, 0):
            L = ["op%d" % r.randrange(90) for _ in range(c)]
            m = Mod(dict(n=3, L=L), {ks[0]: lambda o: "|%s|\n" % o})
            m.L = L
            yield m

    def seqpred(m, t):
        got = re.findall(r"op\d+", t)
        return None if got == m.L else "the text lists the operators %s of the sequence %s" % (got, m.L)

    def f():
        ip = ck.ip(uninterp=[ks[0]])
        v, _ = ip.run(ks[2], [mk("struct", MUM, (("matrix_size", n), ("sequence", Sym("L", "vec"))))], assume=POS)
        ck.certified_rel(nm, ks[2], v, seqpred, seqmod)
    nm = "text of a measurement sequence lists its operators"
    ck.run(nm, ks[2], f)


def only(evs, p):
    try:
        out = outputs(evs)
    except WorldError as ex:
        return str(ex), None
    if p not in out:
        return "%s is not written (files: %s)" % (p, sorted(out)), None
    return None, out[p]


def magma_file(ck, M):
    """result.mat: every matrix that is kept is one line"""
    k = ck.key("hadamard_equivalence_from_file")
    g = ck.key("graph_from_hm")
    U = [g, ck.key("from_williamson", "HM"), ck.key("verify", "QuadSeq"), ck.key("from_str", "QS"), ck.key("from_pqs", "QuadSeq"), M]
    name = "result.mat has one line per matrix"

    def models(lits):
        r = random.Random(1)
        for c in (3, 1, 0, 2, 6, 5):
            for _ in range(3):
                lines = ["s%d" % r.randrange(9) for _ in range(c)]
                m = Mod(dict(path="results/pairs/qts/find_5/result.seq", ty=("E", "QuaternionType")), {
                    U[0]: lambda h: ("G", h[1]), "canonlabel": lambda z: ("S", ("g", z[1])), U[1]: lambda q, t: ("H", q[1], t), U[2]: lambda q, t: True,
                    U[3]: lambda s: ("QS", int(s[1:])), U[4]: lambda q: ("Q", q[1]), U[5]: lambda h: "<M%d>" % h[1]})
                m.files = lambda p, lines=lines: lines
                m.lines = lines
                yield m

    def pred(m, evs):
        w, c = only(evs, "results/pairs/qts/find_5/result.mat")
        if w:
            return w
        if c and not c.endswith("\n"):
            return "the last line is not terminated"
        got = c.split("\n")[:-1]
        for l in got:
            if not re.fullmatch(r"<M\d+>", l):
                return "the line %r of result.mat is not exactly one matrix (file %r)" % (l, c)
        want = {"<M%s>" % x[1:] for x in m.lines}
        if sorted(got) != sorted(want):
            return "the file lists %s, the matrices are %s" % (got, sorted(want))
        return None

    def f():
        ip = ck.ip(uninterp=U)
        _, st = ip.run(k, [Sym("path", "string"), Sym("ty", STYPE)])
        ck.certified_rel(name, k, st.env.get(FX, mk("vec")), pred, models)
    ck.run(name, k, f)


def blocks(text, per):
    """the matrices of a text whose matrices are separated by blank lines"""
    return [b for b in re.split(r"\n\s*\n", text) if b.strip()]


def qhm_file(ck, Q):
    k = ck.find("convert_qs_to_matrices")
    if k is None:
        return
    U = [Q, ck.key("from_pqs", "QHM"), ck.key("from_str", "QS"), ck.key("dephase", "QHM"), ck.key("contains_non_commuting_elements", "QHM")]
    name = "result.qhm lists the matrix of every sequence in order"

    def models(lits):
        r = random.Random(2)
        for c in (3, 1, 0, 2, 6):
            lines = ["s%d" % r.randrange(9) for _ in range(c)]
            m = Mod(dict(n=5), {U[0]: lambda h: "| %s |\n| %s |\n" % (h[1], h[2]), U[1]: lambda q: ("H", q[1], "raw"), U[2]: lambda s: ("QS", s), U[3]: lambda h: ("H", h[1], "deph"),
                                U[4]: lambda h: False})
            m.files = lambda p, lines=lines: lines
            m.lines = lines
            yield m

    def pred(m, evs):
        w, c = only(evs, "results/pairs/wts/find_5/result.qhm")
        if w:
            return w
        got = re.findall(r"\| (s\d+) \|\n\| deph \|\n", c)
        rest = re.sub(r"\| (s\d+) \|\n\| deph \|\n", "", c)
        if got != m.lines:
            return "the file lists the matrices of %s, the sequences are %s" % (got, m.lines)
        if rest.strip():
            return "the file holds other text: %r" % c
        return None

    def f():
        ip = ck.ip(uninterp=[u for u in U if u != U[3]])
        keep = {}

        def deph(ip, st, args, e):
            r = args[0]
            x = ip.val(r, st)
            ip.store(r, mk("app", U[3], x), st)
            return mk("tuple")
        ip.keep[U[3]] = deph
        _, st = ip.run(k, [stype(WTS), n], assume=POS)
        ck.certified_rel(name, k, st.env.get(FX, mk("vec")), pred, models)
    ck.run(name, k, f)


def qhm_all(ck, Q):
    k = ck.find("qhm_write_all")
    if k is None:
        return
    U = [Q, ck.key("from_pqs", "QHM"), ck.key("from_str", "QS"), ck.key("dephased", "QHM"), ck.key("from_pqs", "QuadSeq"), ck.key("to_qs", "QuadSeq"), ck.key("generate_equivalent_quad_seqs"),
         ck.key("to_string", "QuadSeq")]
    name = "qhm_all.mat lists the matrix of every equivalent sequence"

    def models(lits):
        r = random.Random(3)
        for c in (2, 1, 0, 3):
            lines = ["s%d" % r.randrange(9) for _ in range(c)]
            m = Mod(dict(n=5), {U[0]: lambda h: "| %s |\n| %s |\n" % (h[1], h[2]), U[1]: lambda q: ("H", q[1], "raw"), U[2]: lambda s: ("QS", s), U[3]: lambda h: ("H", h[1], "deph"),
                                U[4]: lambda q: ("Q", q[1]), U[5]: lambda q: ("QS", q[1]), U[6]: lambda l, t: [("Q", q[1] + x) for q in l for x in ("", "0", "00")], U[7]: lambda q: "x"})
            m.files = lambda p, lines=lines: lines
            m.lines = lines
            yield m

    def pred(m, evs):
        w, c = only(evs, "results/pairs/wts/find_5/qhm_all.mat")
        if w:
            return w
        pat = r"\| (s\d+) \|\n\| deph \|\n"
        got = re.findall(pat, c)
        want = [l + x for l in m.lines for x in ("", "0", "00")]
        if sorted(got) != sorted(want):
            return "the file lists the matrices of %s, the equivalent sequences are %s" % (got, want)
        if re.sub(pat, "", c).strip():
            return "the file holds other text: %r" % c
        return None

    def f():
        ip = ck.ip(uninterp=U)
        _, st = ip.run(k, [stype(WTS), n], assume=POS)
        ck.certified_rel(name, k, st.env.get(FX, mk("vec")), pred, models)
    ck.run(name, k, f)
