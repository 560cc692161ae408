"""What one stage writes is what the next stage reads.

Writers and readers are summarised from the compiler's typed IR and composed: the file names of the writer's effects are the
names the reader's dispatch on a directory listing selects, the lines of the writer's effects are given to the summary of the
reader. The finite domains (types, pairings, tags, commands) are enumerated completely on the summaries. The scripts are
interpreted abstractly (rules/c25.py); every command line they start is given, with every type, to the summary of main, and
the stage it reaches, with its arguments, is the one the command names. No program or script is run."""
import itertools
import os
import random
import re
from qsa.spec import *
from qsa.ob import Fail, Undecided, Mod
from qsa.interp import some, okv, NONE, NEVER
from qsa.models import FX
from qsa.sh import Unsupported as ShUnsupported, lit as shlit, show as shshow, NZ
from qsa.teval import value
from qsa.world import WorldError, norm, outputs
from rules import c11, c12, c13, c22, c25
from rules.c08 import qv

FLOOR = 20
QT, WTS, WS = stype("QuaternionType"), stype("WilliamsonType"), stype("Williamson")
TYPE = {"qts": QT, "wts": WTS, "ws": WS}
N = 7
RSV = (-1, 3, 3, 3)
FIND = "results/pairs/%s/find_%d"
DIR = FIND + "/rowsum_" + "_".join(map(str, RSV))


# ---------------------------------------------------------------- small helpers
def concrete(t):
    v = value(Mod({}), t)
    if v[0] == "bottom":
        raise Fail("no value: %s" % show(t)[:200])
    return v[1]


def text(t):
    x = concrete(t)
    if not isinstance(x, str):
        raise Undecided("not a text: %s" % show(t)[:200])
    return x


def events(st):
    out = []

    def go(t):
        if t.op == "ev":
            out.append(t)
        elif t.op in ("vec", "cat"):
            for x in t.a:
                go(x)
        else:
            for x in find_ops(t, ("ev",)):
                out.append(x)
    go(st.env.get(FX, mk("vec")))
    return out


def created(st):
    return [norm(text(e.a[1])) for e in events(st) if e.a[0] in ("create", "append")]


def tagname(t):
    return t.a[1] if t.op == "enum" else show(t)


def call(ck, key, args, listing=None, **kw):
    ip = ck.ip(**kw)
    if listing is not None:
        ip.readdir = (lambda p: listing(text(p))) if callable(listing) else lambda p: listing
    ip.opened = []
    v, st = ip.run(key, args, assume=POS)
    if v is None or v is NEVER or v.op == "never":
        raise Fail("the call of %s with %s panics" % (key.split("::")[-1], [show(a) for a in args]), key)
    for what, pc, fn, sp in ip.panics:
        c = and_(*pc)
        if c is TRUE:
            raise Fail("the call of %s with %s panics (%s)" % (key.split("::")[-1], [show(a) for a in args], what), sp or key)
    return v, st, ip


def dirent(path, name, isdir=True):
    return mk("dirent", S(path), S(name), TRUE if isdir else FALSE)


# ---------------------------------------------------------------- check
def check(ck):
    names(ck)
    sequences_file(ck)
    pair_lines(ck)
    directory(ck)
    results(ck)
    scripts(ck)


def names(ck):
    """texts of types, pairings and tags"""
    kt = ck.key("to_string", "SequenceType") if ck.find("to_string", "SequenceType") else None
    readers = sorted(k for k in {b["key"] for b in ck.dump["bodies"] if b["name"] == "str_to_seqtype"})

    def f():
        if not readers:
            raise Undecided("str_to_seqtype is not there")
        ks = ck.key("to_string", "SequenceType")
        for nm, ty in TYPE.items():
            w = text(call(ck, ks, [ty])[0])
            for kr in readers:
                b, = [b for b in ck.dump["bodies"] if b["key"] == kr]
                if not b["ret"] or "SequenceType" not in str(b["ret"]):
                    continue
                v = call(ck, kr, [S(w)])[0]
                if v is not ty:
                    raise Fail("type %s is written as %r and %s reads it as %s" % (show(ty), w, kr, show(v)), kr)
                v = call(ck, kr, [S(nm)])[0]
                if v is not ty:
                    raise Fail("the documented name %r is read as %s by %s" % (nm, show(v), kr), kr)
        ck.ok(name, "enumeration of the types over the summaries of writer and readers", readers[0], "readers: " + ", ".join(readers))
    name = "a type written as text is read back as the same type"
    ck.run(name, kt or "SequenceType", f)

    def others():
        ks = ck.key("to_string", "SequenceType")
        done = 0
        for ty in OTHER_TYPES:
            try:
                w = text(call(ck, ks, [stype(ty)])[0])
            except Fail:
                continue
            for kr in readers:
                v = call(ck, kr, [S(w)])[0]
                if v is not stype(ty):
                    raise Fail("type %s is written as %r and %s reads it as %s" % (ty, w, kr, show(v)), kr)
                done += 1
        ck.ok(name2, "enumeration of the types over the summaries", readers[0] if readers else "", "%d cases" % done)
    name2 = "types that are not searched for are named consistently as well"
    ck.run(name2, kt or "SequenceType", others)

    def pairings():
        k = ck.key("str_to_rowsum_pairing")
        for p in ("WX", "WY", "WZ"):
            v = call(ck, k, [S(p)])[0]
            if v is not c11.pairing(p):
                raise Fail("pairing %s is read as %s" % (p, show(v)), k)
        ck.ok(name3, "constant folding of the reader on each documented option", k)
    name3 = "a pairing option is read as the pairing of that name"
    ck.run(name3, "str_to_rowsum_pairing", pairings)

    def options():
        k = ck.key("str_to_match_option")
        for p, o in (("psd", "PSD"), ("correlation", "CORRELATION")):
            v = call(ck, k, [S(p)])[0]
            if v is not c11.opt(o):
                raise Fail("match option %s is read as %s" % (p, show(v)), k)
        ck.ok(name4, "constant folding of the reader on each documented option", k)
    name4 = "a match option is read as the option of that name"
    ck.run(name4, "str_to_match_option", options)


def seqline(x):
    return "".join("+" if v == 1 else "-" for v in x)


def sequences_file(ck):
    """seq_T.seq"""
    kw, kr = ck.key("write_sequences"), ck.key("file_to_sequences")

    def term(c):
        ip = ck.ip()
        _, st = ip.run(kw, [Sym("L", "list"), tag(c), S(DIR % ("qts", N))], assume=POS)
        w = st.env.get(FX, mk("vec"))
        r, _ = ck.ip().run(kr, [S(DIR % ("qts", N) + "/seq_%s.seq" % c)], assume=POS)
        return w, r

    def models(w, path):
        def gen(lits):
            r = random.Random(15)
            for k in (3, 5, 1, 2, 4, 8, 11):
                for c in (2, 3, 1, 0, 5):
                    L = [pm(r, k) for _ in range(c)]
                    m = Mod(dict(n=k, L=L))
                    m.L = L

                    def files(p, m=m):
                        out = outputs(m.ev(w))
                        if norm(p) not in out:
                            raise WorldError("the reader opens %s, the writer made %s" % (p, sorted(out)))
                        c = out[norm(p)]
                        return (c[:-1] if c.endswith("\n") else c).split("\n") if c else []
                    m.files = files
                    yield m
        return gen

    def pred(m, v):
        if [list(x) for x in v[1]] != [list(x) for x in m.L]:
            return "sequences %s are written and read back as %s" % (m.L, v[1])
        return None
    for c in "WXYZ":
        nm = "sequences of tag %s are read back as written" % c

        def go(c=c, nm=nm):
            w, r = term(c)
            ck.certified_rel(nm, kw, mk("tuple", w, r), pred, models(w, None), "one line per sequence, one symbol per entry")
        ck.run(nm, kw, go)


def pair_lines(ck):
    """key:_i_j"""
    kg = ck.key("get_line_from")
    kp = ck.key("write_seq_pairs")
    U = c12.uninterp(ck)
    ap = {U["dft"]: c12.dft_app, U["idft"]: c12.idft_app}
    gs = ck.key("generate_sequences_with_rowsum")
    ka = ck.key("write_pairs_rowsum")
    un = [U["dft"], U["idft"], gs]

    def reader():
        return ck.ip().run(kg, [some(okv(Sym("line", "str")))])[0]

    def judge(kind, p, rt):
        def f(m, v):
            files = outputs(v[0])
            base = c11.folder(kind, m, m.rs) + "/"
            L = dict(zip("WXYZ", (m.c(x, m.n) for x in m.rs)))
            if kind == "WS":
                L = {c: [x for x in z if c11.symmetric(x)] for c, z in L.items()}
            keys = {}
            for q in c11.PAIRS[p]:
                f_ = base + "pair_%s.pair" % q
                if f_ not in files:
                    return "no file %s" % f_
                got = {}
                for x in files[f_].split("\n")[:-1]:
                    z = value(Mod(dict(line=x)), rt)
                    if z[0] == "bottom":
                        return "the line %r is not readable: %s" % (x, z[1])
                    key, (i, j) = z[1]
                    if i >= len(L[q[0]]) or j >= len(L[q[1]]):
                        return "the line %r of pair_%s is read as couple %s, %s of %d and %d sequences" % (x, q, i, j, len(L[q[0]]), len(L[q[1]]))
                    if (i, j) in got:
                        return "two lines of pair_%s are read as couple %d, %d" % (q, i, j)
                    got[i, j] = key
                for (i, a), (j, b) in itertools.product(enumerate(L[q[0]]), enumerate(L[q[1]])):
                    if (i, j) not in got and c12.psd_ok(a, b, m.n) and (kind != "WTS" or c12.amicable(a, b)):
                        return "no line of pair_%s is read as couple %d, %d (%s, %s)" % (q, i, j, a, b)
                keys[q] = got
            if m.q is not None and tuple(sum(x) for x in m.q) == tuple(m.rs):
                d = dict(zip("WXYZ", m.q))
                if all(d[c] in L[c] for c in "WXYZ"):
                    ks = [keys[q].get((L[q[0]].index(d[q[0]]), L[q[1]].index(d[q[1]]))) for q in c11.PAIRS[p]]
                    if None not in ks and ks[0] != ks[1]:
                        return "valid quadruple %s: the keys are read as %r and %r" % ((m.q,) + tuple(ks))
            return None
        return c11.run(f)

    for kind, o, p in (("QT", "PSD", "WZ"), ("QT", "CORRELATION", "WX"), ("WTS", "PSD", "WY"), ("WS", "CORRELATION", "WZ")):
        nm = "pair lines are read back as written: %s, %s" % (kind, o.lower())

        def go(kind=kind, o=o, p=p, nm=nm):
            rt = reader()
            eff = c11.effects(ck, ka, [S(c11.NAME[kind]), c11.RS, n, c11.opt(o), c11.pairing(p)], uninterp=un)

            def pred(m, v):
                return judge(kind, p, rt)(m, v[0])

            def models(lits):
                for m in c11.models(kind, gs, c12.uninterp(ck), ap)(lits):
                    m.syms["line"] = "1_2_:_3_4"
                    yield m
            ck.certified_rel(nm, kg, mk("tuple", eff, rt), pred, models, "the reader splits key and indices where the writer joined them")
        ck.run(nm, kg, go)


def suffix_of_sort(ck):
    """what sortpairs.sh appends to the name of a pair file"""
    sh = c25_script("sortpairs.sh")
    suf = set()
    for line, x, out in sh.sorted_files:
        if out[:len(x)] != x or len(out) != len(x) + 1 or not isinstance(out[-1], str):
            if shshow(out).startswith(shshow(x)):
                suf.add(shshow(out)[len(shshow(x)):])
                continue
            raise Undecided("sorted file is not named after the pair file (line %d)" % line)
        suf.add(out[-1])
    if not suf:
        raise Undecided("no sorted file is named")
    return sorted(suf)


_SH = {}


def c25_script(f):
    if f not in _SH:
        path = os.path.join(c25.ROOT, f)
        if not os.path.exists(path):
            raise Undecided("%s is not there" % f)
        sh = c25.Scripts(open(path).read(), f)
        try:
            sh.ends = sh.run()
        except ShUnsupported as ex:
            raise Undecided("%s: %s" % (f, ex))
        _SH[f] = sh
    return _SH[f]


def resolve(v, env):
    """abstract shell value -> text with glob characters"""
    def atom(name):
        m = re.match(r"\w+@\S+ in (.*)$", name, re.S)
        if m:
            return inner(m.group(1))
        if name.startswith("glob:"):
            return name[5:]
        if name in env:
            return env[name]
        raise Undecided("shell value <%s>" % name)

    def inner(t):
        out, i = "", 0
        while i < len(t):
            if t[i] == "<":
                d, j = 1, i + 1
                while d:
                    d += (t[j] == "<") - (t[j] == ">")
                    j += 1
                out += atom(t[i + 1:j - 1])
                i = j
            else:
                out += t[i]
                i += 1
        return out
    return "".join(x if isinstance(x, str) else atom(x[1]) for x in v)


def globmatch(pat, path):
    a, b = norm(pat).split("/"), norm(path).split("/")
    import fnmatch
    return len(a) == len(b) and all(fnmatch.fnmatchcase(y, x) for x, y in zip(a, b))


def written_pairs(ck, ty, p):
    """(files, directories) pair generation creates for one row sum"""
    ka = ck.key("write_pairs_rowsum")
    gs = ck.key("generate_sequences_with_rowsum")
    U = c12.uninterp(ck)
    ip = ck.ip(uninterp=[gs, U["dft"], U["idft"]])
    _, st = ip.run(ka, [S(ty), mk("tuple", *map(I, RSV)), I(N), c11.opt("PSD"), c11.pairing(p)], assume=[])
    ev = events(st)
    return sorted(set(created(st))), sorted({norm(text(e.a[1])) for e in ev if e.a[0] == "mkdir"})


def directory(ck):
    ks, ko, kj = ck.key("get_sequences_from_dir"), ck.key("get_order_from_dir"), ck.key("join_pairs")
    kf = ck.key("file_to_sequences")
    for ty, p in (("qts", "WX"), ("qts", "WY"), ("qts", "WZ"), ("wts", "WZ"), ("ws", "WY"), ("wts", None)):
        nm = "files of pair generation are the files of the join: %s, pairing %s" % (ty, p)

        def go(ty=ty, p=p, nm=nm):
            files, dirs = written_pairs(ck, ty, p)
            d = DIR % (ty, N)
            par, last = d.rsplit("/", 1)
            if d not in dirs and not any(x.startswith(d) for x in dirs):
                raise Fail("pair generation makes the directories %s instead of %s" % (dirs, d), ks)
            sufs = suffix_of_sort(ck)
            sh = c25_script("sortpairs.sh")
            env = {"$1": ty, "$2": str(N)}
            pats = {resolve(x, env) for _, x, _ in sh.sorted_files}
            pairs = [f for f in files if f.endswith(".pair")]
            if len(pairs) != 2:
                raise Fail("pair generation writes %s: not two pair files" % files, ks)
            for f in pairs:
                if not all(globmatch(x, f) for x in pats):
                    raise Fail("the pair file %s is not among the files that sortpairs.sh sorts (%s)" % (f, sorted(pats)), "rust/sortpairs.sh")
            for suf in sufs:
                after = [f for f in files if f not in pairs] + [f + suf for f in pairs]
                base = [f[len(d) + 1:] for f in after if f.startswith(d + "/")]
                if len(base) != len(after):
                    raise Fail("files %s are not all below %s" % (after, d), ks)
                for perm in (sorted(base), sorted(base, reverse=True), base[3:] + base[:3]):
                    lst = [(b, False) for b in perm]
                    v, _, ip = call(ck, ks, [dirent(par, last)], lst, uninterp=[kf])
                    for x, c in zip(v.a, "WXYZ"):
                        if x.op != "app" or x.a[0] != kf or norm(text(x.a[1])) != d + "/seq_%s.seq" % c:
                            raise Fail("the sequences of tag %s are taken from %s" % (c, show(x)[:200]), ks)
                    v, _, ip = call(ck, ko, [dirent(par, last)], lst)
                    paths, order = v.a
                    got = [norm(text(x)) for x in paths.a]
                    want = [d + "/" + b for b in perm if ".pair" in b]
                    if sorted(got) != sorted(want):
                        raise Fail("the join opens %s, the sorted files are %s" % (got, want), ko)
                    tags = "".join(tagname(t) for t in order.a)
                    named = "".join(re.search(r"pair_(\w\w)\.", g).group(1) for g in got)
                    if tags != named:
                        raise Fail("files %s are used with the tags %s" % (got, tags), ko)
            ck.ok(nm, "names of the writer's effects given to the readers as directory listings, several orders", ko, "files %s, sorted suffixes %r, patterns %s" % (base, sufs, sorted(pats)))
        ck.run(nm, ko, go)

    def tags():
        k = ck.key("get_tag_from_filename")
        wp = ck.key("write_seq_pairs")
        U = c12.uninterp(ck)
        sufs = suffix_of_sort(ck)
        for a, b in itertools.permutations("WXYZ", 2):
            ip = ck.ip(uninterp=[U["dft"], U["idft"]])
            side = mk("enum", "sequences::symmetries::EquationSide", "LEFT", ())
            ty = [x for x in ck.dump["bodies"] if x["key"] == wp][0]["params"]
            e = [x["ty"] for x in ty if "EquationSide" in x["ty"]]
            if e:
                side = mk("enum", e[0].split("::", 1)[1] if e[0].startswith("crate::") else e[0], "LEFT", ())
            _, st = ip.run(wp, [mk("tuple", mk("vec"), mk("vec")), mk("tuple", tag(a), tag(b)), QT, mk("tuple", *map(I, RSV)), I(N), S("d"), side, c11.opt("PSD")], assume=[])
            f, = set(created(st))
            for suf in sufs:
                v = call(ck, k, [S(f.split("/")[-1] + suf)])[0]
                if "".join(tagname(x) for x in v.a) != a + b:
                    raise Fail("the pair file of tags %s and %s is named %s, which is read as tags %s" % (a, b, f, show(v)), k)
        ck.ok(nm, "enumeration of the 12 ordered pairs of tags", k)
    nm = "the tags in the name of a pair file are read back"
    ck.run(nm, "get_tag_from_filename", tags)

    def joins():
        kjf, kr = ck.key("join_pairs_files"), ck.key("reduce_to_canonical_reps")
        for ty, T_ in TYPE.items():
            got = []
            ip = ck.ip(uninterp=[k for k in (kr, ck.find("ns_canonical"), ck.find("sn_ss_canonical")) if k])
            ip.opened = []
            base = FIND % (ty, N)
            ds = ["rowsum_-1_3_3_3", "rowsum_1_1_1_5"]

            def listing(p, base=base):
                if norm(text(p)) != base:
                    raise Fail("the join looks for results of %s, length %d in %s; pair generation writes below %s" % (ty, N, text(p), base), kj)
                return [("rowsums.quad", False), (ds[0], True), ("result.log", False), (ds[1], True), ("result.seq", False)]
            ip.readdir = listing

            def dirof(ip_, a, st):
                x = ip_.val(a, st)
                if x.op != "dirent":
                    raise Undecided("directory %s" % show(x)[:100])
                return norm(text(x.a[0]) + "/" + text(x.a[1]))
            ip.keep[ks] = lambda ip_, st, args, e: Sym("sequences of " + dirof(ip_, args[0], st), "tuple")
            ip.keep[ko] = lambda ip_, st, args, e: mk("tuple", Sym("names in " + dirof(ip_, args[0], st), "tuple"), Sym("order in " + dirof(ip_, args[0], st), "tuple"))

            def jf(ip_, st, args, e):
                got.append([ip_.val(a, st) for a in args])
                return mk("vec")
            ip.keep[kjf] = jf
            ip.run(kj, [I(N), T_], assume=[])
            seen = []
            for nmz, t_, o, s in got:
                if t_ is not T_:
                    raise Fail("the pair files are joined as type %s" % show(t_), kj)
                where = {x.a[0].split(" ", 2)[2] for x in (nmz, o, s)}
                if len(where) != 1:
                    raise Fail("names, order and sequences of different directories are joined: %s" % sorted(where), kj)
                seen += where
            want = [base + "/" + x for x in ds]
            if sorted(seen) != want:
                raise Fail("the join visits %s of the directories %s" % (seen, want), kj)
        ck.ok(nm2, "calls reached on a listing with files and directories", kj)
    nm2 = "the join visits every row sum directory of its type and length"
    ck.run(nm2, kj, joins)


def results(ck):
    """result.seq and the later stages"""
    km = ck.key("main")
    k, U = c22.setup(ck)
    ty_in = {}

    def stage(argv, uninterp):
        ip = ck.ip(uninterp=uninterp)
        ip.argv = list(argv)
        ip.opened = []
        v, st = ip.run(km, [], assume=[])
        return st, ip

    def written(ty):
        st, ip = stage(["rust", "join", ty, str(N)], list(U.values()))
        return st

    for ty in TYPE:
        nm = "results of the join are the input of the conversions: %s" % ty

        def go(ty=ty, nm=nm):
            st = written(ty)
            files = set(created(st))
            fx = st.env.get(FX, mk("vec"))
            base = FIND % (ty, N) + "/"
            kh = ck.key("hadamard_equivalence_from_file")
            un = [x for x in (ck.find("from_williamson", "HM"), ck.find("verify", "QuadSeq"), ck.find("from_str", "QS"), ck.find("from_pqs", "QuadSeq"), ck.find("to_string_magma", "HM"),
                              ck.find("graph_from_hm"), ck.find("canon_hm"), ck.find("generate_equivalent_quad_seqs"), ck.find("to_string", "QHM"), ck.find("from_pqs", "QHM"),
                              ck.find("dephased", "QHM"), ck.find("to_qs", "QuadSeq"), ck.find("to_string", "QuadSeq"), ck.find("contains_non_commuting_elements", "QHM")) if x]
            info = []
            for cmd in (["convert", "hm", ty, str(N)], ["convert", "qhm", ty, str(N)], ["qhm-all", ty, str(N)], *([["amicable", str(N)]] if ty == "qts" else [])):
                try:
                    s2, ip2 = stage(["rust"] + cmd, un)
                    opened = ip2.opened
                except Undecided:
                    raise
                opened = sorted({norm(text(x)) for x in opened})
                if len(opened) != 1:
                    raise Undecided("%s opens %s" % (" ".join(cmd), opened))
                f = opened[0]
                if f not in files:
                    raise Fail("'%s' reads %s; the join of this type writes %s" % (" ".join(cmd), f, sorted(files)), km)
                info.append((cmd, f))
            # what the file holds
            red = {x for x in find_ops(fx, ("app",)) if x.a[0] == U["reduce"]}

            def pred(m, evs):
                out = outputs(evs)
                for cmd, f in info:
                    c = out.get(f)
                    if c is None:
                        return "%s is not written" % f
                    lines = c.split("\n")
                    if lines.pop() != "":
                        return "%s: the last line is not terminated" % f
                    if ty == "wts" and cmd[:2] == ["convert", "hm"]:
                        a, = red if len(red) == 1 else (None,)
                        if a is None:
                            return None
                        want = m.ev(a)
                    else:
                        want = m.L
                    w = ["r" + c22.txt(c22.quad(q)) for q in want]
                    if sorted(lines) != sorted(w):
                        return "'%s' reads %s with the lines %s; the sequences are %s" % (" ".join(cmd), f, lines, w)
                return None

            def models(lits):
                for m in c22.models_for(U)(lits):
                    if m.N == N or True:
                        yield m
            ck.certified_rel(nm, km, mk("tuple", fx, *[S(" ".join(c) + ": " + f) for c, f in info]), lambda m, v: pred(m, v[0]), models, "; ".join("%s reads %s" % (" ".join(c), f) for c, f in info))
        ck.run(nm, km, go)

    # one line
    def line():
        q = quadseq()
        ip = ck.ip()
        qs = ip.run(ck.key("to_qs", "QuadSeq"), [q], assume=POS)[0]
        w = ck.ip().run(ck.key("to_string_raw", "QS"), [qs], assume=POS)[0]
        r = ck.ip().run(ck.key("from_str", "QS"), [w], assume=POS)[0]
        b = ck.ip().run(ck.key("from_pqs", "QuadSeq"), [r], assume=POS)[0]
        return b

    def models(lits):
        r = random.Random(6)
        for N_ in lens(lits, 9, False):
            for rep in range(4):
                arr = [pm(r, N_) for _ in range(4)]
                m = Mod(dict(zip("abcd", arr), n=N_))
                m.arr = arr
                yield m

    def pred(m, v):
        d = dict(v[1:])
        got = [list(d[c]) for c in "abcd"]
        if got != m.arr or d["size"] != len(m.arr[0]):
            return "the quadruple %s is written as a line that is read back as %s" % (m.arr, got)
        return None
    ck.certified_rel("a quadruple written to result.seq is read back as the same quadruple", k, line, pred, models, "encoding, symbols, parsing and decoding are mutually inverse")


# ---------------------------------------------------------------- scripts
EXPECT = {"pairs": "write_pairs", "join": "find_write_quad_seq", "convert hm": "hadamard_equivalence_from_file", "convert qhm": "convert_qs_to_matrices"}


def dispatch(ck, argv):
    """(function, arguments) main reaches with a command line"""
    km = ck.key("main")
    got = []
    ip = ck.ip()
    ip.argv = argv
    for f in ("write_pairs", "find_write_quad_seq", "hadamard_equivalence_from_file", "convert_qs_to_matrices", "write_pairs_rowsum", "create_rowsum_dirs", "write_pair_single_rowsum",
              "write_rowsums", "qhm_write_all", "verify_qts_eq_wts", "write_pair_single"):
        key = ck.find(f)
        if key:
            def h(ip_, st, args, e, f=f):
                got.append((f, [ip_.val(a, st) for a in args]))
                return mk("tuple")
            ip.keep[key] = h
    v, st = ip.run(km, [], assume=[])
    if v is NEVER or v is None or v.op == "never" or any(and_(*pc) is TRUE for _, pc, _, _ in ip.panics):
        raise Fail("the command '%s' is refused" % " ".join(argv[1:]), km)
    if len(got) != 1:
        raise Fail("the command '%s' reaches %s" % (" ".join(argv[1:]), [g[0] for g in got] or "no stage"), km)
    return got[0]


def expect(ck, argv, fn, want, where):
    f, args = dispatch(ck, argv)
    if f != fn:
        raise Fail("the command '%s' reaches %s instead of %s" % (" ".join(argv[1:]), f, fn), where)
    for a, w in zip(args, want):
        if w is None:
            continue
        if a is not w:
            if a.op == "str" and w.op == "str" and norm(a.a[0]) == norm(w.a[0]):
                continue
            raise Fail("the command '%s' calls %s with %s where %s is meant" % (" ".join(argv[1:]), f, show(a)[:120], show(w)[:120]), where)


def byname(ck, fn, **vals):
    """arguments in the order of the declared parameters, by type or name"""
    key = ck.key(fn)
    b, = [b for b in ck.dump["bodies"] if b["key"] == key]
    out = []
    for p in b["params"]:
        t = p["ty"]
        if "SequenceType" in t:
            out.append(vals.get("type"))
        elif t == "usize":
            out.append(vals.get("n"))
        elif "MatchOption" in t:
            out.append(vals.get("opt"))
        elif "RowsumPairing" in t:
            out.append(vals.get("pairing"))
        elif t.startswith("("):
            out.append(vals.get("rs"))
        elif "tring" in t or "str" in t:
            out.append(vals.get("text"))
        elif t in ("u8", "u32", "i32", "u64"):
            out.append(vals.get("pair"))
        else:
            out.append(None)
    return out


def scripts(ck):
    for f in ("driver.sh", "pairs.sh", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh"):
        nm = "commands of %s reach the stage they name" % f

        def go(f=f, nm=nm):
            sh = c25_script(f)
            site = "rust/" + f
            cases = 0
            kinds = set()
            for line, label, argv, done, opts in sorted(sh.calls, key=lambda c: (c[0], [shshow(a) for a in c[2]], sorted(c[3]), sorted(c[4]))):
                for ty in TYPE:
                    for pr in ("WX", "WY", "WZ"):
                        env = {"$1": ty, "$2": str(N), "OPTARG of -p": pr}
                        if label.endswith(".sh"):
                            a = [shlit(argv[0])] + [resolve(x, env) for x in argv[1:]]
                            if a[1:3] != [ty, str(N)] and a[2:4] != [ty, str(N)]:
                                raise Fail("line %d: %s is called with the arguments %s" % (line, label, a[1:]), site)
                            cases += 1
                            continue
                        if not label.startswith("rust"):
                            continue
                        a = ["rust"] + [resolve(x, env) for x in argv[1:]]
                        cmd = a[1] if a[1] != "convert" else " ".join(a[1:3])
                        if cmd not in EXPECT:
                            continue
                        kinds.add(cmd)
                        fn = EXPECT[cmd]
                        vals = dict(type=TYPE[ty], n=I(N))
                        if cmd == "pairs":
                            # the options decide
                            usedp = any(isinstance(y, tuple) and y[1] == "OPTARG of -p" for x in argv for y in x)
                            vals.update(opt=c11.opt("CORRELATION" if "c" in opts else "PSD"), pairing=c11.pairing(pr if usedp else "WZ"))
                            if "p" in opts and not usedp:
                                raise Fail("line %d: the pairing option is not passed on" % line, site)
                        if cmd == "convert hm":
                            vals["text"] = None
                        key = (f, line, tuple(a), tuple(sorted(opts & {"c", "p"})))
                        if key in _seen:
                            continue
                        _seen.add(key)
                        expect(ck, a, fn, byname(ck, fn, **vals), site + ":%d" % line)
                        cases += 1
            need = {"driver.sh": ("pairs", "join", "convert hm"), "pairs.sh": ("pairs",), "join_pairs.sh": ("join",), "convert_hm.sh": ("convert hm",), "convert_qhm.sh": ("convert qhm",)}[f]
            lab = {l for _, l, _, _, _ in sh.calls}
            for c in need:
                if c not in kinds and not any(l.endswith(".sh") and c.replace(" ", "_") in l for l in lab):
                    raise Fail("%s never starts '%s'" % (f, c), site)
            ck.ok(nm, "every command line of the script, with every type and pairing, through the summary of main", site, "%d command lines, %d kinds" % (cases, len(kinds)))
        _seen = set()
        ck.run(nm, "rust/" + f, go)

    def order():
        sh = c25_script("driver.sh")
        bef = {"sortpairs.sh": ("rust pairs",), "rust join": ("rust pairs", "sortpairs.sh"), "rust convert": ("rust join",), "convert_qhm.sh": ("rust join",), "convert_hm.sh": ("rust join",)}
        for line, label, argv, done, opts in sh.calls:
            for b in bef.get(label, ()):
                alt = {b} | ({"pairs.sh"} if b == "rust pairs" else {"join_pairs.sh"} if b == "rust join" else set())
                if not alt & done:
                    raise Fail("line %d: %s can start before %s has succeeded" % (line, label, b), "rust/driver.sh:%d" % line)
        ck.ok(nm, "success facts on every path to each stage", "rust/driver.sh", "%d calls" % len(sh.calls))
    nm = "the driver starts a stage only after the stages it reads from"
    ck.run(nm, "rust/driver.sh", order)

    def reads():
        sh = c25_script("driver.sh")
        k = ck.key("hadamard_equivalence_from_file")
        un = [x for x in (ck.find("from_williamson", "HM"), ck.find("verify", "QuadSeq"), ck.find("from_str", "QS"), ck.find("from_pqs", "QuadSeq"), ck.find("to_string_magma", "HM"),
                          ck.find("graph_from_hm"), ck.find("canon_hm")) if x]
        n_ = 0
        for ty in TYPE:
            ip = ck.ip(uninterp=un)
            _, st = ip.run(k, [S(FIND % (ty, N) + "/result.seq"), TYPE[ty]], assume=[])
            made = set(created(st)) | {FIND % (ty, N) + "/result.log"}
            for line, t in sh.reads:
                p = norm(resolve(t, {"$1": ty, "$2": str(N)}))
                if p.startswith("results/") and p not in made:
                    raise Fail("line %d reads %s; the conversion writes %s" % (line, p, sorted(made)), "rust/driver.sh:%d" % line)
                n_ += 1
        ck.ok(nm2, "redirected inputs of the script against the effects of the stage", "rust/driver.sh", "%d reads" % n_)
    nm2 = "the driver counts the matrices in the file the conversion writes"
    ck.run(nm2, "rust/driver.sh", reads)

    def single():
        rs = mk("tuple", I(-1), I(2), I(3), I(4))
        nums = ["-1", "2", "3", "4"]
        c = 0
        for ty in TYPE:
            for p in ("WX", "WY", "WZ"):
                for o, O in (("psd", "PSD"), ("correlation", "CORRELATION")):
                    v = dict(n=I(N), rs=rs, opt=c11.opt(O), pairing=c11.pairing(p), text=S(ty), type=TYPE[ty])
                    expect(ck, ["rust", "pairs_rowsum", ty, str(N)] + nums + [o, p], "write_pairs_rowsum", byname(ck, "write_pairs_rowsum", **v), km)
                    c += 1
                    for h in (1, 2):
                        expect(ck, ["rust", "pair_single", ty, str(N)] + nums + [o, p, str(h)], "write_pair_single_rowsum", byname(ck, "write_pair_single_rowsum", pair=I(h), **v), km)
                        c += 1
                v = dict(n=I(N), rs=rs, pairing=c11.pairing(p), text=S(ty), type=TYPE[ty])
                expect(ck, ["rust", "create", ty, str(N)] + nums + [p], "create_rowsum_dirs", byname(ck, "create_rowsum_dirs", **v), km)
                c += 1
            expect(ck, ["rust", "rowsums", ty, str(N)], "write_rowsums", byname(ck, "write_rowsums", n=I(N), type=TYPE[ty]), km)
            expect(ck, ["rust", "qhm-all", ty, str(N)], "qhm_write_all", byname(ck, "qhm_write_all", n=I(N), type=TYPE[ty]), km)
            c += 2
        expect(ck, ["rust", "amicable", str(N)], "verify_qts_eq_wts", byname(ck, "verify_qts_eq_wts", n=I(N)), km)
        c += 1
        ck.ok(nm3, "enumeration of the options through the summary of main", km, "%d command lines" % c)
    nm3 = "commands for single row sums pass their arguments in order"
    km = ck.key("main")
    ck.run(nm3, km, single)
