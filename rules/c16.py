"""I/O failures surface and no output is silently truncated.

Every expression of the bodies reachable from main whose type carries a Result (other than formatting into memory) is
followed to the construct that consumes it, in the compiler's typed IR: it has to be unwrapped, propagated with ? or a
returned Err, or matched so that every arm an error can take aborts. Discarding it (statement, wildcard, drop, ok,
unwrap_or, a non aborting arm of match or if let, an iterator adaptor that skips errors) is reported at that construct. Raw
write and read calls whose byte count is dropped, buffered writers that are never flushed, and caught panics are reported
too."""
import re

FLOOR = 6
RES = "core::result::Result<"
QUIET = ("core::fmt::Error", "core::convert::Infallible")
WRAP = ("borrow", "deref", "scope", "coerce", "cast", "blk", "block")


def strip(ty):
    ty = ty or ""
    while ty.startswith("&"):
        ty = re.sub(r"^&('\S+ )?(mut )?", "", ty)
    return ty


def split_args(s):
    """top level generic arguments of a type"""
    i = s.find("<")
    if i < 0 or not s.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for c in s[i + 1:-1]:
        if c in "<([":
            d += 1
        if c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def is_res(ty):
    ty = strip(ty)
    if not ty.startswith(RES):
        return False
    a = split_args(ty)
    return len(a) == 2 and a[1] not in QUIET


def has_res(ty):
    """a Result is part of the value (not of a function type)"""
    ty = strip(ty)
    if is_res(ty):
        return True
    if ty.startswith("core::option::Option<"):
        return any(has_res(x) for x in split_args(ty))
    if ty.startswith("(") and ty.endswith(")"):
        return any(has_res(x) for x in split_args("t<" + ty[1:-1] + ">"))
    return False


def iter_res(ty):
    """an iterator or collection of Results"""
    ty = strip(ty)
    return "alloc::io::util::Lines<" in ty or "std::io::Lines<" in ty or "std::fs::ReadDir" in ty or RES in ty and not is_res(ty) and "core::fmt::Error" not in ty or "alloc::io::util::Split<" in ty or "alloc::io::util::Bytes<" in ty


KEEP = {"expect", "unwrap", "unwrap_err", "expect_err", "into_ok", "branch", "from_residual", "unwrap_unchecked"}
DROP = {"ok", "err", "unwrap_or", "unwrap_or_default", "map_or", "iter", "into_iter", "iter_mut", "is_ok_and", "is_err_and", "is_none_or"}
SKIP = {"flatten", "flatten_ok"}
SKIPC = {"take_while", "filter", "map_while", "skip_while", "filter_map", "flat_map", "take_while_ref"}


class Body:
    def __init__(self, lint, b):
        self.l = lint
        self.b = b
        self.res_vars = {}        # var -> [sp, consuming uses]
        self.n = 0
        self.par = {}


class Lint:
    def __init__(self, dump, reach):
        self.dump = dump
        self.by = {b["key"]: b for b in dump["bodies"]}
        self.bad = []             # (function, sp, what)
        self.und = []
        self.sites = {}           # function -> consumed results
        self.reach = reach

    # ------------------------------------------------------------ what aborts
    def aborts(self, e, propagate=True):
        """every way through e panics, exits with failure or hands an Err on"""
        if e is None:
            return False
        k = e["k"]
        if k in ("scope", "never", "coerce", "borrow", "deref", "cast"):
            return self.aborts(e["e"], propagate)
        if k in ("blk", "block"):
            b = e["b"] if k == "blk" else e
            for s in b["stmts"]:
                x = s.get("e") if s["k"] == "expr" else s.get("init")
                if x is not None and self.aborts(x, False):
                    return True
            return self.aborts(b.get("expr"), propagate) if b.get("expr") else False
        if k == "if":
            return self.aborts(e["c"], False) or bool(e.get("e")) and self.aborts(e["t"], propagate) and self.aborts(e["e"], propagate)
        if k == "match":
            return self.aborts(e["e"], False) or bool(e["arms"]) and all(self.aborts(a["body"], propagate) for a in e["arms"])
        if k == "loop":
            return self.aborts(e["body"], False)
        if k == "return":
            x = e.get("e")
            return x is not None and (self.errvalue(x) or self.aborts(x, propagate))
        if k == "call":
            if any(self.aborts(a, False) for a in e["args"]):
                return True
            nm = (e["callee"] or {}).get("path") or "" if isinstance(e.get("callee"), dict) else ""
            if nm.endswith("process::exit"):
                a = e["args"][0]
                while a["k"] in WRAP and "e" in a:
                    a = a["e"]
                return not (a["k"] == "lit" and str(litval(a)) == "0")
            if e["ty"] == "!":
                return True
            return propagate and is_res(e["ty"])
        if k == "adt":
            return propagate and self.errvalue(e)
        if k in ("let", "assign", "bin", "tuple", "un", "field", "logic", "assignop", "index"):
            return any(self.aborts(e[f], False) for f in ("e", "r", "l", "init", "i") if isinstance(e.get(f), dict)) or any(self.aborts(x, False) for x in e.get("es", []))
        return False

    def errvalue(self, e):
        while e["k"] in ("scope", "coerce", "blk"):
            if e["k"] == "blk":
                if not e["b"].get("expr"):
                    return False
                e = e["b"]["expr"]
            else:
                e = e["e"]
        if e["k"] == "adt":
            if e["adt"].endswith("result::Result"):
                return e.get("variant") == "Err"
            return any(self.errvalue(f["e"]) for f in e["fields"])
        return e["k"] in ("call", "var", "upvar") and is_res(e["ty"])

    # ------------------------------------------------------------ patterns
    def mayerr(self, p, none=False):
        """the pattern lets an error through without naming it; none: an Option obtained with ok()"""
        k = p["k"]
        ty = p.get("ty") or ""
        if k == "wild":
            return none or has_res(ty)
        if k == "bind":
            if p.get("sub"):
                return self.mayerr(p["sub"], none)
            return none
        if k == "or":
            return any(self.mayerr(x, none) for x in p["pats"])
        if k == "variant":
            if p["adt"].endswith("result::Result"):
                return p["variant"] == "Err" and is_res(ty)
            if none and p["adt"].endswith("option::Option"):
                return p["variant"] == "None"
            return any(self.mayerr(s["p"]) for s in p["subs"])
        if k in ("leaf", "deref"):
            subs = p.get("subs") or ([p["p"]] if isinstance(p.get("p"), dict) else [])
            return any(self.mayerr(s["p"] if "p" in s and isinstance(s["p"], dict) else s) for s in subs)
        return False

    # ------------------------------------------------------------ traversal
    def body(self, b):
        self.fn = b["key"]
        self.cur = b
        self.vars = {}
        self.uses = {}
        self.used_as = {}
        for p in b.get("params") or []:
            if p.get("pat"):
                self.pattern(p["pat"], param=True)
        if b.get("root"):
            self.expr(b["root"], ("ret",))
        for v, (sp, name) in self.vars.items():
            if not self.uses.get(v):
                self.report(sp, "the result held in `%s` is never examined" % name)

    def report(self, sp, what):
        self.bad.append((self.fn, sp, what))

    def pattern(self, p, param=False):
        if p["k"] == "bind":
            if is_res(p.get("bty") or p.get("ty")) and not param:
                self.vars[p["var"]] = (self.sp, p["name"])
            if p.get("sub"):
                self.pattern(p["sub"])
        elif p["k"] == "wild":
            pass
        for s in p.get("subs") or []:
            self.pattern(s["p"] if isinstance(s, dict) and isinstance(s.get("p"), dict) else s)
        for s in p.get("pats") or []:
            self.pattern(s)

    def block(self, b, ctx):
        for s in b["stmts"]:
            if s["k"] == "expr":
                self.expr(s["e"], ("stmt", s))
            else:
                self.sp = s.get("sp") or getattr(self, "sp", "")
                if s.get("init") is not None:
                    self.expr(s["init"], ("let", s))
                if s["pat"]:
                    self.pattern(s["pat"])
                if s.get("else"):
                    self.block(s["else"], ("stmt", s)) if s["else"].get("k") == "block" else self.expr(s["else"], ("stmt", s))
        if b.get("expr"):
            self.expr(b["expr"], ctx)

    def expr(self, e, ctx):
        if e is None:
            return
        k = e["k"]
        self.sp = e.get("sp") or getattr(self, "sp", "")
        if k in ("var", "upvar") and is_res(e.get("ty")):
            if ctx[0] != "fmt":
                self.uses[e.get("var")] = self.uses.get(e.get("var"), 0) + 1
        if k in ("scope", "coerce", "never", "cast", "borrow", "deref"):
            return self.expr(e["e"], ctx)
        if k == "blk":
            return self.block(e["b"], ctx)
        if k == "block":
            return self.block(e, ctx)
        if k == "if":
            self.expr(e["c"], ("cond", e))
            self.expr(e["t"], ctx)
            self.expr(e.get("e"), ctx)
            return
        if k == "match":
            self.consume(e["e"], ("match", e))
            self.expr(e["e"], ("match", e))
            for a in e["arms"]:
                self.pattern(a["pat"])
                if a.get("guard"):
                    self.expr(a["guard"], ("value",))
                self.expr(a["body"], ctx)
            return
        if k == "let":
            self.consume(e["e"], ("iflet", e, ctx))
            self.expr(e["e"], ("iflet", e, ctx))
            self.pattern(e["pat"])
            return
        self.consume(e, ctx)
        if k == "call":
            cal = e.get("callee")
            nm, path = "", ""
            if isinstance(cal, dict):
                nm, path = cal.get("name") or "", cal.get("path") or ""
                self.special(e, cal, nm, path, ctx)
            fe = e.get("fn") or e.get("f")
            if isinstance(fe, dict) and "k" in fe:
                self.expr(fe, ("value",))
            for a in e["args"]:
                self.expr(a, ("fmt",) if path.startswith("core::fmt::rt::Argument") else ("arg", e, nm, path, ctx))
            return
        if k == "logic" or k == "un":
            c2 = ctx if ctx[0] in ("cond",) else ("value",)
            for f in ("e", "l", "r"):
                if isinstance(e.get(f), dict):
                    self.expr(e[f], ("logic", e, c2) if ctx[0] == "cond" else ("value",))
            return
        if k in ("loop",):
            self.expr(e["body"], ("stmt", None))
            return
        if k == "closure":
            return
        if k == "return":
            self.expr(e.get("e"), ("ret",))
            return
        if k == "break":
            self.expr(e.get("e"), ("value",))
            return
        if k == "assign":
            self.expr(e["l"], ("fmt",))
            self.expr(e["r"], ("value",))
            return
        for v in e.values():
            if isinstance(v, dict) and "k" in v:
                self.expr(v, ("value",))
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and "k" in x:
                        self.expr(x, ("value",))
                    elif isinstance(x, dict) and isinstance(x.get("e"), dict):
                        self.expr(x["e"], ("value",))

    def ok_site(self):
        self.sites[self.fn] = self.sites.get(self.fn, 0) + 1

    def consume(self, e, ctx):
        """judge how the value of e (if it is a Result) is used"""
        while e["k"] in ("borrow", "deref", "coerce") or e["k"] == "scope":
            e = e["e"]
        ty = e.get("ty") or ""
        okopt = e["k"] == "call" and isinstance(e.get("callee"), dict) and e["callee"].get("name") == "ok" and "result::Result" in (e["callee"].get("path") or "") and bool(e["args"]) and is_res(e["args"][0].get("ty"))
        if not has_res(ty) and not okopt:
            return
        sp = e.get("sp") or self.sp
        c = ctx[0]
        what = "%s" % (callname(e) or e["k"])
        if c == "stmt":
            if e["k"] in ("assign",) or self.aborts(e):
                return
            return self.report(sp, "the result of %s is discarded" % what)
        if c == "let":
            s = ctx[1]
            p = s["pat"]
            if p["k"] == "wild":
                return self.report(sp, "the result of %s is bound to _" % what)
            if s.get("else"):
                if not (self.aborts(s["else"])):
                    return self.report(sp, "let-else on %s does not abort on an error" % what)
                return self.ok_site()
            if self.mayerr(p, okopt and p["k"] != "bind"):
                return self.report(sp, "the result of %s is taken apart without its error" % what)
            return self.ok_site()
        if c == "match":
            m = ctx[1]
            for a in m["arms"]:
                if self.mayerr(a["pat"], okopt) and not self.aborts(a["body"]):
                    return self.report(a.get("sp") or sp, "match on %s goes on after an error" % what)
            return self.ok_site()
        if c == "iflet":
            node, outer = ctx[1], ctx[2]
            p = node["pat"]
            if outer[0] != "cond":
                self.und.append((self.fn, sp, "pattern test of %s" % what))
                return
            iff = outer[1]
            err_then = self.mayerr(p, okopt)
            if err_then:
                good = self.aborts(iff["t"])
            else:
                good = bool(iff.get("e")) and self.aborts(iff["e"])
                if not good and p["k"] == "variant" and p["adt"].endswith("option::Option") and not okopt and not oksub(p):
                    good = True      # if let Some(r) = next: the Result is bound
            if not good:
                return self.report(sp, "if let on %s goes on after an error" % what)
            return self.ok_site()
        if c == "ret":
            return self.ok_site()
        if c == "arg":
            return
        if c == "fmt":
            return
        if okopt:
            self.und.append((self.fn, sp, "error of %s dropped by ok()" % callname(e)))

    def special(self, e, cal, nm, path, ctx):
        """calls that receive a Result, an iterator of Results, or move bytes"""
        sp = e.get("sp") or self.sp
        args = e["args"]
        t0 = strip(args[0].get("ty")) if args else ""
        if "::result::Result" in path and args and is_res(t0):
            if nm == "ok":
                par = ctx
                if par[0] == "arg" and par[2] in ("expect", "unwrap", "ok_or", "ok_or_else", "branch", "unwrap_unchecked"):
                    return self.ok_site()
                if par[0] in ("match", "iflet", "let"):
                    return           # judged there
                return self.report(sp, "the error of %s is dropped by ok()" % callname(args[0]))
            if nm in ("is_ok", "is_err"):
                good = self.guarded(nm, ctx)
                if good is None:
                    if ctx[0] == "ret" and self.cur.get("closure"):
                        return       # judged at the adaptor
                    self.und.append((self.fn, sp, "%s of %s" % (nm, callname(args[0]))))
                elif not good:
                    self.report(sp, "%s of %s is tested and the program goes on after an error" % (nm, callname(args[0])))
                else:
                    self.ok_site()
                return
            if nm == "unwrap_or_else" or nm == "map_or_else":
                f = args[1]
                while f["k"] in WRAP and "e" in f:
                    f = f["e"]
                b = self.by.get(f.get("key")) if f["k"] == "closure" else None
                if b is not None and b.get("root"):
                    if self.aborts(b["root"]):
                        return self.ok_site()
                    return self.report(sp, "%s replaces the error of %s by a value" % (nm, callname(args[0])))
                self.und.append((self.fn, sp, nm))
                return
            if nm in DROP:
                return self.report(sp, "the error of %s is dropped by %s" % (callname(args[0]), nm))
            if nm in KEEP:
                self.ok_site()
        if path.endswith("mem::drop") or path.endswith("mem::forget"):
            if args and has_res(args[0].get("ty")):
                self.report(sp, "the result of %s is dropped" % callname(args[0]))
        if nm in SKIP and iter_res(t0):
            self.report(sp, "%s skips the errors of an iterator of results" % nm)
        if nm in SKIPC and iter_res(t0) and len(args) > 1:
            f = args[1]
            while f["k"] in WRAP and "e" in f:
                f = f["e"]
            if f["k"] == "zst":
                g = (f.get("callee") or {})
                if "::result::Result" in (g.get("path") or "") and g.get("name") in ("ok", "is_ok", "is_err", "iter", "into_iter"):
                    self.report(sp, "%s with Result::%s skips the errors of an iterator of results" % (nm, g.get("name")))
            elif f["k"] == "closure":
                b = self.by.get(f.get("key"))
                if b is not None and b.get("root"):
                    if calls(b["root"], ("is_ok", "is_err")) and nm in ("take_while", "filter", "skip_while", "map_while"):
                        self.report(sp, "%s skips the errors of an iterator of results" % nm)
                    if nm == "flat_map" and is_res(b.get("ret")) or nm in ("flat_map",) and is_res(b["root"].get("ty")):
                        self.report(sp, "flat_map skips the errors of an iterator of results")
        if nm == "into_iter" and args and is_res(t0):
            self.report(sp, "the error of %s is dropped by iteration" % callname(args[0]))
        if path in ("core::io::write::Write::write", "std::io::Write::write", "core::io::read::Read::read", "std::io::Read::read", "alloc::io::read::Read::read") or nm in ("write", "read") and path.endswith(("Write::write", "Read::read")) or nm in ("write_vectored", "read_vectored"):
            w = self.count_used(ctx)
            if w is False:
                self.report(sp, "the number of bytes %s transferred is dropped" % nm)
            elif w is None:
                self.und.append((self.fn, sp, "use of the byte count of %s" % nm))
            else:
                self.ok_site()
        if "catch_unwind" in path:
            self.report(sp, "panics are caught")

    def guarded(self, nm, ctx):
        """is_ok/is_err tested by an if whose error branch aborts; None: not directly tested"""
        neg_ = nm == "is_ok"      # condition true means no error
        c = ctx
        if c[0] == "logic":
            node = c[1]
            if node["k"] == "un" and node.get("op") == "Not":
                neg_ = not neg_
            elif node["k"] == "logic":
                # a || err: the then branch is taken on error; a && ok: the else branch
                op = node.get("op")
                if not (op == "Or" and not neg_ or op == "And" and neg_):
                    return None
            c = c[2]
        if c[0] != "cond":
            return None
        iff = c[1]
        if neg_:
            return bool(iff.get("e")) and self.aborts(iff["e"])
        return self.aborts(iff["t"])

    def count_used(self, ctx):
        """the Ok value of a raw write: False dropped, True used, None unknown"""
        if ctx[0] == "stmt":
            return False
        if ctx[0] == "let":
            return False if ctx[1]["pat"]["k"] == "wild" else None
        if ctx[0] == "arg" and ctx[2] in ("expect", "unwrap", "branch"):
            up = ctx[4]
            if up[0] == "stmt":
                return False
            if up[0] == "let":
                return False if up[1]["pat"]["k"] == "wild" or up[1]["pat"]["k"] == "bind" and up[1]["pat"]["name"].startswith("_") else True
            if up[0] == "match" and up[1].get("src", "").startswith("TryDesugar"):
                return None
            return True
        if ctx[0] == "match":
            pats = [a["pat"] for a in ctx[1]["arms"]]
            for p in pats:
                if p["k"] == "variant" and p["variant"] == "Ok":
                    q = p["subs"][0]["p"] if p["subs"] else {"k": "wild"}
                    if q["k"] == "wild" or q["k"] == "bind" and q["name"].startswith("_"):
                        return False
            return True
        if ctx[0] == "iflet":
            return None
        return None


def oksub(p):
    """pattern mentions Ok inside"""
    if p["k"] == "variant" and p["adt"].endswith("result::Result"):
        return True
    return any(oksub(s["p"]) for s in p.get("subs") or [] if isinstance(s.get("p"), dict)) or any(oksub(x) for x in p.get("pats") or [])


def litval(a):
    v = a.get("v")
    return v.get("v", v) if isinstance(v, dict) else v


def callname(e):
    while e["k"] in WRAP and "e" in e:
        e = e["e"]
    if e["k"] == "call" and isinstance(e.get("callee"), dict):
        return (e["callee"].get("path") or e["callee"].get("name") or "call").replace("core::io::", "io::").replace("alloc::io::", "io::")
    if e["k"] in ("var", "upvar"):
        return "`%s`" % e.get("name")
    return e["k"]


def calls(x, names):
    if isinstance(x, dict):
        if x.get("k") == "call" and isinstance(x.get("callee"), dict) and x["callee"].get("name") in names:
            return True
        return any(calls(v, names) for v in x.values())
    if isinstance(x, list):
        return any(calls(v, names) for v in x)
    return False


def mentions(x, out):
    """keys of local items an expression refers to"""
    if isinstance(x, dict):
        for f in ("key", "reskey"):
            if isinstance(x.get(f), str):
                out.add(x[f])
        for v in x.values():
            mentions(v, out)
    elif isinstance(x, list):
        for v in x:
            mentions(v, out)


def reachable(dump):
    by = {b["key"]: b for b in dump["bodies"]}
    seen, todo = set(), [k for k in by if k == "::main"]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        out = set()
        mentions(by[k].get("root"), out)
        todo += [x for x in out if x in by and x not in seen]
    return [by[k] for k in by if k in seen]


IOCALL = re.compile(r"^(std::fs::|std::io::|core::io::|alloc::io::|::read_lines)")


def check(ck):
    def f():
        reach = reachable(ck.dump)
        if not reach:
            return ck.und("reachable functions", "no main function")
        lint = Lint(ck.dump, reach)
        io = {}
        for b in reach:
            lint.body(b)
            ck.bodies.add(b["key"])
        flush = {"made": [], "flushed": False}

        def scan(x, fn):
            if isinstance(x, dict):
                if x.get("k") == "call" and isinstance(x.get("callee"), dict):
                    ck.sites += 1
                    p = x["callee"].get("path") or ""
                    if IOCALL.match(p):
                        io.setdefault(fn, []).append("%s at %s" % (p, x.get("sp")))
                    if re.search(r"(BufWriter|LineWriter)::?<.*>::(new|with_capacity)$|(BufWriter|LineWriter)::(new|with_capacity)$", p):
                        flush["made"].append((fn, x.get("sp")))
                    if x["callee"].get("name") in ("flush", "into_inner") and any("Writer<" in (a.get("ty") or "") or "dyn" in (a.get("ty") or "") for a in x["args"]):
                        flush.setdefault("at", set()).add(fn)
                for v in x.values():
                    scan(v, fn)
            elif isinstance(x, list):
                for v in x:
                    scan(v, fn)
        for b in reach:
            scan(b.get("root"), b["key"])
        ck.extra["reachable_functions"] = len(reach)
        ck.extra["io_call_sites"] = {k: v for k, v in sorted(io.items())}
        bad = {}
        for fn, sp, what in lint.bad:
            bad.setdefault(fn, []).append((sp, what))
        und = {}
        for fn, sp, what in lint.und:
            und.setdefault(fn, []).append((sp, what))
        for fn in sorted(set(lint.sites) | set(bad) | set(und)):
            name = "errors surface in %s" % fn
            if fn in bad:
                ck.bad(name, "; ".join(sorted({w for s, w in bad[fn]})), "%s (%s)" % (fn, bad[fn][0][0]), "\n".join("%s: %s" % x for x in bad[fn]))
            elif fn in und:
                ck.und(name, "consumer outside the analysed forms: " + "; ".join("%s: %s" % x for x in und[fn]), fn)
            else:
                ck.ok(name, "%d results consumed by aborting or propagating constructs" % lint.sites[fn], fn, "; ".join(io.get(fn, []))[:1500])
        if flush["made"]:
            miss = [(fn, sp) for fn, sp in flush["made"] if fn not in flush.get("at", set())]
            if miss and flush.get("at"):
                ck.und("buffered writers are flushed", "flushed in another function", miss[0][0])
            elif miss:
                ck.bad("buffered writers are flushed", "errors of the final write are lost when a buffered writer is dropped without flush", "%s (%s)" % miss[0])
            else:
                ck.ok("buffered writers are flushed", "flush or into_inner in the creating function", flush["made"][0][0])
        else:
            ck.ok("buffered writers are flushed", "no buffered writer in the %d reachable functions" % len(reach))
    ck.run("I/O results", "", f)
