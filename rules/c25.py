"""Scripts stop on failure and delete data only after success.

Every script of the pipeline is parsed (qsa/sh.py) and interpreted abstractly, without running any command: each stage
command forks the state into its success and its failure, every undetermined test goes both ways, loops run to a fixpoint
over the abstract states. The rule is a typestate: in a state where a stage has failed no further stage may start and no
exit with status 0 may be reached; a pair file may be removed or truncated only in a state in which a sort of exactly that
file into <file>.sorted has succeeded (or the user gave the delete option); a sort has to see LC_ALL=C exported and whole
line order."""
import os
import re

from qsa.ob import Fail, Undecided
from qsa.sh import NZ, ZERO, Sh, Unsupported, lit, show

NEEDS_DUMP = False
FLOOR = 8
ROOT = os.path.join(os.environ.get("QSA_REPO", "/repo"), "rust")
SCRIPTS = ["driver.sh", "pairs.sh", "sortpairs.sh", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh"]
ORDER_FLAGS = set("nrfgdhVMRib")          # sort flags that leave whole line byte order
PLAIN_FLAGS = set("smuczSTo")


class Scripts(Sh):
    def __init__(self, text, name):
        Sh.__init__(self, text, name)
        self.found, self.sorts, self.removals, self.stages, self.und = {}, {}, {}, {}, {}
        self.calls, self.sorted_files, self.reads = set(), set(), set()

    def note(self, what, line, msg):
        self.found.setdefault(what, {})[(line, msg)] = 1

    def stage(self, argv):
        n = lit(argv[0])
        if n in ("bash", "sh") and len(argv) > 1 and (lit(argv[1]) or "").endswith(".sh"):
            n = lit(argv[1])
        b = os.path.basename(n)
        if b == "rust" and "/" in n:
            return " ".join(["rust"] + [lit(a) or show(a) for a in argv[1:2]])
        if b == "cargo":
            return "cargo " + (lit(argv[1]) if len(argv) > 1 and lit(argv[1]) else "")
        if b == "sort":
            return "sort"
        if b in SCRIPTS:
            return b
        return None

    def sorted_(self, st, v):
        return any(f[0] == "sorted" and f[1] == v and show(f[2]) == show(v) + ".sorted" for f in st.facts)

    def named(self, v):
        """v is a pair file itself"""
        return len(v) > 0 and self.pairfile(v) and (show(v).endswith(".pair") or len(v) == 1 and isinstance(v[0], tuple) and v[0][1].endswith(".pair"))

    def pairfile(self, v):
        """v may name a pair file of a search"""
        t = show(v)
        if t.endswith(".sorted"):
            return False
        return ".pair" in t or "rowsum" in t or bool(re.search(r"find_.*<glob", t))

    def on(self, kind, line=0, st=None, **kw):
        if kind == "write":
            t = kw["target"]
            if not kw["append"] and self.named(t) and not self.sorted_(st, t):
                self.note("delete", line, f"{show(t)} is overwritten before a sorted copy of it exists")
            return None
        if kind == "stage":
            label = kw["label"]
            self.stages.setdefault(line, label)
            if st.failed and not (label == "sort" and st.failed.startswith("sort ")):
                self.note("stop", line, f"{label} is started after {st.failed} has failed")
            self.calls.add((line, label, tuple(kw["argv"]), frozenset(f[1] for f in st.facts if f[0] == "done"), frozenset(f[1] for f in st.facts if f[0] == "option")))
            if label != "sort":
                return st.copy(facts=st.facts | {("done", label)}), st
            return self.sort(line, st, **kw)
        if kind == "cmd":
            for fd, op, t in kw["redirs"]:
                if op == "<":
                    self.reads.add((line, t))
            n, argv = kw["name"], kw["argv"]
            if os.path.basename(n) == "pair_file_cleanup.sh" or n in ("bash", "sh") and any("pair_file_cleanup" in show(a) for a in argv):
                self.removals.setdefault(line, "cleanup")
                if ("option", "d") not in st.facts:
                    self.note("delete", line, "generated files are cleaned up although the delete option was not given")
                return [("next", st.copy(status=ZERO))]
            if n in ("rm", "unlink", "shred", "truncate"):
                for a in argv[1:]:
                    t = show(a)
                    if t.startswith("-"):
                        continue
                    if self.pairfile(a):
                        self.removals.setdefault(line, t)
                        if not self.sorted_(st, a) and ("option", "d") not in st.facts:
                            self.note("delete", line, f"{n} {t} can run although no sort of this file into its .sorted copy has succeeded")
                    for f in list(st.facts):
                        if f[0] == "sorted" and show(f[2]) == t:
                            st.facts = st.facts - {f}
                return [("next", st.copy(status=ZERO))]
            if n in ("mv", "cp") and len(argv) >= 3 and any(f[0] == "sorted" and f[2] == argv[-2] for f in st.facts):
                t = st.copy(status=ZERO)
                t.facts = frozenset((f[0], f[1], argv[-1]) if f[0] == "sorted" and f[2] == argv[-2] else f for f in st.facts)
                return [("next", t), ("next", st.copy(status=NZ))]
            if n == "mv" and any(self.pairfile(a) for a in argv[1:-1]) or n == "find" and any((lit(a) or "").startswith(("-delete", "-exec")) for a in argv) or n == "xargs":
                self.und[line] = f"{n} acts on files the analysis does not name"
        return None

    def sort(self, line, st, argv=(), env=None, redirs=(), ctx=(), **kw):
        env = env or {}
        val = env.get("LC_ALL")
        if val is None and "LC_ALL" in st.exp:
            val = st.vars.get("LC_ALL")
        self.sorts.setdefault(line, 0)
        if val is None:
            self.note("order", line, "sort runs without LC_ALL=C in its environment: the caller's locale decides the order")
        elif lit(val) not in ("C", "POSIX", "C.UTF-8", "C.utf8"):
            if lit(val) is None:
                self.und[line] = "LC_ALL is not a constant"
            else:
                self.note("order", line, f"sort runs with LC_ALL={lit(val)}")
        files, out, i = [], None, 1
        ends = False
        while i < len(argv):
            a, t = argv[i], show(argv[i])
            i += 1
            if ends or not (isinstance(a[0] if a else "", str) and t.startswith("-")) or t == "-":
                files.append(a)
            elif t == "--":
                ends = True
            elif t.startswith("--"):
                o = t[2:].split("=")[0]
                if o in ("numeric-sort", "reverse", "ignore-case", "general-numeric-sort", "dictionary-order", "human-numeric-sort", "version-sort", "month-sort", "random-sort",
                         "ignore-nonprinting", "ignore-leading-blanks", "sort"):
                    self.note("order", line, f"sort {t}: not the byte order of whole lines")
                elif o == "output":
                    out = ((a[0][9:],) if a[0][9:] else ()) + a[1:]
                elif o in ("parallel", "buffer-size", "temporary-directory", "stable", "compress-program", "batch-size"):
                    if "=" not in t:
                        i += o not in ("stable",)
                else:
                    self.und[line] = f"sort {t}"
            else:
                j = 1
                while j < len(t):
                    c = t[j]
                    j += 1
                    if c in ORDER_FLAGS:
                        self.note("order", line, f"sort -{c}: not the byte order of whole lines")
                    elif c in "STokt":
                        rest = t[j:]
                        arg = (rest,) if rest else argv[i] if i < len(argv) else ()
                        i += not rest
                        if c == "o":
                            out = arg
                        if c == "k":
                            m = re.match(r"(\d+)(?:\.\d+)?([a-zA-Z]*)", show(arg))
                            if m and (m.group(1) != "1" or set(m.group(2)) & ORDER_FLAGS):
                                self.note("order", line, f"sort -k {show(arg)}: not the byte order of whole lines")
                            else:
                                self.und[line] = "sort -k"
                        if c == "t":
                            self.und[line] = "sort -t"
                        break
                    elif c not in PLAIN_FLAGS or c in "cCmu":
                        self.und[line] = f"sort -{c}"
        for fd, op, t in redirs:
            if op == "<":
                files.append(t)
            elif op in (">", ">|") and fd in ("", "1"):
                out = t
            elif op == ">>":
                self.und[line] = "sort appends to its output"
        if len(files) != 1 or "in" in ctx and not files or "out" in ctx:
            self.und[line] = "sort in a form the analysis does not relate to one file"
            return st, st
        x = files[0]
        if out is not None and out == x:
            return st, st
        if out is not None:
            self.sorted_files.add((line, x, out))
            return st.copy(facts=st.facts | {("sorted", x, out)}), st
        return st, st


def check(ck):
    total = 0
    for f in SCRIPTS:
        path = os.path.join(ROOT, f)
        site = "rust/" + f
        name = f"{f}: a failed stage ends the script with a failure"
        if not os.path.exists(path):
            ck.und(name, "script is not there", site)
            continue
        box = {}

        def go():
            sh = Scripts(open(path).read(), f)
            try:
                box["ends"] = sh.run()
            except Unsupported as ex:
                raise Undecided(str(ex))
            except (IndexError, ValueError, TypeError) as ex:
                raise Undecided("script syntax: %s" % ex)
            box["sh"] = sh
            bad = sorted(sh.found.get("stop", ()))
            if bad:
                raise Fail("; ".join(f"line {l}: {m}" for l, m in bad[:3]), f"{site}:{bad[0][0]}")
            hid = sorted({e.failed for e in box["ends"] if e.failed and e.status == ZERO})
            if hid:
                raise Fail(f"the script exits with status 0 after {hid[0]} has failed", site)
            unk = sorted({e.failed for e in box["ends"] if e.failed and e.status != NZ})
            if unk:
                raise Undecided(f"exit status after a failure of {unk[0]} is not known")
            if not any(e.status == ZERO and not e.failed for e in box["ends"]):
                raise Undecided("no successful run was found")
            ck.ok(name, "typestate of stage statuses over every path of the script", site,
                  f"{sh.count} abstract steps, stages: " + ", ".join(f"{v} (line {k})" for k, v in sorted(sh.stages.items())))
        ck.run(name, site, go)
        sh = box.get("sh")
        if sh is None:
            continue
        ck.bodies.add(site)
        ck.sites += len(sh.stages) + len(sh.removals)
        total += len(sh.stages)
        for what, title, n, rule in (("delete", f"{f}: pair files are removed only after their sorted copy was produced", len(sh.removals), "removals dominated by a successful sort of the same file"),
                                     ("order", f"{f}: sorting uses the byte order of whole lines", len(sh.sorts), "environment and flags of every sort")):
            bad = sorted(sh.found.get(what, ()))
            if bad:
                ck.bad(title, "; ".join(f"line {l}: {m}" for l, m in bad[:3]), f"{site}:{bad[0][0]}")
            elif sh.und:
                ck.und(title, "; ".join(f"line {l}: {m}" for l, m in sorted(sh.und.items())), site)
            elif n:
                ck.ok(title, rule, site, f"{n} sites")
