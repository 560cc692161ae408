"""Obligations: compare a summary computed from the source with its specification."""
import json
import os
import random
import signal
import time

from . import interp as IP
from . import terms as TM
from .interp import Interp, Unsupported
from .teval import Model, NoEval, value, SetVal, keyof
from .terms import FALSE, TRUE, I, T, mk, show, and_, or_, not_

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fail(Exception):
    """a definite structural violation"""

    def __init__(self, msg, site=""):
        Exception.__init__(self, msg)
        self.msg = msg
        self.site = site


class Undecided(Exception):
    pass


class Gone(Undecided):
    """a function an obligation starts from is not there (renamed, inlined): nothing is said about it"""


def _alarm(*a):
    raise Undecided("analysis budget of the obligation used up")


def close_enough(a, b):
    if isinstance(a, SetVal) or isinstance(b, SetVal):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return sorted(map(keyof, a)) == sorted(map(keyof, b))
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
        except TypeError:
            return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close_enough(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close_enough(a[k], b[k]) for k in a)
    return a == b


def literals(*ts):
    out = set()
    st = list(ts)
    seen = set()
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            for z in y:
                if isinstance(z, int) and not isinstance(z, bool):
                    out.add(abs(z))
                else:
                    st.append(z)
            continue
        if not isinstance(y, T) or y in seen:
            continue
        seen.add(y)
        if y.op == "int" and isinstance(y.a[0], int):
            out.add(abs(y.a[0]))
            continue
        if y.op == "str":
            continue
        st.extend(y.a)
    r = Lits(x for x in out if x <= 300)
    r.big = {x for x in out if x > 300}
    return r


class Lits(set):
    big = frozenset()


class Check:
    """collects the obligations of one property"""

    def __init__(self, pid, dump, tier, seed):
        self.pid = pid
        self.dump = dump
        self.tier = tier
        self.seed = seed
        self.obs = []          # dict(name, status, how, site, detail)
        self.bodies = set()
        self.sites = 0
        self.loops = 0
        self.valuations = 0
        self.septime = 0
        self.t0 = time.time()
        self.assumptions = []
        self.extra = {}
        self._depth = 0

    # ---------------------------------------------------------------- anchors
    def ip(self, **kw):
        ip = Interp(self.dump, **kw)
        self._ips = getattr(self, "_ips", [])
        self._ips.append(ip)
        return ip

    def key(self, name, implfor=None, module=None, trait=None):
        """unique body by function name (and self type); missing anchors fail closed"""
        c = []
        for b in self.dump["bodies"]:
            if b.get("name") != name or b.get("closure"):
                continue
            if trait is not None and not str(b.get("trait") or "").endswith(trait):
                continue
            if implfor is not None and not base_ty(b.get("implfor")).endswith("::" + implfor) and base_ty(b.get("implfor")) != implfor:
                continue
            if implfor is None and b.get("implfor"):
                continue
            if module is not None and not ("::" + module + "::") in b["key"]:
                continue
            c.append(b["key"])
        if len(c) > 1:
            c2 = [k for k in c if "::tests::" not in k]
            if len(c2) == 1:
                c = c2
        if len(c) != 1:
            # same name anywhere (a moved function)
            c = [b["key"] for b in self.dump["bodies"] if b.get("name") == name and "::tests::" not in b["key"] and (trait is None or str(b.get("trait") or "").endswith(trait)) and (implfor is None or base_ty(b.get("implfor")).split("::")[-1] == implfor.split("::")[-1])]
        if len(c) != 1:
            raise Gone("anchor: function %s%s: %d candidates" % ((implfor + "::") if implfor else "", name, len(c)))
        return c[0]

    def find(self, *a, **kw):
        """as key, None when there is no such function"""
        try:
            return self.key(*a, **kw)
        except Gone:
            return None

    # ---------------------------------------------------------------- results
    def _add(self, name, status, how, site="", detail=""):
        self.obs.append(dict(name=name, status=status, how=how, site=site, detail=detail))

    def ok(self, name, how, site="", detail=""):
        self._add(name, "discharged", how, site, detail)

    def bad(self, name, how, site="", detail=""):
        self._add(name, "violated", how, site, detail)

    def und(self, name, how, site="", detail=""):
        self._add(name, "undecided", how, site, detail)

    def run(self, name, site, f):
        """f() -> None; exceptions classify the obligation"""
        quick = self.tier == "quick"
        left = (600 if quick else 6000) - (time.time() - self.t0)
        if left < 2:
            self.und(name, "analysis budget of the run used up", site)
            return
        outer = self._depth
        self._depth += 1
        try:
            if not outer:
                TM.restart_fresh()
                signal.signal(signal.SIGALRM, _alarm)
                signal.setitimer(signal.ITIMER_REAL, min(left, 180 if quick else 1800))
            try:
                f()
            finally:
                self._depth = outer
                if not outer:
                    signal.setitimer(signal.ITIMER_REAL, 0)
        except Fail as ex:
            self.bad(name, ex.msg, ex.site or site)
        except Unsupported as ex:
            self.und(name, "construct outside the analysed fragment: %s" % ex, site)
        except Undecided as ex:
            self.und(name, str(ex), site)
        except NoEval as ex:
            self.und(name, "term without valuation: %s" % ex, site)
        except RecursionError:
            self.und(name, "term too deep", site)
        except Exception as ex:
            import traceback
            self.und(name, "internal: %s: %s" % (type(ex).__name__, ex), site, traceback.format_exc())

    def same(self, name, site, got, spec, models=None, how="normal form equals specification"):
        """got/spec: terms or thunks; models: callable(literals) -> iterable of Model"""
        def f():
            g = got() if callable(got) else got
            s = spec() if callable(spec) else spec
            self.compare(name, site, g, s, models, how)
        self.run(name, site, f)

    def compare(self, name, site, g, s, models, how="normal form equals specification"):
        if g is s:
            self.ok(name, how, site, show(g)[:400])
            return True
        w, k = self.separate(g, s, models)
        if w is not None:
            self.bad(name, "value computed by the code differs from the specification", site,
                     "code: %s\nspecification: %s\nseparating valuation: %s\ncode gives %s, specification %s" % (show(g)[:3000], show(s)[:3000], w[0], str(w[1])[:500], str(w[2])[:500]))
            return False
        self.und(name, "normal forms differ, no separating valuation among %d" % k, site, "code: %s\nspec: %s" % (show(g)[:2000], show(s)[:2000]))
        return None

    def certified_rel(self, name, site, g, pred, models, lemma="", cid=None):
        """as certified, with a relational specification: pred(model, value) -> None or what is wrong"""
        def f():
            x = g() if callable(g) else g
            txt = show(x)[:3000]
            c = cid or self.pid + "/" + name
            if x.key in [z["key"] for z in certs().get(c, [])]:
                self.ok(name, "normal form equals the reviewed form (rules/certified.json)" + (": " + lemma if lemma else ""), site, txt[:600])
                return
            k = 0
            t0 = time.time()
            for m in models(literals(x)):
                if time.time() - t0 > (40 if self.tier == "quick" else 300):
                    break
                try:
                    v = value(m, x)
                except NoEval as ex:
                    if k == 0:
                        raise
                    continue
                k += 1
                self.valuations += 1
                w = "no value (panic or failed access)" if v[0] == "bottom" else pred(m, v[1])
                if w:
                    self.bad(name, "value computed by the code does not satisfy the specification", site, "code: %s\nseparating valuation: %s\n%s" % (show(x)[:3000], m.describe()[:1500], w))
                    return
            if os.environ.get("QSA_CERTIFY"):
                save_cert(c, x.key, txt)
                self.ok(name, "certified after %d valuations" % k, site, txt[:400])
                return
            self.und(name, "not the reviewed form, no separating valuation among %d" % k, site, "code: %s" % show(x)[:2000])
        self.run(name, site, f)

    def certified(self, name, site, g, spec, models, lemma="", cid=None):
        """g is a recurrence no closed form is known for: its normal form is compared with the reviewed one in
        rules/certified.json; a different normal form is separated from the specification by valuations or undecided"""
        def f():
            x = g() if callable(g) else g
            txt = show(x)[:3000]
            c = cid or self.pid + "/" + name
            known_ = [z["key"] for z in certs().get(c, [])]
            if os.environ.get("QSA_CERTIFY"):
                w, k = self.separate(x, spec() if callable(spec) else spec, models)
                if w is None:
                    save_cert(c, x.key, txt)
                    self.ok(name, "certified after %d valuations" % k, site, txt[:400])
                    return
            if x.key in known_:
                self.ok(name, "normal form of the recurrence equals the reviewed form (rules/certified.json)" + (": " + lemma if lemma else ""), site, txt[:600])
                return
            self.compare(name, site, x, spec() if callable(spec) else spec, models)
        self.run(name, site, f)

    def separate(self, g, s, models):
        k = 0
        if models is None:
            raise Undecided("normal forms differ (no valuation domain)\ncode: %s\nspec: %s" % (show(g)[:1500], show(s)[:1500]))
        lits = literals(g, s)
        noev = None
        t0 = time.time()
        budget = 40 if self.tier == "quick" else 300
        total = 300 if self.tier == "quick" else 3000
        for m in models(lits):
            now = time.time()
            if now - t0 > budget or self.septime + now - t0 > total:
                break
            try:
                a, b = value(m, g), value(m, s)
            except NoEval as ex:
                noev = ex
                if k == 0 and m.strict:
                    raise
                continue
            k += 1
            self.valuations += 1
            if a[0] == "bottom" and b[0] == "bottom":
                continue
            if b[0] == "bottom":
                continue          # the specification is silent there
            if a[0] == "bottom" or not close_enough(a[1], b[1]):
                self.septime += time.time() - t0
                return (m.describe(), a, b), k
        self.septime += time.time() - t0
        if k == 0:
            raise Undecided("normal forms differ and no valuation applies (%s)\ncode: %s\nspec: %s" % (noev, show(g)[:1500], show(s)[:1500]))
        return None, k

    def never(self, name, site, cond, models=None):
        """cond (a boolean term) must be false in every valuation"""
        self.same(name, site, cond, FALSE, models, how="condition is unsatisfiable (normal form false)")

    def no_panic(self, name, site, ip, models=None, allow=None):
        """panics recorded by the run must be unreachable"""
        def f():
            cs = []
            for what, pc, fn, sp in ip.panics:
                if allow and allow(what, fn):
                    continue
                cs.append(and_(*pc))
            self.compare(name, site, or_(*cs), FALSE, models, "no reachable panic")
        self.run(name, site, f)

    def support(self, f):
        """f: registers obligations about helpers; evaluated only if some obligation stays undecided.

        An undecided composite whose helper provably departs from its contract is reported at the helper."""
        self._support = getattr(self, "_support", [])
        self._support.append(f)

    def done(self):
        if any(o["status"] == "undecided" for o in self.obs):
            for f in getattr(self, "_support", []):
                try:
                    f()
                except Fail as ex:
                    self.und(ex.msg, "helper not found", ex.site)
        for ip in getattr(self, "_ips", []):
            self.bodies |= ip.used
            self.sites += ip.sites
            self.loops += ip.loops
        return self


CERT = os.path.join(VERIF, "rules", "certified.json")


def certs():
    if not os.path.exists(CERT):
        return {}
    with open(CERT) as f:
        return json.load(f)


def save_cert(cid, key, txt):
    c = certs()
    c[cid] = [{"key": key, "form": txt}]
    with open(CERT, "w") as f:
        json.dump(c, f, indent=1, sort_keys=True)


def base_ty(t):
    t = str(t or "")
    i = t.find("<")
    if i > 0:
        t = t[:i]
    return t.strip("& ")


class Mod(Model):
    strict = False

    def __init__(self, syms, apps=None):
        Model.__init__(self, syms, apps)

    def describe(self):
        s = []
        for k, v in self.syms.items():
            t = repr(v)
            s.append("%s=%s" % (k, t if len(t) < 200 else t[:200] + "…"))
        return ", ".join(s)


def mods(gen):
    """wrap a generator of symbol dictionaries"""
    def f(lits):
        for syms in gen(lits):
            if isinstance(syms, Mod):
                yield syms
            else:
                yield Mod(syms)
    return f


def lens(lits, small=6, big=True):
    out = list(range(1, small + 1))
    if big:
        for c in sorted(lits):
            for d in (c - 1, c, c + 1):
                if small < d <= 300:
                    out.append(d)
        out += [127, 128, 129, 130]
    return sorted(set(out))


def pm(rng, n):
    return [rng.choice((-1, 1)) for _ in range(n)]


def all_pm(n):
    for k in range(1 << n):
        yield [1 if (k >> i) & 1 else -1 for i in range(n)]
