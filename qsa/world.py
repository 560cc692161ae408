"""What a list of effect events leaves in the file system."""
from .terms import T, mk
from . import terms as TM


class WorldError(Exception):
    pass


def norm(p):
    if p.startswith("./"):
        p = p[2:]
    out = []
    for x in p.split("/"):
        if x in ("", ".") and out:
            continue
        out.append(x)
    return "/".join(out)


def _event(ev):
    if not isinstance(ev, tuple) or not ev or ev[0] != "ev" and ev[0] not in ("create", "append", "write", "mkdir", "print"):
        raise WorldError("event %r" % (ev,))
    return ev[1:] if ev[0] == "ev" else ev


def outputs(events):
    """path -> content of the files a list of evaluated events writes"""
    files = {}
    for ev in events:
        ev = _event(ev)
        if ev[0] == "create":
            files[norm(ev[1])] = ""
        elif ev[0] == "append":
            files.setdefault(norm(ev[1]), "")
        elif ev[0] == "write":
            p = norm(ev[1][1])
            if p not in files:
                raise WorldError("write to %s before it is opened" % p)
            files[p] += ev[2]
    return files


def mkdirs(events):
    return [norm(_event(ev)[1]) for ev in events if _event(ev)[0] == "mkdir"]


def printed(events):
    return "".join(_event(ev)[1] for ev in events if _event(ev)[0] == "print")


def merged(fx):
    """the effect term with the writes to one file joined into one (as far as events follow each other statically)"""
    if fx.op != "vec":
        return fx
    out = []
    for e in fx.a:
        if e.op == "ev" and e.a[0] == "write":
            for j in range(len(out) - 1, -1, -1):
                o = out[j]
                if o.op != "ev" or o.a[0] not in ("create", "append", "write", "mkdir") or o.a[0] in ("create", "append") and o.a[1] is e.a[1].a[0]:
                    break
                if o.a[0] == "write" and o.a[1] is e.a[1]:
                    out[j] = mk("ev", "write", e.a[1], TM.scat(o.a[2], e.a[2]))
                    break
            else:
                out.append(e)
                continue
            if out[j].op == "ev" and out[j].a[0] == "write" and out[j].a[1] is e.a[1]:
                continue
        out.append(e)
    return mk("vec", *out)


def partial(t):
    """some flushed-buffer part remains in the term"""
    st, seen = [t], set()
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, T) or y in seen:
            continue
        seen.add(y)
        if y.op in ("sbut", "srest"):
            return True
        if y.op == "str":
            continue
        st.extend(y.a)
    return False


def summary(ck, key, args, assume, env=None, **kw):
    """(term of (effects, result), interpreter): buffered writes in closed form if possible, else loop by loop"""
    from .models import FX
    for noflush in (False, True):
        ip = ck.ip(**kw)
        ip.noflush = noflush
        v, st = ip.run(key, args, assume=assume, env=dict(env or {}))
        t = mk("tuple", merged(st.env.get(FX, mk("vec"))), v)
        if not partial(t):
            break
    return t, ip
