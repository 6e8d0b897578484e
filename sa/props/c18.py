"""Typestate of the background workers, followed by abstract interpretation over every
path from an established connection. Threaded: dropping the writer raises the flag the
worker tests and then joins it, holding no lock; the worker never waits for a lock and
between two tests of the flag sleeps at most once and writes at most once; once it has
seen the flag it ends. Asynchronous: the only sender of the command channel is in the
writer half, and the task ends when the channel is closed and never waits for anything
else for long without looking at it."""
from traffic import *

MAXSLEEP = 1000


# ------------------------------------------------------------------ threaded
START = ("start", 0, 0, 0, False, 0)


class Flag:
    """state of the worker: (what is known, sleeps, writes, lock attempts, skipped)
    since the flag was last tested, and lock attempts since the last sleep"""
    CAP = 3

    def __init__(self):
        self.loc = None
        self.terms = set()

    def decided(self, st, t, v):
        if self.loc is not None and t in self.terms:
            st.mon = ("stop" if v else "go", 0, 0, 0, False, (st.mon or START)[5])

    def __call__(self, st, ev):
        if self.loc is None:
            return
        a = ev.a
        k, s, w, l, skip, z = st.mon or START
        if ev.op == "atomic" and a["loc"] == self.loc:
            a["after"] = k
            if a["opn"] == "load":
                # the counts go on until the outcome is known
                v = a["val"]
                if isinstance(v, tuple) and v[0] == "?" and v[1][0] == "b":
                    self.terms.add(v[1][1])
            return
        elif ev.op == "sleep":
            s += 1
            z = 0
        elif ev.op == "p_write":
            w += 1
        elif ev.op == "lock":
            l += 1
            z += 1
            skip = not a["ok"] and not a["poisoned"]
        else:
            return
        st.mon = (k, min(s, self.CAP), min(w, self.CAP), min(l, self.CAP), skip, min(z, self.CAP))
        a["since"] = st.mon


def millis(t):
    """a constant number of milliseconds, or None"""
    f = {"time_from_millis": 1, "time_from_secs": 1000}
    if t.op in f and isinstance(t.args[0], Term) and t.args[0].op == "int":
        v = t.args[0].args[0]
        return v.c * f[t.op] if not v.t else None
    if t.op == "time_from_micros" and isinstance(t.args[0], Term) and t.args[0].op == "int":
        v = t.args[0].args[0]
        return v.c // 1000 if not v.t else None
    return None


def drops(c, E, p, v):
    """paths of dropping a value: its own drop code, then that of its parts"""
    todo = [(p, [v])]
    done = []
    ds = drop_impls(c, E)
    while todo:
        q, vs = todo.pop()
        while vs:
            x = vs.pop(0)
            if not isinstance(x, tuple) or x[0] != "A":
                continue
            t = E.ty(x[1]) if x[1] is not None else None
            k = ds.get(t["path"]) if t is not None and t["k"] == "adt" else None
            if k is None:
                vs = list(x[3]) + vs
                continue
            for r in c.then(E, q, k, {1: ref(x)}):
                after = r.st.mem.get(("kv", x))
                todo.append((r, list((after or x)[3]) + vs) if r.kind == "ret" else (r, []))
            break
        else:
            done.append(q)
    return done


def drop_impls(c, E):
    out = {}
    for i in E.crate.d["impls"]:
        if i["trait"] and i["trait"].endswith("ops::drop::Drop"):
            t = E.ty(i["self"])
            for f in E.crate.d["fns"]:
                if f["name"].endswith(" as Drop>::drop") and f["selfty"] == i["self"] or f["name"] == f"{CR}::<{t['name'].split('::')[-1]} as Drop>::drop":
                    out[t["path"]] = f["key"]
    return out


def dropping(c, W, what, p, v, handles, nm):
    """the drop of the writer raises a flag, then joins the worker; returns the flags"""
    n0 = len(p.trace())
    flags = None
    n = 0
    for q in drops(c, W.E, p, v):
        ev = q.trace()[n0:]
        for e in ev:
            if e.op == "unknown":
                c.ob("analysis must succeed", nm, False, f"{e.where}: {e.a['fn']}")
        if q.kind == "panic":
            c.ob("dropping does not panic", nm, environment(q), f"{where(q)}: {q.why}")
            continue
        if q.kind != "ret":
            continue
        n += 1
        held, stored, joined, mine = [], set(), False, set()
        for e in ev:
            if e.op == "lock":
                c.ob("no lock is waited for twice", nm, e.a["loc"] not in held, e.where)
                if e.a["ok"] or e.a["poisoned"]:
                    held.append(e.a["loc"])
            elif e.op == "unlock" and e.a["loc"] in held:
                held.remove(e.a["loc"])
            elif e.op == "atomic" and e.a["opn"] in ("store", "swap", "fetch_or") and e.a["val"] is True:
                stored.add(e.a["loc"])
            elif e.op == "join":
                c.ob("no lock is held while waiting for the worker", nm, not held, f"{e.where}: {held}")
                c.ob("nothing else is waited for", nm, e.a["h"] in handles, f"{e.where}: joins {e.a['h']}")
                joined = True
                mine = set(stored)
        c.ob("the worker is waited for", nm, joined, f"{where(q)}: no join")
        if joined:
            flags = mine if flags is None else flags & mine
    c.floor(f"paths of {nm}", n, 1)
    return flags or set()


def threaded(c, cfg):
    f = Flag()
    W = World(c, "io", cfg, [f], "c18")
    if f.decided not in W.E.on_bool:
        W.E.on_bool.append(f.decided)
    for q in W.news:
        nm = "io::ShapedProtocol::new"
        sp = [e for e in q.trace() if e.op == "spawn"]
        if q.kind == "ret":
            c.ob("a worker only for an established connection", nm, len(sp) == (1 if res(q.ret) == "ok" else 0), f"{where(q)}: {len(sp)} workers")
    p = W.one()
    s, r, w = W.split(p)
    handles = [e.a["out"] for e in W.workers(p)]
    flags = None
    for nm, v, at in (("drop of the io writer", w, s), ("drop of the io connection", p.ret[3][0], p)):
        x = dropping(c, W, nm, at, v, handles, nm)
        flags = x if flags is None else flags & x
    stays(c, W, "io writer", s, w, flags)
    for sp in W.workers(p):
        # the flag the worker tests
        tested = {e.a["loc"] for q, ev in W.work(p, sp) for e in ev if e.op == "atomic" and e.a["opn"] == "load"} & flags
        if not c.ob("the flag raised when dropping is the one the worker tests", "io worker", len(tested) == 1, f"raised {len(flags)}, tested {len(tested)}"):
            continue
        f.loc = tested.pop()
        f.terms.clear()
        worker(c, W, p, sp, f)
        f.loc = None


def stays(c, W, nm, s, w, flags):
    """ordinary use never lowers nor raises the flag, and never waits twice for the lock"""
    for q, ev in W.then(s, "ShapedProtocolWriter::write", w):
        held = []
        for e in ev:
            if e.op == "atomic" and e.a["loc"] in flags:
                c.ob("the flag is raised only by dropping", nm, e.a["opn"] == "load", f"{e.where}: {e.a['opn']}")
            if e.op == "lock":
                c.ob("no lock is waited for twice", nm, e.a["loc"] not in held or e.a["tryl"], e.where)
                if e.a["ok"] or e.a["poisoned"]:
                    held.append(e.a["loc"])
            if e.op == "unlock" and e.a["loc"] in held:
                held.remove(e.a["loc"])
            if e.op in ("join", "sleep"):
                c.ob("writing waits for nothing but the lock and the connection", nm, False, f"{e.where}: {e.op}")
        if q.kind == "ret":
            c.ob("the lock is given back", nm, not held, f"{where(q)}: {held}")


def worker(c, W, p, sp, f):
    nm = "io worker"
    n = {"load": 0, "ret": 0}
    for q, ev in W.work(p, sp):
        # a poisoned lock delays nobody: the writer gives up as soon as it gets it
        held, poisoned = [], []
        for e in ev:
            a = e.a
            if e.op == "unknown":
                c.ob("analysis must succeed", nm, False, f"{e.where}: {a['fn']}")
            elif e.op in ("recv", "join", "chan_send", "yield", "spawn"):
                c.ob("the worker waits for nothing else", nm, False, f"{e.where}: {e.op}")
            elif e.op == "atomic" and a["loc"] == f.loc:
                c.ob("the flag is raised only by dropping", nm, a["opn"] == "load", f"{e.where}: {a['opn']}")
                c.ob("a worker told to stop ends", nm, a["after"] != "stop", f"{e.where}: tests again")
                n["load"] += 1
            elif e.op == "sleep":
                m = millis(a["dur"])
                c.ob("the worker sleeps a fixed short interval", nm, m is not None and m <= MAXSLEEP, f"{e.where}: {str(a['dur'])[:80]}")
                c.ob("no lock is held while sleeping", nm, not held, e.where)
            elif e.op == "lock":
                c.ob("the worker never waits for a lock", nm, a["tryl"], e.where)
                if a["ok"] or a["poisoned"]:
                    (held if a["ok"] else poisoned).append(a["loc"])
            elif e.op == "unlock" and a["loc"] in held + poisoned:
                (held if a["loc"] in held else poisoned).remove(a["loc"])
            if "since" in a:
                k, s, w, l, skip, z = a["since"]
                c.ob("a worker that cannot get the writer waits for its next turn", nm, z <= 1, f"{e.where}: tries again at once")
                c.ob("a worker told to stop ends", nm, k != "stop", f"{e.where}: {e.op}")
                c.ob("at most one interval and one write between tests of the flag", nm, s <= 1 and w <= 1 and l <= 1, f"{e.where}: {s} intervals, {w} writes, {l} attempts")
        k, s, w, l, skip, z = q.st.mon or START
        if q.kind == "loop":
            c.ob("a worker told to stop ends", nm, k != "stop", f"{where(q)}: goes on")
        elif q.kind == "panic":
            c.ob("the worker does not panic", nm, environment(q), f"{where(q)}: {q.why}")
        else:
            n["ret"] += 1
            c.ob("a turn that cannot get the writer is skipped", nm, not skip, f"{where(q)}: ends because the lock is taken")
            c.ob("the lock is given back", nm, not held and not poisoned, f"{where(q)}")
    c.floor(f"tests of the flag by the {nm}", n["load"], 1)
    c.floor(f"ends of the {nm}", n["ret"], 1)


# -------------------------------------------------------------- asynchronous
class Closed:
    """state of the task: (channel seen closed?, writes, waits without looking at it)"""
    CAP = 3

    def __init__(self):
        self.on = False

    def __call__(self, st, ev):
        if not self.on:
            return
        a = ev.a
        k, w, t = st.mon or ("open", 0, 0)
        if ev.op in ("recv", "tick", "p_write", "sleep", "yield") or ev.op == "pending":
            a["after"] = k
        if ev.op == "recv":
            k, w, t = ("open" if a["some"] else "closed"), 0, 0
        elif ev.op == "pending" and a["io"] == "recv":
            w = t = 0
        elif ev.op == "tick":
            w = 0
            t += not a["among"]
        elif ev.op == "p_write":
            w += 1
        else:
            return
        st.mon = (k, min(w, self.CAP), min(t, self.CAP))
        a["since"] = st.mon


def task(c, cfg):
    m = Closed()
    W = World(c, "futures", cfg, [m], "c18")
    nm = "futures::ShapedProtocol::new"
    for q in W.news:
        sp = [e for e in q.trace() if e.op == "spawn"]
        if q.kind == "ret":
            c.ob("a worker only for an established connection", nm, len(sp) == (1 if res(q.ret) == "ok" else 0), f"{where(q)}: {len(sp)} workers")
    p = W.one()
    s, r, w = W.split(p)
    cmd, own, answers = W.command(p, w)
    W.E.opts["recv"] = cmd
    nm = "futures worker"
    m.on = True
    ends = polls = 0
    keys, heads, looked, leads = set(), {}, set(), []
    for sp in W.workers(p):
        for q, ev in W.work(p, sp):
            open_heads = []
            for e in ev:
                a = e.a
                if e.op == "unknown":
                    c.ob("analysis must succeed", nm, False, f"{e.where}: {a['fn']}")
                elif e.op in ("sleep", "lock", "join"):
                    c.ob("the task never blocks its thread", nm, False, f"{e.where}: {e.op}")
                elif e.op == "recv":
                    keys.add(a["key"])
                elif e.op == "pending" and a["io"] not in ("recv", "tick", "p_write"):
                    c.ob("the task waits for commands, the clock and its writes only", nm, False, f"{e.where}: {a['io']}")
                if "after" in a:
                    c.ob("a task whose channel is closed ends", nm, a["after"] != "closed", f"{e.where}: {e.op}")
                if "since" in a:
                    k, n, t = a["since"]
                    c.ob("the channel is looked at between writes", nm, n <= 2 and t <= 1, f"{e.where}: {n} writes, {t} intervals")
                if e.op == "loop":
                    h = (e.where, a["head"])
                    heads[h] = e.where
                    open_heads.append(h)
                elif e.op == "recv" or e.op == "pending" and a["io"] == "recv":
                    polls += 1
                    looked |= set(open_heads)
            k = (q.st.mon or ("open",))[0]
            if q.kind == "loop":
                c.ob("a task whose channel is closed ends", nm, k != "closed", f"{where(q)}: goes on")
                leads.append((set(open_heads), (q.where, q.st.bb)))
            elif q.kind == "panic":
                c.ob("the worker does not panic", nm, environment(q), f"{where(q)}: {q.why}")
            else:
                ends += 1
                looked |= set(open_heads)
    m.on = False
    while any(to in looked and not frm <= looked for frm, to in leads):
        for frm, to in leads:
            if to in looked:
                looked |= frm
    for h in heads:
        c.ob("the channel is looked at from every loop", nm, h in looked, heads[h])
    c.floor(f"ends of the {nm}", ends, 1)
    c.floor(f"looks at the channel by the {nm}", polls, 2)
    for k in keys:
        tx = T("tx", k.args[0]) if isinstance(k, Term) and k.op == "rx" else None
        if not c.ob("the channel of commands is the one made for it", nm, tx is not None, str(k)[:80]):
            continue
        inside = reach(W.E, s.st, w)
        c.ob("the writer half holds a sender", nm, tx in inside, f"{[str(t)[:60] for t in inside]}")
        for what, v, st in [("the reader half", r, s.st)] + [("the task itself", sp.a["body"], p.st) for sp in W.workers(p)] + [("a command", cmd, s.st)]:
            c.ob("no sender outside the writer half", nm, tx not in reach(W.E, st, v), what)
    c.floor(f"channels of the {nm}", len(keys), 1)


def check(c):
    for cfg in CONFIGS:
        c.guard(f"io with {cfg}", threaded, c, cfg)
        c.guard(f"futures with {cfg}", task, c, cfg)
