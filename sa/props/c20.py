"""Abstract interpretation of the statistics and of everything that records them: the
counters are found from what the two recording functions add to, then every path of
connecting, reading, writing and the background worker is balanced against them:
what is added is what is read, written or generated."""
from traffic import *

ADD = ("fetch_add",)
RMW_OK = ("load",) + ADD


def method(c, feat, name):
    for f in c.crate(feat, CR).d["fns"]:
        if f["name"] == f"{CR}::<AtomicTrafficStats as TrafficStats>::{name}":
            return f["key"]
    raise Missing(f"AtomicTrafficStats::{name}")


def atomics(ev):
    return [e for e in ev if e.op == "atomic"]


def counters(c, feat):
    """the places of (bytes read, reads, bytes written, writes) inside the statistics"""
    out, times = [], set()
    for name in ("record_read", "record_write"):
        E = c.run(feat, method(c, feat, name), CR, tag="c20")
        nm = f"{name} [{feat}]"
        got = set()
        for p in E.paths:
            if p.kind != "ret":
                c.ob("recording does not panic", nm, p.kind == "loop" or environment(p), f"{where(p)}: {p.why}")
                continue
            adds = [e for e in atomics(p.trace()) if e.a["opn"] in ("fetch_add", "fetch_sub", "fetch_update")]
            b = [e for e in adds if e.a["opn"] == "fetch_add" and given(e.a["val"], 2)]
            m = [e for e in adds if e.a["opn"] == "fetch_add" and is_one(e.a["val"])]
            ok = len(adds) == 2 and len(b) == 1 and len(m) == 1
            c.ob("recording adds the bytes to one counter and one to another", nm, ok, f"{where(p)}: {[(e.a['opn'], str(e.a['val'])[:40]) for e in adds]}")
            if ok:
                got.add((b[0].a["loc"][1], m[0].a["loc"][1]))
        if not c.ob("the same counters every time", nm, len(got) == 1, f"{len(got)} sets of counters"):
            raise Missing("counters")
        out += list(got.pop())
        marks = {e.a["loc"][1] for p in E.paths if p.kind == "ret" for e in atomics(p.trace()) if e.a["opn"] != "load" and e.a["loc"][1] not in out and holds(e.a["val"], "now")}
        times |= marks
        c.ob("recording marks the time of the last activity", nm, bool(marks), "no path stores the current time")
        for p in E.paths:
            for e in atomics(p.trace()):
                if e.a["loc"][1] in out:
                    c.ob("counters are updated by single read-modify-write steps", nm, e.a["opn"] in ADD, f"{e.where}: {e.a['opn']}")
    c.ob("four different counters", feat, len(set(out)) == 4, str(out))
    E = c.run(feat, pub(c, feat, "AtomicTrafficStats::new"), CR, tag="c20")
    k = 0
    for p in E.paths:
        if p.kind == "ret":
            k += 1
            for x in out:
                v = p.ret
                for i in x:
                    v = v[3][i] if v[0] == "A" else v[2][i]
                c.ob("counting starts at zero", f"AtomicTrafficStats::new [{feat}]", v[0] == "X" and v[1] == "atomic" and v[2][0] == ZERO, str(v)[:80])
    c.floor(f"fresh statistics [{feat}]", k, 1)
    return out, times


def given(v, i):
    """the i-th argument itself"""
    return isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].term.op == "arg" and v.t[0][0].term.args[0] == i


def is_one(v):
    return isinstance(v, Lin) and not v.t and v.c == 1


def which(cs, ev):
    """index of the counter an event touches"""
    p = ev.a["loc"][1]
    for i, x in enumerate(cs):
        if p[-len(x):] == x:
            return i
    return None


def queries(c, feat, cs, times):
    E = c.run(feat, method(c, feat, "write_read_ratio"), CR, tag="c20")
    nm = f"write_read_ratio [{feat}]"
    n = {0: 0, 1: 0}
    for p in E.paths:
        if p.kind != "ret":
            c.ob("the ratio does not panic", nm, p.kind == "loop" or environment(p), f"{where(p)}: {p.why}")
            continue
        at = {}
        for e in atomics(p.trace()):
            c.ob("a query changes nothing", nm, e.a["opn"] == "load", f"{e.where}: {e.a['opn']}")
            at[valterm(e.a["val"])] = which(cs, e)
        if p.ret[0] != "A":
            c.ob("the ratio is known", nm, False, str(p.ret)[:100])
            continue
        n[p.ret[2]] += 1
        zero = [t for t, i in at.items() if i == 0 and p.st.decidec(("eq", t.args[0])) is True]
        if p.ret[2] == 0:
            c.ob("no ratio only before anything is read", nm, bool(zero), where(p))
            continue
        t = valterm(p.ret[3][0])
        ok = t.op == "fDiv" and all(isinstance(x, Term) and x.op == "cast" for x in t.args)
        if ok:
            w, r = (x.args[0] for x in t.args)
            ok = at.get(w) == 2 and at.get(r) == 0 and p.st.decidec(("eq", r.args[0])) is False
        c.ob("the ratio divides what is written by what is read, never by zero", nm, ok, f"{where(p)}: {str(t)[:120]}")
    c.floor(f"absent ratios [{feat}]", n[0], 1)
    c.floor(f"ratios [{feat}]", n[1], 1)
    E = c.run(feat, method(c, feat, "time_since_last_activity"), CR, tag="c20")
    nm = f"time_since_last_activity [{feat}]"
    k = 0
    for p in E.paths:
        for e in p.trace():
            if e.op == "atomic":
                c.ob("a query changes nothing", nm, e.a["opn"] == "load", f"{e.where}: {e.a['opn']}")
            if e.op == "unknown":
                c.ob("analysis must succeed", nm, False, f"{e.where}: {e.a['fn']}")
        if p.kind != "ret":
            c.ob("the idle time does not panic", nm, p.kind == "loop" or environment(p), f"{where(p)}: {p.why}")
            continue
        k += 1
        t = valterm(p.ret)
        if t.op == "time_from_millis" and isinstance(t.args[0], Term) and t.args[0].op == "int":
            v = lin(t.args[0].args[0])
            up = [y for y, x in v.t if x > 0]
            ok = p.st.entails(v) and not any(holds(y.term, "aload") for y in up)
        else:
            ok = t.op in ("time_saturating_sub", "const")
        c.ob("the idle time is counted from the last activity", nm, any(e.a["loc"][1][-len(x):] == x for e in atomics(p.trace()) for x in times), where(p))
        c.ob("the idle time never underflows", nm, ok, f"{where(p)}: {str(t)[:120]}")
    c.floor(f"idle times [{feat}]", k, 1)


def holds(t, op, d=0):
    """does the term mention something of this kind"""
    if isinstance(t, Term):
        return t.op == op or any(holds(x, op, d + 1) for x in t.args)
    if isinstance(t, Lin):
        return any(holds(y.term, op, d + 1) for y, _ in t.t)
    if isinstance(t, str):
        return t == op
    return isinstance(t, tuple) and any(holds(x, op, d + 1) for x in t)


LEN, CNT = ("gh", "bytes owed"), ("gh", "packets owed")


class Tally:
    """per turn of the worker: bytes and packets recorded less those written"""
    TURN = ("recv", "tick", "sleep", "lock")

    def __init__(self, cs):
        self.cs = cs
        self.on = False

    def __call__(self, st, ev):
        if not self.on:
            return
        a = ev.a
        if ev.op == "atomic" and a["opn"] == "fetch_add":
            i = which(self.cs, ev)
            if i == 2:
                st.mem[LEN] = st.mem.get(LEN, ZERO) + a["val"]
            elif i == 3:
                st.mem[CNT] = st.mem.get(CNT, ZERO) + a["val"]
        elif ev.op == "p_write":
            st.mem[LEN] = st.mem.get(LEN, ZERO) - plen(a["payload"])
            st.mem[CNT] = st.mem.get(CNT, ZERO) - 1
            if not a["ok"]:
                st.mon = ("failed",)
        elif ev.op in self.TURN:
            x = [st.mem.get(g, ZERO) for g in (LEN, CNT)]
            a["even"] = st.mon == ("failed",) or all(st.decidec(("eq", v)) is True for v in x)
            a["owed"] = [str(v)[:60] for v in x]
            st.mem[LEN] = st.mem[CNT] = ZERO
            st.mon = None


def match(st, xs, ys):
    """pair every x with its own equal y; the ys left over, None if some x has none"""
    ys = list(ys)
    for x in xs:
        for y in ys:
            if x is y or st.decidec(("eq", x - y)) is True:
                ys.remove(y)
                break
        else:
            return None
    return ys


def common(c, nm, cs, ev):
    """(additions per counter); the counters are only ever added to"""
    adds = [[], [], [], []]
    for e in ev:
        if e.op == "unknown":
            c.ob("analysis must succeed", nm, False, f"{e.where}: {e.a['fn']}")
        if e.op != "atomic":
            continue
        i = which(cs, e)
        if i is None:
            continue
        c.ob("counters are updated by single read-modify-write steps", nm, e.a["opn"] in RMW_OK, f"{e.where}: {e.a['opn']}")
        if e.a["opn"] == "fetch_add":
            adds[i].append(e.a["val"])
    for a, b, w in ((0, 1, "reads"), (2, 3, "writes")):
        c.ob("packets are counted with their bytes", f"{nm} {w}", len(adds[a]) == len(adds[b]) and all(is_one(x) for x in adds[b]), f"{len(adds[a])} lengths, {len(adds[b])} packets")
    return adds


def connect(c, W, cs):
    nm = f"{W.mod}::ShapedProtocol::new"
    E = W.E
    for q in W.news:
        if q.kind != "ret":
            c.ob("connecting does not panic", nm, q.kind == "loop" or environment(q), f"{where(q)}: {q.why}")
            continue
        ev = q.trace()
        adds = common(c, nm, cs, ev)
        made = []
        for e in ev:
            if e.op == "p_new":
                g, d = (option(q.st, e.a["args"][i]) for i in (2, 3))
                made += [seglen(mo.segs_of(E, q.st, g))] if g is not None else []
                made += [seglen(mo.segs_of(E, q.st, x)) for x in items(E, q.st, d) or ()] if d is not None else []
        left = match(q.st, adds[2], made)
        c.ob("handshake filler is recorded once, with its length", nm, not adds[0] and left is not None and (not left or res(q.ret) == "err"), f"{where(q)}: recorded {[str(x) for x in adds[2]]}, generated {[str(x) for x in made]}")


def reads(c, W, cs, v, name):
    nm = f"{W.mod}::{name}"
    n = 0
    for q, ev in v:
        if q.kind != "ret":
            c.ob("reading does not panic", nm, q.kind == "loop" or environment(q), f"{where(q)}: {q.why}")
            continue
        n += 1
        adds = common(c, nm, cs, ev)
        got = [plen(e.a["out"]) for e in ev if e.op == "p_read" and e.a["ok"]] if res(q.ret) == "ok" else []
        c.ob("a payload read is recorded once, a failed read never", nm, match(q.st, adds[0], got) == [] and not adds[2], f"{where(q)}: recorded {[str(x) for x in adds[0]]}, read {[str(x) for x in got]}")
    c.floor(f"reads of {nm}", n, 2)


def writes(c, W, cs, v, name):
    nm = f"{W.mod}::{name}"
    n = 0
    for q, ev in v:
        if q.kind != "ret":
            c.ob("writing does not panic", nm, q.kind == "loop" or environment(q), f"{where(q)}: {q.why}")
            continue
        n += 1
        adds = common(c, nm, cs, ev)
        c.ob("writing records no reads", nm, not adds[0], where(q))
        ws = [e for e in ev if e.op == "p_write"]
        done = [plen(e.a["payload"]) for e in ws if e.a["ok"]]
        left = match(q.st, done, adds[2])
        what = f"{where(q)}: recorded {[str(x) for x in adds[2]]}, written {[str(x) for x in done]}"
        if res(q.ret) == "ok":
            c.ob("each packet written is recorded once, with its length", nm, left == [], what)
            continue
        # one that failed, or that was not reached for that, may have been recorded
        tried = [plen(e.a["payload"]) for e in ws if not e.a["ok"]]
        own = [plen(T("deref", t)) for t in args(q, "payload")]
        if left is not None and not any(e.a["payload"] is T("deref", t) for e in ws for t in args(q, "payload")):
            tried += own
        c.ob("each packet written is recorded once, with its length", nm, left is not None and match(q.st, left, tried) is not None, what)
    c.floor(f"writes of {nm}", n, 2)


def args(q, name):
    """the argument of this name of the call that ended in the path"""
    out = set()
    for e in q.trace():
        if e.op == "p_write" or e.op == "atomic":
            out |= named(e.a.get("payload"), name) | named(e.a.get("val"), name)
    return out


def named(t, name):
    if isinstance(t, Term):
        if t.op == "arg" and name in t.args:
            return {t}
        return set().union(*[named(x, name) for x in t.args]) if t.args else set()
    if isinstance(t, Lin):
        return set().union(*[named(y.term, name) for y, _ in t.t]) if t.t else set()
    if isinstance(t, tuple):
        return set().union(*[named(x, name) for x in t]) if t else set()
    return set()


def work(c, W, cs, p, w, tally):
    nm = f"{W.mod} worker"
    if W.mod == "futures":
        cmd, own, tx = W.command(p, w)
        W.E.opts["recv"] = cmd
    tally.on = True
    n = 0
    for s in W.workers(p):
        for q, ev in W.work(p, s):
            if q.kind == "panic":
                c.ob("the worker does not panic", nm, environment(q), f"{where(q)}: {q.why}")
                continue
            for e in ev:
                if e.op == "unknown":
                    c.ob("analysis must succeed", nm, False, f"{e.where}: {e.a['fn']}")
                if e.op == "atomic" and which(cs, e) is not None:
                    c.ob("counters are updated by single read-modify-write steps", nm, e.a["opn"] in RMW_OK, f"{e.where}: {e.a['opn']}")
                    c.ob("the worker records no reads", nm, which(cs, e) > 1 or e.a["opn"] == "load", f"{e.where}")
                if "even" in e.a:
                    n += 1
                    c.ob("each packet written is recorded once, with its length", nm, e.a["even"], f"{e.where}: recorded less written {e.a['owed']}")
    tally.on = False
    c.floor(f"turns of the {nm}", n, 1)


def check(c):
    for mod in ("io", "futures"):
        cs, times = counters(c, FEAT[mod])
        c.guard(f"queries {mod}", queries, c, FEAT[mod], cs, times)
        for cfg in CONFIGS:
            def one():
                tally = Tally(cs)
                W = World(c, mod, cfg, [tally], "c20")
                connect(c, W, cs)
                p = W.one()
                s, r, w = W.split(p)
                whole = p.ret[3][0]
                for name, v, at in (("ShapedProtocolReader::read", r, s), ("ShapedProtocol::read", whole, p)):
                    reads(c, W, cs, W.then(at, name, v), name)
                for name, v, at in (("ShapedProtocolWriter::write", w, s), ("ShapedProtocol::write", whole, p)):
                    if mod == "io":
                        writes(c, W, cs, W.then(at, name, v), name)
                    else:
                        for q, ev in W.then(at, name, v):
                            adds = common(c, f"{mod}::{name}", cs, ev)
                            c.ob("only the task records what is written", f"{mod}::{name}", not any(adds), where(q))
                work(c, W, cs, p, w, tally)
            c.guard(f"{mod} with {cfg}", one)
