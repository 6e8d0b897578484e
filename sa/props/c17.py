"""Abstract interpretation of the shaped interfaces from a connection built through the
public interface, for every configuration, with the session used through its contract:
every path of read, write and the background worker is followed. A successful write has
written the caller's payload itself once, everything else written is a decoy; all
packets go through the one session writer, which lives behind one lock (or in one
task); a write once begun is never abandoned, and an answer of success follows the
write it answers for."""
from traffic import *


class Worker:
    """state per turn of the writer task: what became of the command at hand"""
    on = False
    payload = tx = None

    def __call__(self, st, ev):
        if not self.on:
            return
        a = ev.a
        if ev.op == "recv" and a["some"]:
            st.mon = ("got",)
        elif ev.op == "p_write":
            if a["payload"] is self.payload:
                a["twice"] = st.mon != ("got",)
                st.mon = ("written" if a["ok"] else "failed",)
        elif ev.op == "chan_send" and a["tx"] is self.tx:
            a["stage"] = st.mon[0] if st.mon else "idle"


def holding(ev):
    """locks held at each event of a straight path"""
    held, out = [], []
    for e in ev:
        if e.op == "lock" and (e.a["ok"] or e.a["poisoned"]):
            held.append(e.a["loc"])
        elif e.op == "unlock" and e.a["loc"] in held:
            held.remove(e.a["loc"])
        out.append(tuple(held))
    return out


def packets(c, W, nm, q, ev, who, own):
    """rules for everything a path writes"""
    hs = holding(ev)
    for e, held in zip(ev, hs):
        if e.op in RAW:
            c.ob("packets pass through the session only", nm, False, f"{e.where}: {e.op}")
        if e.op == "pending" and e.a.get("io") in ("p_write", "p_read"):
            c.ob("an operation begun is not abandoned", nm, not e.a["among"], f"{e.where}: {e.a['io']} is one of several alternatives")
        if e.op == "abandoned":
            c.ob("an operation begun is not abandoned", nm, False, f"{e.where}: {e.a['io']} is dropped unfinished")
        if e.op == "unknown":
            c.ob("analysis must succeed", nm, False, f"{e.where}: {e.a['fn']}")
        if e.op != "p_write":
            continue
        c.ob("one session writer", nm, e.a["who"] in who, f"{e.where}: writes through {e.a['who']}")
        if W.mod == "io":
            c.ob("each packet is written under the lock of the writer", nm, any(h[0] == e.a["loc"][0] for h in held), f"{e.where}: lock not held")
        if e.a["payload"] is not own:
            c.ob("what is added is a decoy", nm, kind(e.a["payload"]) == "Decoy", f"{e.where}: writes {str(e.a['payload'])[:80]}")


def payload_arg(q, ev):
    """the caller's payload of a write path"""
    for e in ev:
        if e.op == "p_write" and e.a["payload"].op == "deref":
            return e.a["payload"]
    return None


def new(c, W):
    nm = f"{W.mod}::ShapedProtocol::new"
    for q in W.news:
        ev = q.trace()
        ns = [e for e in ev if e.op == "p_new"]
        for e in ns:
            a = e.a["args"]
            want = [("magic", 0), ("role", 1), ("reader", 4), ("writer", 5)]
            for w, i in want:
                t = valterm(a[i])
                c.ob("the session is set up with what the caller gave", f"{nm} {w}", t.op == "arg" and w in t.args, f"{e.where}: {w} is {str(t)[:80]}")
        if q.kind == "ret":
            c.ob("one session per connection", nm, len(ns) == 1, f"{where(q)}: {len(ns)} handshakes")
    c.floor(f"connections of {nm}", len(W.oks), 1)


def reads(c, W, p, r, whole):
    out = T("preader", whole)
    for name, v in (("ShapedProtocolReader::read", r), ("ShapedProtocol::read", p.ret[3][0])):
        n = 0
        for q, ev in W.then(p, name, v):
            nm = f"{W.mod}::{name}"
            packets(c, W, nm, q, ev, (), None)
            rd = [e for e in ev if e.op == "p_read"]
            c.ob("reading sends nothing", nm, not any(e.op == "p_write" for e in ev), where(q))
            for e in rd:
                c.ob("one session reader", nm, e.a["who"] in (out, whole), f"{e.where}: reads {e.a['who']}")
            if q.kind != "ret":
                continue
            c.ob("one read of the session per read", nm, len(rd) == 1, f"{where(q)}: {len(rd)} reads")
            if len(rd) != 1:
                continue
            n += 1
            if rd[0].a["ok"]:
                ok = res(q.ret) == "ok" and valterm(q.ret[3][0]) is rd[0].a["out"]
                c.ob("reading delivers what the session delivers", nm, ok, f"{where(q)}: returns {str(q.ret)[:100]}")
            else:
                c.ob("reading delivers what the session delivers", nm, res(q.ret) == "err" and valterm(q.ret[3][0]) is valterm(rd[0].a["err"]), f"{where(q)}: returns {str(q.ret)[:100]}")
        c.floor(f"paths of {W.mod}::{name}", n, 2)


def writes(c, W, p, w, whole):
    who = (T("pwriter", whole), whole)
    for name, v in (("ShapedProtocolWriter::write", w), ("ShapedProtocol::write", p.ret[3][0])):
        n = 0
        nm = f"{W.mod}::{name}"
        for q, ev in W.then(p, name, v):
            ws = [e for e in ev if e.op == "p_write"]
            own = [e for e in ws if e.a["payload"].op == "deref" and "payload" in e.a["payload"].args[0].args]
            packets(c, W, nm, q, ev, who, own[0].a["payload"] if own else None)
            c.ob("a payload is written at most once", nm, len(own) <= 1, f"{where(q)}: {len(own)} times")
            if q.kind != "ret" or W.mod == "futures":
                continue
            n += 1
            if res(q.ret) != "err":
                c.ob("a successful write has written the payload", nm, len(own) == 1 and own[0].a["ok"], f"{where(q)}: payload written {len(own)} times")
        if W.mod == "futures":
            n += answers(c, W, nm, p, name, v)
        c.floor(f"paths of {nm}", n, 2)


def answers(c, W, nm, p, name, v):
    n = 0
    for q, ev in W.then(p, name, v):
        sent = [e for e in ev if e.op == "chan_send"]
        c.ob("a payload is handed over at most once", nm, len(sent) <= 1, f"{where(q)}: {len(sent)} commands")
        c.ob("only the task writes", nm, not any(e.op in ("p_write", "spawn") for e in ev), where(q))
        for e in sent:
            ts = leaves(e.a["val"])
            own = [t for t in ts if t.op == "deref" and "payload" in t.args[0].args]
            c.ob("the command carries the payload", nm, len(own) == 1, f"{e.where}: {[str(t)[:50] for t in ts]}")
            c.ob("the command goes to the task", nm, any(t is e.a["tx"] for t in leaves(v)), f"{e.where}")
        if q.kind != "ret":
            continue
        n += 1
        if res(q.ret) == "err":
            continue
        got = [e for e in ev if e.op == "answer" and e.a["ok"]]
        tx = [t for e in sent if e.a["ok"] for t in leaves(e.a["val"]) if t.op == "tx"]
        fine = len(got) == 1 and len(sent) == 1 and any(T("rx", t.args[0]) is got[0].a["key"] for t in tx)
        if fine:
            a = got[0].a["val"]
            fine = valterm(q.ret) is valterm(a) or q.st.variant(a) == 0
        c.ob("success is the task's answer", nm, fine, f"{where(q)}: returns {str(q.ret)[:80]}")
    return n


def work(c, W, p, w, whole, mon):
    sp = W.workers(p)
    nm = f"{W.mod} worker"
    c.ob("one background worker per connection", nm, len(sp) == 1, f"{len(sp)} spawned")
    for s in sp:
        own = None
        if W.mod == "futures":
            cmd, ps, tx = W.command(p, w)
            if not c.ob("the command carries the payload", nm, len(ps) == 1 and len(tx) == 1, str(cmd)[:100]):
                return
            own = mon.payload = ps[0]
            mon.tx = tx[0]
            W.E.opts["recv"] = cmd
            ts = reach(W.E, p.st, s.a["body"])
            c.ob("the task owns the writer", nm, T("pwriter", whole) in ts, f"{s.where}")
        mon.on = True
        n = k = 0
        for q, ev in W.work(p, s):
            packets(c, W, nm, q, ev, (T("pwriter", whole), whole), own)
            for e in ev:
                if e.op == "p_write" and e.a["payload"] is own:
                    k += 1
                    c.ob("a payload is written at most once", nm, not e.a["twice"], f"{e.where}")
                if e.op == "chan_send" and e.a["tx"] is mon.tx:
                    n += 1
                    r = e.a["val"]
                    ok = res(r) == "err" or res(r) == "ok" and e.a["stage"] == "written"
                    c.ob("an answer of success follows the write", nm, ok, f"{e.where}: answers {str(r)[:60]} when the payload is {e.a['stage']}")
            if q.kind == "panic":
                c.ob("the worker does not panic", nm, environment(q), f"{where(q)}: {q.why}")
        mon.on = False
        if W.mod == "futures":
            c.floor(f"{nm}: answers", n, 1)
            c.floor(f"{nm}: payload writes", k, 1)


def clone(c):
    """a cloned payload has the contents and the type of the original"""
    for feat in ("std", "tokio"):
        ks = [f["key"] for f in c.crate(feat).d["fns"] if f["name"] == "bip324::<Payload as Clone>::clone"]
        if not ks:
            c.ob("a cloned payload is equal", feat, False, "Payload is not Clone")
            continue
        E = c.run(feat, ks[0])
        n = 0
        for p in E.paths:
            src = {1: E.mkval(T("arg", 1, "self"), next(f for f in E.crate.d["fns"] if f["key"] == ks[0])["ins"][0])}
            for nm in ("Payload::contents", "Payload::packet_type"):
                k = c.fn(feat, nm)
                for a in c.then(E, p, k, {1: ref(p.ret)}):
                    for b in c.then(E, a, k, src):
                        if a.kind != "ret" or b.kind != "ret":
                            continue
                        n += 1
                        x, y = a.ret, b.ret
                        if nm.endswith("contents"):
                            x, y = (mo.segs_of(E, b.st, v) for v in (x, y))
                            ok = same(E, b.st, x, y)
                        else:
                            ok = b.st.variant(x) is not None and b.st.variant(x) == b.st.variant(y) or valterm(x) is valterm(y)
                        c.ob("a cloned payload is equal", f"{nm} [{feat}]", ok, f"{str(x)[:80]} / {str(y)[:80]}")
        c.floor(f"clones compared [{feat}]", n, 2)


def check(c):
    for mod in ("io", "futures"):
        for cfg in CONFIGS:
            def one():
                mon = Worker()
                W = World(c, mod, cfg, [mon], "c17")
                if cfg in ("off", "both"):
                    new(c, W)
                p = W.one()
                whole = next(e for e in p.trace() if e.op == "p_new").a["out"]
                s, r, w = W.split(p)
                if cfg in ("off", "both"):
                    reads(c, W, p, r, whole)
                writes(c, W, p, w, whole)
                work(c, W, p, w, whole, mon)
            c.guard(f"{mod} with {cfg}", one)
    c.guard("clone", clone, c)
