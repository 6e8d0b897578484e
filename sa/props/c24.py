"""Abstract interpretation with a failure automaton: a failing transport operation,
handshake step, packet operation or a premature end of stream puts the path into a
failed state. From there every path must leave the called operation with an error;
an input/output error must be that very error, and nothing more may be read,
written, sealed or opened first."""
from lib import *
from terms import Term

IO = ("read", "read_exact", "write_all", "write", "flush", "poll_read", "poll_write")
STEPS = ("hs_new", "send_key", "receive_key", "send_version", "dec_len", "open", "seal", "handshake", "aead_dec",
         "p_new", "p_read", "p_write")


def failed(st, ev):
    """(operation, error term or None) if this event is a failure"""
    a = ev.a
    if ev.op in IO:
        if a.get("ok") is False:
            return ev.op, a.get("err")
        if ev.op in ("read", "write") and a.get("ok") and st.eqz(a["n"]):
            if not st.eqz(a["cap"] if ev.op == "read" else seglen(a["segs"])):
                return "end of stream" if ev.op == "read" else "nothing accepted", None
        return None
    if ev.op in STEPS and a.get("ok") is False:
        return ev.op, a.get("err")
    if ev.op == "receive_garbage" and a.get("res") == "err":
        return ev.op, None
    if ev.op == "receive_version" and a.get("res") is None:
        return ev.op, None
    return None


def automaton(st, ev):
    if ev.op not in IO and ev.op not in STEPS and ev.op not in ("receive_garbage", "receive_version"):
        return
    if st.mon:
        ev.a["after"] = st.mon[0]
    f = failed(st, ev)
    if f:
        op, e = f
        st.mon = (op, valterm(e) if isinstance(e, tuple) else e, ev.where)


def inside(v, t):
    """does value v contain term t?"""
    if v is t:
        return True
    if isinstance(v, Term):
        return any(inside(a, t) for a in v.args)
    if isinstance(v, tuple):
        return any(inside(x, t) for x in v)
    return False


def rules(c, ps, name, least):
    n = 0
    for p in ps:
        for e in p.trace():
            if e.op in IO or e.op in STEPS:
                c.ob("nothing goes on after a failure", name, "after" not in e.a, f"{e.where}: {e.op} after failed {e.a.get('after')}")
        m = p.st.mon
        if not m or p.kind != "ret":
            continue
        n += 1
        op, e, w = m
        c.ob("a failure is reported as an error", name, res(p.ret) == "err", f"{w}: failed {op}, but {where(p)} returns {str(p.ret)[:80]}")
        if e is not None:
            c.ob("an input/output error reaches the caller unchanged", name, inside(p.ret, e), f"{w}: error of {op}; {where(p)} returns {str(p.ret)[:120]}")
    c.floor(f"failures of {name}", n, least)


class Turn:
    """the writer task: a failed write for a command ends that command's turn with that error"""
    on = False
    tx = own = None

    def __call__(self, st, ev):
        a = ev.a
        if not self.on:
            automaton(st, ev)
        elif ev.op == "recv":
            st.mon = ("command", None)
        elif ev.op == "tick":
            st.mon = ()
        elif ev.op == "p_write" and st.mon == ("answered",):
            a["late"] = not a["ok"] and any(a["payload"] is t for t in self.own or ())
        elif ev.op == "p_write" and st.mon:
            a["after"] = st.mon[1] is not None
            if not a["ok"]:
                st.mon = ("command", valterm(a["err"]))
        elif ev.op == "chan_send" and a["tx"] is self.tx:
            a["failed"] = st.mon[1] if st.mon and st.mon[0] == "command" else None
            st.mon = ("answered",)


def shaped(c, mod, cfg):
    import traffic as tr
    mon = Turn()
    W = tr.World(c, mod, cfg, [mon], "c24")
    rules(c, W.news, f"{mod}::ShapedProtocol::new", 1)
    p = W.one()
    s, r, w = W.split(p)
    for name, v in (("ShapedProtocolReader::read", r), ("ShapedProtocol::read", p.ret[3][0])):
        rules(c, [q for q, ev in W.then(p, name, v)], f"{mod}::{name}", 1)
    for name, v in (("ShapedProtocolWriter::write", w), ("ShapedProtocol::write", p.ret[3][0])):
        nm = f"{mod}::{name}"
        if mod == "io":
            rules(c, [q for q, ev in W.then(p, name, v)], nm, 1)
        else:
            task(c, [(q, ev) for q, ev in W.then(p, name, v)], nm)
    if mod == "futures":
        cmd, mon.own, tx = W.command(p, w)
        if len(tx) != 1:
            raise Missing("answer channel of a command")
        mon.tx, mon.on = tx[0], True
        W.E.opts["recv"] = cmd
        n = 0
        for sp in W.workers(p):
            for q, ev in W.work(p, sp):
                for e in ev:
                    if e.op == "p_write":
                        c.ob("nothing goes on after a failure", f"{mod} writer task", not e.a.get("after"), f"{e.where}: written although the turn has failed")
                        c.ob("a failure is reported as an error", f"{mod} writer task", not e.a.get("late"), f"{e.where}: fails after its caller has been answered")
                    if e.op == "chan_send" and e.a.get("failed") is not None:
                        n += 1
                        ok = res(e.a["val"]) == "err" and inside(e.a["val"], e.a["failed"])
                        c.ob("a failure is reported as an error", f"{mod} writer task", ok, f"{e.where}: answers {str(e.a['val'])[:80]} after a failed write")
        mon.on = False
        c.floor("failed commands of the writer task", n, 1)


def task(c, ps, nm):
    """a write handed to the writer task: its failure, or its silence, fails the caller"""
    n = 0
    for q, ev in ps:
        if q.kind != "ret":
            continue
        lost = [e for e in ev if e.op in ("chan_send", "answer") and not e.a["ok"]]
        if lost:
            n += 1
            c.ob("a failure is reported as an error", nm, res(q.ret) == "err", f"{lost[0].where}: {where(q)} returns {str(q.ret)[:80]}")
            continue
        for e in ev:
            if e.op != "answer":
                continue
            n += 1
            a = valterm(e.a["val"])
            v = q.st.variant(e.a["val"])
            bad = T("f", a, 1, 0)
            ok = valterm(q.ret) is a or v == 0 or v == 1 and res(q.ret) == "err" and inside(q.ret, bad)
            c.ob("a failure is reported as an error", nm, ok, f"{e.where}: the task's answer; {where(q)} returns {str(q.ret)[:80]}")
        if not any(e.op == "answer" for e in ev):
            c.ob("success is the task's answer", nm, res(q.ret) == "err", f"{where(q)}: no answer was awaited")
    c.floor(f"outcomes of {nm}", n, 3)


def check(c):
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        fut = mod == "futures"
        least = {"new": 9, "read": 5, "write": 3}

        def new():
            E = handshake_run(c, feat, mod, [automaton], "c24")
            rules(c, E.paths, f"{mod}::Protocol::new", least["new"])

        def read():
            E, ps = fresh_read(c, feat, mod, False, [automaton], "c24")
            rules(c, ps, f"{mod}::ProtocolReader::read", least["read"])

        def write():
            k = c.coroutine(feat, "ProtocolWriter::write", mod) if fut else c.fn(feat, "ProtocolWriter::write", mod)
            E = c.run(feat, k, contract=CIPHER, monitors=[automaton], tag="c24")
            rules(c, E.paths, f"{mod}::ProtocolWriter::write", least["write"])

        def whole():
            import contracts
            for nm in ("Protocol::read", "Protocol::write"):
                k = c.coroutine(feat, nm, mod) if fut else c.fn(feat, nm, mod)
                E = c.run(feat, k, contract=CIPHER, monitors=[automaton], tag="c24")
                rules(c, E.paths, f"{mod}::{nm}", 2)

        def hs():
            k = c.coroutine(feat, mod + "::handshake") if fut else c.fn(feat, mod + "::handshake")
            E = c.run(feat, k, contract=HS, monitors=[automaton], tag="c24")
            rules(c, E.paths, f"{mod}::handshake", least["new"])
        for n, f in (("Protocol::new", new), ("ProtocolReader::read", read), ("ProtocolWriter::write", write), ("Protocol", whole), ("handshake", hs)):
            c.guard(f"{mod}::{n}", f)
    for feat, names in (("core", ("InboundCipher::decrypt", "InboundCipher::decrypt_in_place")),
                        ("std", ("InboundCipher::decrypt_to_vec",))):
        for nm in names:
            def one():
                E = c.run(feat, c.fn(feat, nm), monitors=[automaton], tag="c24")
                rules(c, E.paths, f"{nm} [{feat}]", 1)
            c.guard(f"{nm} [{feat}]", one)
    for mod in ("io", "futures"):
        for cfg in ("off", "padding", "both"):
            c.guard(f"shaped {mod} with {cfg}", shaped, c, mod, cfg)
