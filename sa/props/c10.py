"""Abstract interpretation with a wire automaton: every message made (key message,
version message, sealed packet) becomes bytes owed to the transport; each complete
write must hand over the next owed bytes and nothing else. A write or a handshake may
report success, and the handshake may wait for the peer, only when nothing is owed and
everything written has been flushed."""
from lib import *


def wire():
    """ghost state: (segments owed, written but not flushed)"""
    def m(st, ev):
        owed, dirty = st.mon or ((), False)
        E = st.E
        a = ev.a
        if ev.op in ("send_key", "send_version", "seal") and a.get("ok"):
            t = a["ct"] if ev.op == "seal" else a["out"]
            owed = tuple(E.merge(st, tuple(owed) + ((a["n"], "t", t, ZERO),)))
        elif ev.op == "write_all":
            segs, n = a["segs"], a["n"]
            if not a["ok"]:
                return
            a["due"] = False
            have = seglen(owed)
            if st.le(n, have) and same(E, st, segs, sublist(E, st, owed, 0, n)):
                a["due"] = True
                owed = tuple(s for s in sublist(E, st, owed, n, have - n) if not st.eqz(s[0]))
            dirty = True
        elif ev.op in ("write", "poll_write"):
            a["due"] = False
        elif ev.op == "flush" and a["ok"]:
            dirty = False
        elif ev.op in ("read", "read_exact", "poll_read"):
            a["settled"] = not owed and not dirty
        st.mon = (owed, dirty) if owed or dirty else ()
    return m


def writes(c, E, ps, name, least):
    n = 0
    for p in ps:
        for e in events(p, "write_all", "write", "poll_write"):
            if e.a.get("ok") is False:
                continue
            n += 1
            c.ob("every write hands over exactly the next bytes of the message", name, e.a.get("due"), f"{e.where}: writes {e.a.get('segs')}")
    c.floor(f"writes of {name}", n, least)


def handshake(c, feat, mod):
    E = handshake_run(c, feat, mod, [wire()], "c10")
    name = f"{mod}::Protocol::new"
    writes(c, E, E.paths, name, 4)
    n = 0
    for p in E.paths:
        for e in events(p, "read", "read_exact", "poll_read"):
            n += 1
            c.ob("everything owed is written and flushed before waiting for the peer", name, e.a.get("settled"), e.where)
    c.floor(f"reads of {name}", n, 6)
    m = 0
    for p in oks(E):
        m += 1
        ops = [e.op for e in events(p, "send_key", "receive_key", "send_version", "receive_garbage") if e.a.get("ok") is not False]
        c.ob("both messages are sent, in order", name, [o for o in ops if o.startswith("send")] == ["send_key", "send_version"], f"{where(p)}: {ops}")
        c.ob("success only when everything is written and flushed", name, not p.st.mon, f"{where(p)}: {p.st.mon}")
    c.floor(f"handshakes of {name}", m, 4)


def session(c, feat, mod):
    k = c.coroutine(feat, "ProtocolWriter::write", mod) if mod == "futures" else c.fn(feat, "ProtocolWriter::write", mod)
    E = c.run(feat, k, contract=CIPHER, monitors=[wire()], tag="c10")
    name = f"{mod}::ProtocolWriter::write"
    writes(c, E, E.paths, name, 2)
    n = 0
    for p in oks(E):
        n += 1
        s = [e for e in events(p, "seal") if e.a["ok"]]
        c.ob("one packet per write", name, len(s) == 1, f"{where(p)}: {len(s)}")
        c.ob("success only when everything is written and flushed", name, not p.st.mon, f"{where(p)}: {p.st.mon}")
    c.floor(f"successful writes of {name}", n, 2)


def check(c):
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        c.guard(f"{mod}::Protocol::new", handshake, c, feat, mod)
        c.guard(f"{mod}::ProtocolWriter::write", session, c, feat, mod)
