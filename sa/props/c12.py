"""Abstract interpretation of the asynchronous read's coroutine, restarted as a new call
at every suspension point and after every success, any number of times. Ghost counters
follow the incoming stream: each length decrypted is the three bytes after the last
packet, once per packet; each packet opened is the announced bytes after its length.
A byte lost, read twice or a length decrypted again in any restart breaks the equality.
A resumed read also ends like an uninterrupted one: it never panics, and each error it
returns comes from the transport or its end, from a length just decrypted, or from a
packet that does not open.
"""
from lib import *

def explained(E, p):
    """what the error of a failing read comes from, or None"""
    ev = events(p, "read", "read_exact", "dec_len", "open")
    e = ev[-1] if ev else None
    x = p.ret[3][0]
    io = x[0] == "A" and x[2] == 0
    if io:
        if e is not None and e.op.startswith("read"):
            if e.a["ok"] is False or e.op == "read_exact":
                return "transport"
            if p.st.eqz(e.a["n"]) and not p.st.eqz(e.a["cap"]):
                return "end of stream"
        return None
    if e is not None and e.op == "open":
        return "packet" if e.a.get("ok") is False else None
    if e is not None and e.op == "dec_len" or p.st.mon != ():
        return "length"
    return None

def rules(c, ps, name, least):
    n = m = k = 0
    for p in ps:
        for e in events(p, "dec_len", "open"):
            if "next" not in e.a:
                continue
            n += 1
            what = "length" if e.op == "dec_len" else "packet"
            c.ob(f"each {what} is the stream's next bytes", name, e.a["next"], f"{e.where}: at {e.a['at']}: {e.a['bytes' if e.op == 'dec_len' else 'ct']}")
            c.ob(f"each {what} is processed once", name, e.a["once"], e.where)
        if p.kind == "ret" and res(p.ret) == "ok":
            m += 1
            c.ob("a delivered packet leaves nothing half done", name, p.st.mon == (), where(p))
        if p.kind == "panic":
            c.ob("a read that was dropped is resumed without a panic", name, False, where(p) + f": {p.why}")
        elif p.kind == "ret" and res(p.ret) == "err":
            k += 1
            c.ob("errors come from the transport, a length or a packet", name, explained(p.st.E, p) is not None, where(p) + f": {p.ret}")
    c.floor(f"failures of {name}", k, 3)
    c.floor(f"lengths and packets of {name}", n, least)
    c.floor(f"deliveries of {name}", m, 1)


def check(c):
    def fut():
        E, ps = fresh_read(c, "tokio", "futures", "ok", [stream_ghost], "c12")
        rules(c, ps, "futures::ProtocolReader::read", 4)
        yields = sum(len(events(p, "yield")) for p in ps)
        cancelled = sum(len(events(p, "cancelled")) for p in ps)
        c.floor("suspension points", yields, 2)
        c.floor("restarts", cancelled, 2)
    c.guard("futures::ProtocolReader::read", fut)
