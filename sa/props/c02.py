"""Abstract interpretation of the handshake as a chain of its own steps: garbage
passed to send_key, through receive_key, to send_version, and the buffer given to
receive_garbage to receive_version. A ghost counter follows the sealed / opened
packets through every loop; the first must carry exactly the garbage as associated
data and every other one none. The blocking and the asynchronous handshake hand
receive_garbage exactly the stream bytes after the peer's 64-byte key."""
from lib import *


def first_monitor(op):
    def m(st, ev):
        if ev.op == op and ev.a.get("ok"):
            ev.a["first"] = not st.mon
            st.mon = ("later",)
    return m


def sending(c):
    k1, k2, k3 = (c.fn("core", "Handshake::" + n) for n in ("send_key", "receive_key", "send_version"))
    E = c.run("core", k1, monitors=[first_monitor("seal")], opts={"contract": CIPHER}, tag="c02")
    n = 0
    seen = set()
    for p in oks(E):
        g = opt_slice_arg(E, p.st, k1, 2)
        buf = arg_after(E, p.st, k1, 3)
        if g is None:
            c.ob("garbage is decided before it is sent", "send_key", False, where(p))
            continue
        seen.add(bool(g))
        c.ob("the garbage follows the 64-byte key on the wire", "send_key",
             buf[0] == "Y" and same(E, p.st, sublist(E, p.st, buf[2], 64, seglen(g)), g), f"{where(p)}: {buf[2]}")
        for p2 in c.then(E, p, k2, {1: p.ret[3][0]}):
            if p2.kind != "ret" or res(p2.ret) != "ok":
                continue
            for p3 in c.then(E, p2, k3, {1: p2.ret[3][0]}):
                seals = [e for e in events(p3, "seal") if e.a["ok"]]
                done = p3.kind == "ret" and res(p3.ret) == "ok"
                if done:
                    n += 1
                    c.ob("some packet carries the garbage", "send_version", bool(seals) and seals[0].a["first"], where(p3))
                for e in seals:
                    want = g if e.a["first"] else ()
                    got = bsegs(e.a["aad"])
                    c.ob("the first packet authenticates exactly the garbage sent, later packets nothing",
                         "send_version", got is not None and same(E, p3.st, got, want),
                         f"{where(p3)}: {'first' if e.a['first'] else 'later'} packet has aad {e.a['aad']}, garbage {g}")
    c.floor("handshakes sent", n, 4)
    c.ob("with and without garbage", "send_key", seen == {True, False}, str(seen))


def receiving(c):
    k1, k2 = (c.fn("core", "Handshake::" + n) for n in ("receive_garbage", "receive_version"))
    E = c.run("core", k1, opts={"contract": CIPHER}, tag="c02r")
    nb, seg = slice_arg(E, k1, 2)
    n = 0
    for p in oks(E):
        v = find_adt(E, p.ret, "bip324::handshake::GarbageResult")[0]
        if variant_name(E, p.st, v) != "FoundGarbage":
            continue
        cons = [x for x in v[3] if isinstance(x, Lin)][0]
        hs = [x for x in v[3] if not isinstance(x, Lin)][0]
        garbage = sublist(E, p.st, seg, 0, cons - 16)
        n += opened(c, E, p, k2, hs, garbage, "the first packet authenticates exactly the received garbage", 0)
    c.floor("handshakes received", n, 4)


def opened(c, E, p, k, hs, aad, rule, depth):
    n = 0
    for q in c.then(E, p, k, {1: hs}):
        old = len(events(p, "open"))
        os_ = events(q, "open")[old:]
        for e in os_:
            if e.a.get("size"):
                continue
            got = bsegs(e.a["aad"])
            c.ob(rule, "receive_version", got is not None and same(E, q.st, got, aad), f"{where(q)}: aad {e.a['aad']}, expected {aad}")
        if q.kind != "ret" or res(q.ret) != "ok":
            continue
        n += 1
        v = find_adt(E, q.ret, "bip324::handshake::VersionResult")[0]
        if variant_name(E, q.st, v) == "Decoy" and depth < 2:
            n += opened(c, E, q, k, v[3][0], (), "a packet after the first authenticates nothing", depth + 1)
    return n


def check(c):
    c.guard("sending", sending, c)
    c.guard("receiving", receiving, c)
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        c.guard(f"{mod}::Protocol::new", handed, c, feat, mod)


def handed(c, feat, mod):
    """through the public constructor"""
    E = handshake_run(c, feat, mod)
    n = 0
    for p in E.paths:
        for e in events(p, "receive_garbage"):
            n += 1
            segs = bsegs(e.a["buf"])
            b = E.merge(p.st, segs) if segs else ()
            c.ob("garbage is looked for in exactly the bytes after the peer's key", f"{mod}::Protocol::new",
                 segs is not None and (not b or len(b) == 1 and b[0][1] == "t" and b[0][2].op == "strm" and p.st.eq(b[0][3], mk(64))),
                 f"{where(p)}: {e.a['buf']}")
    c.floor(f"garbage searches in {mod}::Protocol::new", n, 2)
