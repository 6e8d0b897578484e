"""Abstract interpretation over stream positions. Handshake: at the moment the session
reader is first used, what it will produce (left-over bytes, then the transport from
its current position) is exactly the incoming stream from the end of the garbage
terminator on, and the session handed to the caller owns that very reader. Reader: for
any left-over bytes and position, each read produces the next bytes of that sequence and
leaves the rest, for every buffer size. Taking a session or reader apart hands over the
same reader."""
import models
from lib import *


def ghost(st, ev):
    E = st.E
    if ev.op == "receive_garbage" and ev.a["res"] == "found":
        st.mon = ("found", bsegs(ev.a["buf"]), ev.a["consumed"])
    elif ev.op == "sess_open" and st.mon and st.mon[0] == "found":
        _, buf, used = st.mon
        pre, rd, pos = ev.a["log"][3]
        n = seglen(buf)
        src = rd[1]
        ev.a["left"] = same(E, st, pre[2], sublist(E, st, buf, used, n - used))
        ev.a["upto"] = same(E, st, buf, ((n, "t", T("strm", src), pos - n),))
        st.mon = ("open", ev.a["term"])


def handshake(c, feat, mod):
    E = handshake_run(c, feat, mod, [ghost], "c11")
    name = f"{mod}::Protocol::new"
    n = m = 0
    for p in E.paths:
        for e in events(p, "sess_open"):
            n += 1
            c.ob("left-over bytes are exactly those after the terminator", name, e.a.get("left"), f"{e.where}: {str(e.a['log'])[:300]}")
            c.ob("the transport continues where the garbage buffer ends", name, e.a.get("upto"), f"{e.where}: {str(e.a['log'])[:300]}")
    for p in oks(E):
        m += 1
        r = find_adt(E, p.ret, f"bip324::{mod}::ProtocolSessionReader")
        c.ob("the session owns the reader the handshake used", name,
             len(r) == 1 and r[0][0] == "T" and st_open(p) == r[0][1], f"{where(p)}: {str(r)[:200]}")
    c.floor(f"session readers of {name}", n, 2)
    c.floor(f"sessions of {name}", m, 2)


def st_open(p):
    return p.st.mon[1] if p.st.mon and p.st.mon[0] == "open" else None


def position(v):
    """(buffer length, position) fields of a reader object"""
    ln, pos = [], []

    def walk(x):
        if isinstance(x, Lin):
            pos.append(x)
        elif isinstance(x, tuple) and x:
            if x[0] in ("V", "Y"):
                ln.append(seglen(x[2]))
            elif x[0] in ("A", "X"):
                for y in x[3] if x[0] == "A" else x[2]:
                    walk(y)
    walk(v)
    if len(ln) != 1 or len(pos) > 1:
        return None
    return (ln[0], pos[0] if pos else ZERO)


def fully(E, st, v, like):
    """initial value v expanded to the structure value `like` has"""
    if v[0] == "T" and like[0] in ("A", "X"):
        if like[0] == "A":
            v = E.expand(v, like[2], st)
        else:
            return None
    return v


def structured(v):
    """does a value hold library objects of known structure?"""
    return v[0] == "X" or v[0] == "A" and any(isinstance(x, tuple) and structured(x) for x in v[3])


def around(E, p, t, mod):
    """(state, reader at the call, reader at the end) of a path of a reading method with reader argument t"""
    st = p.st.fork()
    me = ("d", t) if mod == "io" else ("d", T("f", t, 0, 0))
    before = E.deref_init(me[1])
    now = E.getobj(st, me)
    if mod == "io" or structured(now):
        # the buffered part of the initial value, read through the same lazily made structure
        probe = p.st.fork()
        probe.mem = {o: v for o, v in st.mem.items() if o != me}
        before = initial(E, probe, me, now)
    else:
        before = fully(E, st, before, now) if now[0] != "T" else before
    if now[0] == "T":
        now = before = E.expand(before, None, st)
    return st, before, now


def reader(c, feat, mod, trait, method):
    k = c.fn(feat, f"<ProtocolSessionReader as {trait}>::{method}", mod)
    others = [f["name"] for f in c.crate(feat).d["fns"] if f["name"].startswith(f"bip324::<ProtocolSessionReader as {trait}>::") and not f["name"].endswith("::" + method)
              and f["vpath"].startswith(f"bip324::{mod}::")]
    name = f"{mod}::ProtocolSessionReader::{method}"
    c.ob("no other reading method is overridden", name, not others, str(others))
    E = c.run(feat, k, tag="c11")
    body = E.crate.body(k)
    t = argterm(E, k, 1)
    n = z = 0
    for p in E.paths:
        if p.kind != "ret":
            continue
        st, before, now = around(E, p, t, mod)
        b = position(before)
        if b is None:
            c.ob("reader state is understood", name, False, f"{where(p)}: {str(before)[:200]}")
            continue
        # constructed with position 0 and kept within the buffer below
        for st in st.where_(("ge", b[0] - b[1])):
            n += 1
            a = position(now)
            c.ob("the position stays within the left-over bytes", name, a is not None and st.le(a[1], a[0]), f"{where(p)}: {a}")
            st0 = st.fork()
            st0.mem = {o: v for o, v in st0.mem.items() if o[0] != "spos"}
            pre0 = models.logical(E, st0, before)[3]
            pre1 = models.logical(E, st, now)[3]
            src, got = pre1[1][1], pre1[2]
            delegated = events(p, "poll_read")
            if delegated:
                e = delegated[0]
                ok = len(delegated) == 1 and e.a["key"] is src and e.a["buf"] is T("deref", argterm(E, k, 3)) and p.ret[0] == "T" and p.ret[1] is e.a["out"]
                c.ob("the transport is read with the caller's buffer", name, ok, f"{where(p)}: {e.a}")
                c.ob("the transport is read only after the left-over bytes", name, st.eqz(seglen(pre0[0][2])) and st.eqz(seglen(pre1[0][2])), f"{where(p)}: {pre0[0]}")
                continue
            if mod == "io":
                if res(p.ret) == "ok":
                    m = p.ret[3][0]
                    out = arg_after(E, p.st, k, 2)
                    cap, _ = slice_arg(E, k, 2)
                    made = sublist(E, st, out[2], 0, m)
                else:
                    made, m = (), ZERO
            else:
                rb = st.mem.get(("d", argterm(E, k, 3)))
                made = rb[2][0][2] if rb is not None and rb[0] == "X" else ()
                m = seglen(made)
                cap = lin(sym(T("rb_remaining", T("deref", argterm(E, k, 3))), 0, 2 ** 63 - 1))
                if not poll_ok(E, p.ret):
                    c.ob("only the transport itself suspends or fails a read", name, False, f"{where(p)}: {p.ret}")
                    continue
            want = tuple(pre0[0][2]) + ((got, "t", T("strm", src), ZERO),)
            have = tuple(made) + tuple(pre1[0][2])
            c.ob("each read continues the stream and leaves the rest", name, src is pre0[1][1] and same(E, st, want, have),
                 f"{where(p)}: had {want} produced {made} left {pre1[0][2]}")
            if res(p.ret) == "ok" or mod == "futures":
                for s2 in st.where_(("eq", m)):
                    z += 1
                    eof = [e for e in events(p, "read") if e.a["ok"] and s2.eqz(e.a["n"])]
                    c.ob("no end of stream before the transport's", name, s2.eqz(cap) or bool(eof), f"{where(p)}: empty read")
    c.floor(f"reads of {name}", n, 3)


def initial(E, st, me, like):
    """initial contents of a reader object, with the structure it was used with"""
    v = E.deref_init(me[1])

    def grow(v, like):
        if v[0] == "T" and isinstance(like, tuple) and like[0] == "A":
            v = E.expand(v, like[2], st)
        if v[0] == "A" and like[0] == "A":
            return ("A", v[1], v[2], tuple(grow(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else x for x, y in zip(v[3], like[3])))
        if v[0] == "T" and isinstance(like, tuple) and like[0] == "X":
            return xinit(v[1], like)
        return v

    def xinit(t, like):
        out = []
        for i, y in enumerate(like[2]):
            s = T("f", t, like[1], i)
            if isinstance(y, Lin):
                out.append(lin(sym(s, 0, 2 ** 63 - 1)))
            elif y[0] in ("V", "Y"):
                n = lin(sym(T("len", s), 0, 2 ** 63 - 1))
                out.append((y[0], y[1], ((n, "t", s, ZERO),)))
            elif y[0] == "X":
                out.append(xinit(s, y))
            else:
                out.append(("T", s, y[2] if y[0] == "T" else None))
        return ("X", like[1], tuple(out))
    return grow(v, like)


def poll_ok(E, v):
    return v[0] == "A" and v[2] == 0 and v[3] and v[3][0][0] == "A" and v[3][0][2] == 0


def apart(c, feat, mod):
    for fn, ty in (("Protocol::into_split", f"bip324::{mod}::ProtocolReader"), ("ProtocolReader::into_inner", f"bip324::{mod}::ProtocolSessionReader")):
        k = c.fn(feat, fn, mod)
        E = c.run(feat, k)
        for p in E.paths:
            r = find_adt(E, p.ret, ty)
            # rebuilt or moved: every part must be the same part of the argument
            want = [E.expand(("T", argterm(E, k, 1), E.crate.body(k).locals[1][0]), None, p.st)]
            src = find_adt(E, want[0], ty)
            c.ob("the same reader is handed over", f"{mod}::{fn}", len(r) == 1 and len(src) == 1 and unchanged(E, p.st, src[0], r[0]), f"{where(p)}: {str(p.ret)[:200]}")


def check(c):
    for feat, mod, tr, m in (("std", "io", "Read", "read"), ("tokio", "futures", "AsyncRead", "poll_read")):
        c.guard(f"{mod}::Protocol::new", handshake, c, feat, mod)
        c.guard(f"{mod}::ProtocolSessionReader::{m}", reader, c, feat, mod, tr, m)
        c.guard(f"{mod}::into_inner", apart, c, feat, mod)
