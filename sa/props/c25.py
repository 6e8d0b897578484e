"""Abstract interpretation of every operation that fills a caller's buffer, from an
arbitrary state: a path that refuses the buffer has proved it smaller than the stated
size, the stated size is proved equal to the required one, and the buffer is what it
was; a successful path has proved the buffer large enough and written exactly the
required bytes. For the version message the required size is a sum over the decoy
list; a ghost prefix sum, advanced with each decoy visited and equal to the total once
all were visited, ties the sizing loop to the writing loop by linear loop invariants."""
from lib import *
from ctx import variant_name

def total(a):
    return lin(sym(T("packets", a), 0, 2 ** 62))


def visit(st, a, b):
    """ghost prefix sum over the packet sizes of a list of byte strings"""
    I, S = ("gh", "index", a), ("gh", "sum", a)
    gi, gs = st.mem.get(I, ZERO), st.mem.get(S, ZERO)
    if not st.eq(b, gi):
        if not st.eqz(b):
            return
        pin(st)
        gi = gs = ZERO
    n = lin(sym(T("len", T("elem", a, b)), 0, 2 ** 63 - 1))
    st.mem[I] = b + 1
    st.mem[S] = gs + n + 20
    st.assume(("ge", total(a) - st.mem[S]))


def pin(st):
    """after a whole pass the prefix sum is the total"""
    for o in [o for o in st.mem if o[0] == "gh" and o[1] == "index"]:
        a = o[2]
        n = lin(sym(T("len", a.args[0]), 0, 2 ** 63 - 1))
        if st.eq(st.mem[o], n):
            s = st.mem[("gh", "sum", a)]
            st.assume(("ge", total(a) - s))
            st.assume(("ge", s - total(a)))


def written(st, obj, path, new):
    """ghost extent: bytes [0, to) of a caller's buffer are the ones written so far,
    without a gap unless `gap`"""
    if obj[0] != "d":
        return
    G, T_ = ("gh", "gap", obj), ("gh", "to", obj)
    to = st.mem.get(T_, ZERO)
    off, n = ZERO, None
    for s in path:
        if not isinstance(s, tuple) or s[0] not in ("s", "i"):
            return
        off = off + s[1]
        n = s[2] if s[0] == "s" else ONE
    if n is None:
        if not isinstance(new, tuple) or new[0] != "Y":
            return
        n = seglen(new[2])
    if st.eqz(n):
        return
    if not st.le(off, to):
        st.mem[G] = ONE
    if st.le(to, off + n):
        st.mem[T_] = off + n
    elif not st.le(off + n, to):
        st.mem[T_] = mk(2 ** 63)


def too_small(E, st, v):
    """stated size of a refusal for the buffer's size, or None"""
    e = v[3][0] if isinstance(v, tuple) and v[0] == "A" and len(v[3]) == 1 else None
    if e is not None and variant_name(E, st, e) == "BufferTooSmall":
        e = E.expand(e, None, st) if e[0] == "T" else e
        return e[3][0]
    return None


def rules(c, E, key, buf, need, name, floors, sure=True):
    """need(state) -> required size"""
    b, _ = slice_arg(E, key, buf)
    t = argterm(E, key, buf)
    o = ("d", t)
    n = m = r = 0
    for p in E.paths:
        for e in events(p, "seal", "open"):
            c.ob("a sufficient buffer is never found too small on the way", name, not e.a.get("size"), e.where)
        if p.kind != "ret":
            if p.kind == "panic" and sure:
                c.ob("no panic", name, False, f"{where(p)}: {p.why}")
            continue
        st = p.st
        pin(st)
        q = need(st)
        now = after(E, st, o)
        if q is None:
            c.ob("the required size is known", name, False, where(p))
            continue
        if res(p.ret) == "ok":
            n += 1
            c.ob("accepted buffers are large enough", name, st.le(q, b), f"{where(p)}: accepted {b} of {q} bytes")
            segs = now[2] if isinstance(now, tuple) and now[0] == "Y" else None
            ok = segs is not None and st.eq(seglen(segs), b)
            c.ob("the buffer keeps its length", name, ok, f"{where(p)}: {now}"[:300])
            if not ok:
                continue
            old = T("deref", t)
            head, rest = sublist(E, st, segs, ZERO, q), sublist(E, st, segs, q, b - q)
            to = st.mem.get(("gh", "to", o), ZERO)
            gap = st.mem.get(("gh", "gap", o), ZERO)
            c.ob("bytes after the required ones stay untouched", name, st.le(to, q) or same(E, st, rest, ((b - q, "t", old, q),)), f"{where(p)}: {rest}"[:300])
            full = st.le(q, to) and st.eqz(gap)
            c.ob("all required bytes are written", name, full or not any(holds(s, old) or opaque(s) for s in head if not st.eqz(s[0])), f"{where(p)}: written {to}, gap {gap}, {head}"[:300])
        else:
            z = too_small(E, st, p.ret)
            if z is None:
                r += 1
                continue
            m += 1
            c.ob("the stated size is the required size", name, isinstance(z, Lin) and st.eq(z, q), f"{where(p)}: states {z}, needs {q}")
            c.ob("only smaller buffers are refused", name, st.le(b, q - 1), f"{where(p)}: refuses {b} of {q} bytes")
            c.ob("a refused buffer stays untouched", name, unchanged(E, st, E.deref_init(t), now), f"{where(p)}: {now}"[:300])
    c.floor(f"acceptances of {name}", n, floors[0])
    c.floor(f"refusals of {name}", m, floors[1])


def holds(x, t):
    if x is t:
        return True
    return isinstance(x, tuple) and any(holds(y, t) for y in x)


def opaque(x):
    """bytes of which the loop summary says nothing"""
    if getattr(x, "op", None) in ("phi", "tail"):
        return True
    return isinstance(x, tuple) and any(opaque(y) for y in x)


def ciphers(c, feat):
    k = c.fn(feat, "OutboundCipher::encrypt")
    E = c.run(feat, k, opts={"written": written}, tag="c25")
    rules(c, E, k, 3, lambda st: slice_arg(E, k, 2)[0] + 20, f"encrypt [{feat}]", (2, 1), False)
    k2 = c.fn(feat, "InboundCipher::decrypt")
    E2 = c.run(feat, k2, opts={"written": written}, tag="c25")
    rules(c, E2, k2, 3, lambda st: slice_arg(E2, k2, 2)[0] - 16, f"decrypt [{feat}]", (2, 1), False)


def send_key(c, feat):
    k = c.fn(feat, "Handshake::send_key")
    E = c.run(feat, k, opts={"written": written}, tag="c25")

    def need(st):
        g = opt_slice_arg(E, st, k, 2)
        return None if g is None else seglen(g) + 64
    rules(c, E, k, 3, need, f"send_key [{feat}]", (2, 2))
    kl = c.fn(feat, "Handshake::send_key_len")
    El = c.run(feat, kl)
    n = 0
    for p in El.paths:
        g = opt_slice_arg(El, p.st, kl, 1)
        n += 1
        c.ob("the sizing helper states the required size", f"send_key_len [{feat}]",
             p.kind == "ret" and g is not None and p.st.eq(p.ret, seglen(g) + 64), f"{where(p)}: {p.ret}")
    c.floor(f"paths of send_key_len [{feat}]", n, 2)


def list_total(E, st, key, i):
    t = argterm(E, key, i)
    v = st.var.get(t)
    if v == 0:
        return ZERO
    if v != 1:
        return None
    f = T("f", t, 1, 0)
    n = lin(sym(T("len", f), 0, 2 ** 63 - 1))
    return ZERO if st.eqz(n) else total(T("deref", f))


def send_version(c, feat):
    opts = {"elems": visit, "at_head": (pin,), "written": written}
    k = c.fn(feat, "Handshake::send_version")
    E = c.run(feat, k, contract=CIPHER, opts=opts, tag="c25")

    def need(st):
        t = list_total(E, st, k, 3)
        return None if t is None else t + 36
    rules(c, E, k, 2, need, f"send_version [{feat}]", (4, 3))
    kl = c.fn(feat, "Handshake::send_version_len")
    El = c.run(feat, kl, opts=opts, tag="c25")
    n = 0
    for p in El.paths:
        if p.kind == "loop":
            continue
        pin(p.st)
        t = list_total(El, p.st, kl, 1)
        n += 1
        c.ob("the sizing helper states the required size", f"send_version_len [{feat}]",
             p.kind == "ret" and t is not None and p.st.eq(p.ret, t + 36), f"{where(p)}: {p.ret}, total {t}")
    c.floor(f"paths of send_version_len [{feat}]", n, 3)


def check(c):
    for feat in ("core", "std"):
        c.guard(f"ciphers [{feat}]", ciphers, c, feat)
        c.guard(f"send_key [{feat}]", send_key, c, feat)
        c.guard(f"send_version [{feat}]", send_version, c, feat)
