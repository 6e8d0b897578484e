"""Abstract interpretation of sealing and length decoding from an arbitrary cipher
state: on every successful seal the 3-byte prefix is the length keystream applied to
the little-endian contents length, followed by the sealed header and contents and the
tag (20 bytes more than the contents), and the contents length is provably below 2^24;
every refusal leaves the cipher unchanged and is provably due to the length or the
buffer. The decoded length is the little-endian value plus 17 as a linear identity,
and the sizing helpers are the corresponding linear functions."""
from lib import *

MAXC = 2 ** 24 - 1


def length_op(c, E, p, name):
    ks = [k for k in events(p, "keystream") if p.st.eq(k.a["len"], mk(3))]
    ok = c.ob("one length per packet", name, len(ks) == 1, f"{where(p)}: {len(ks)} three-byte keystreams")
    return ks[0] if ok else None


def sealed(c, E, p, name, k, buf):
    """buf = segments of the produced packet (at least)"""
    n, seg = slice_arg(E, k, 2)
    st = p.st
    c.ob("the contents length fits the prefix", name, st.le(n, mk(MAXC)), f"{where(p)}: sealed {n} bytes")
    l = length_op(c, E, p, name)
    es = [e for e in events(p, "aead_enc") if not is_rekey(e)]
    if not c.ob("one packet per call", name, len(es) == 1, f"{where(p)}: {len(es)}") or l is None:
        return
    e = es[0]
    want = ((mk(3), "t", T("le", n, 4), ZERO),)
    c.ob("the prefix encodes exactly the contents length", name, same(E, st, bsegs(l.a["input"]), want), f"{where(p)}: {l.a['input']}")
    if buf is None:
        c.ob("the packet is written to the buffer", name, False, where(p))
        return
    c.ob("the packet begins with the encrypted length", name, same(E, st, sublist(E, st, buf, 0, 3), ((mk(3), "t", l.a["out"], ZERO),)),
         f"{where(p)}: {buf}"[:400])
    c.ob("the packet continues with the sealed header and contents", name,
         same(E, st, sublist(E, st, buf, 3, n + 1), ((n + 1, "t", e.a["ct"], ZERO),)), f"{where(p)}: {buf}"[:400])
    c.ob("the packet ends with the tag", name,
         same(E, st, sublist(E, st, buf, n + 4, 16), ((mk(16), "t", e.a["tag"], ZERO),)), f"{where(p)}: {buf}"[:400])
    pt = bsegs(e.a["pt"])
    c.ob("the contents are the caller's", name, pt is not None and st.eq(seglen(pt), n + 1) and same(E, st, sublist(E, st, pt, 1, n), seg),
         f"{where(p)}: {e.a['pt']}")


def encrypt(c, feat):
    k = c.fn(feat, "OutboundCipher::encrypt")
    E = c.run(feat, k)
    name = f"encrypt [{feat}]"
    ps = oks(E)
    c.floor(f"successful paths of {name}", len(ps), 4)
    for p in ps:
        buf = arg_after(E, p.st, k, 3)
        sealed(c, E, p, name, k, buf[2] if isinstance(buf, tuple) and buf[0] == "Y" else None)
    n, _ = slice_arg(E, k, 2)
    b, _ = slice_arg(E, k, 3)
    m = 0
    for p in oks(E, "err"):
        m += 1
        c.ob("a refused length changes no state", name, self_unchanged(E, p.st, k), where(p))
        c.ob("contents are refused only for their length or the buffer's", name,
             not p.st.where_(("and", ("ge", mk(MAXC) - n), ("ge", b - n - 20))), f"{where(p)}: refused although {n} fits")
    c.floor(f"refusing paths of {name}", m, 2)


def to_vec(c):
    k = c.fn("std", "OutboundCipher::encrypt_to_vec")
    E = c.run("std", k)
    n, _ = slice_arg(E, k, 2)
    m = 0
    for p in E.paths:
        if p.kind != "ret":
            continue
        m += 1
        v = p.ret
        segs = v[2] if isinstance(v, tuple) and v[0] == "V" else None
        c.ob("a packet has 20 bytes more than its contents", "encrypt_to_vec", segs is not None and p.st.eq(seglen(segs), n + 20), f"{where(p)}: {v}"[:300])
        sealed(c, E, p, "encrypt_to_vec", k, segs)
    c.floor("successful paths of encrypt_to_vec", m, 4)


def decoded(c, feat):
    k = c.fn(feat, "InboundCipher::decrypt_packet_len")
    E = c.run(feat, k)
    name = f"decrypt_packet_len [{feat}]"
    m = 0
    for p in E.paths:
        if p.kind != "ret":
            continue
        m += 1
        l = length_op(c, E, p, name)
        if l is None:
            continue
        arg = argterm(E, k, 2)
        c.ob("the received prefix is decrypted", name, same(E, p.st, bsegs(l.a["input"]), ((mk(3), "t", arg, ZERO),)), f"{where(p)}: {l.a['input']}")
        v = mk(17)
        for i in range(3):
            x = E.elem(p.st, ("Y", None, ((mk(3), "t", l.a["out"], ZERO),)), mk(i))
            if isinstance(x, tuple) and x[0] == "T":
                x = lin(sym(x[1], 0, 255))
            v = v + x * 256 ** i
        c.ob("the decoded length is the little-endian value plus 17", name, isinstance(p.ret, Lin) and p.st.eq(p.ret, v), f"{where(p)}: {p.ret}")
    c.floor(f"paths of {name}", m, 2)


def handshake_len(c):
    k = c.fn("core", "Handshake::decrypt_packet_len")
    E = c.run("core", k, contract=CIPHER)
    m = 0
    for p in oks(E):
        m += 1
        ls = events(p, "dec_len")
        v = p.ret[3][0]
        c.ob("the handshake reports the decoded length", "Handshake::decrypt_packet_len",
             len(ls) == 1 and isinstance(v, Lin) and p.st.eq(v, ls[0].a["n"]), f"{where(p)}: {v}")
        c.ob("the handshake decodes the received prefix", "Handshake::decrypt_packet_len",
             len(ls) == 1 and same(E, p.st, bsegs(ls[0].a["bytes"]), ((mk(3), "t", argterm(E, k, 2), ZERO),)), f"{where(p)}")
    c.floor("successful paths of Handshake::decrypt_packet_len", m, 1)


def helper(c, feat, name, f):
    k = c.fn(feat, name)
    E = c.run(feat, k)
    x = lin(sym(argterm(E, k, 1), 0, 2 ** 64 - 1))
    m = 0
    for p in E.paths:
        if p.kind == "ret":
            m += 1
            c.ob("sizing helpers agree with the packet layout", f"{name} [{feat}]", isinstance(p.ret, Lin) and p.st.eq(p.ret, f(x)), f"{where(p)}: {p.ret}")
        elif p.kind == "panic":
            lo, hi = p.st.bounds(x) if hasattr(p.st, "bounds") else (None, None)
            c.ob("sizing helpers fail only beyond the address space or below a tag", f"{name} [{feat}]",
                 not p.st.where_(("and", ("ge", x - 16), ("ge", mk(2 ** 63) - x))), f"{where(p)}: panics")
    c.floor(f"returns of {name}", m, 1)


def key_len(c):
    k = c.fn("core", "Handshake::send_key_len")
    E = c.run("core", k)
    t = argterm(E, k, 1)
    seen = set()
    for p in E.paths:
        g = opt_slice_arg(E, p.st, k, 1)
        if p.kind != "ret":
            continue
        seen.add(bool(g))
        c.ob("sizing helpers agree with the message layout", "Handshake::send_key_len",
             g is not None and p.st.eq(p.ret, seglen(g) + 64), f"{where(p)}: {p.ret}")
    c.ob("with and without garbage", "Handshake::send_key_len", seen == {True, False}, str(seen))


def check(c):
    for feat in ("core", "std"):
        c.guard("encrypt", encrypt, c, feat)
        c.guard("decrypt_packet_len", decoded, c, feat)
        c.guard("encryption_buffer_len", helper, c, feat, "OutboundCipher::encryption_buffer_len", lambda x: x + 20)
        c.guard("decryption_buffer_len", helper, c, feat, "InboundCipher::decryption_buffer_len", lambda x: x - 16)
    c.guard("encrypt_to_vec", to_vec, c)
    c.guard("Handshake::decrypt_packet_len", handshake_len, c)
    c.guard("send_key_len", key_len, c)
