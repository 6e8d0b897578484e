"""Abstract interpretation of every interface that hands out plaintext: on each
path reporting success there is exactly one AEAD opening, it verified, it ran over
exactly the supplied bytes with exactly the supplied associated data, and what the
caller receives is that opening's plaintext. The session readers are analysed with
the cipher interface replaced by the contract these bodies establish; their packet
must be consecutive bytes of the transport stream."""
from lib import *


def opening(c, E, p, name, key, ct_i, aad_segs):
    """the path's single verified opening covers the parameter's bytes"""
    ds = events(p, "aead_dec")
    good = [d for d in ds if d.a["ok"]]
    if not c.ob("success needs exactly one opening, and it verified", name, len(ds) == 1 and len(good) == 1,
                f"{where(p)}: {len(ds)} openings, {len(good)} verified"):
        return None
    d = good[0]
    n, seg = slice_arg(E, key, ct_i)
    ok = p.st.le(mk(17), n)
    c.ob("an opened packet holds a header and a tag", name, ok, f"{where(p)}: success with {n} bytes")
    c.ob("the ciphertext is the supplied packet without its last 16 bytes", name,
         same(E, p.st, bsegs(d.a["ct"]), sublist(E, p.st, seg, 0, n - 16)), f"{where(p)}: opened {d.a['ct']}")
    c.ob("the tag is the last 16 bytes", name,
         same(E, p.st, bsegs(d.a["tag"]), sublist(E, p.st, seg, n - 16, 16)), f"{where(p)}: tag {d.a['tag']}")
    if aad_segs is not False:
        c.ob("the associated data is the caller's", name, aad_segs is not None and same(E, p.st, bsegs(d.a["aad"]), aad_segs),
             f"{where(p)}: aad {d.a['aad']}")
    return d


def key_of_self(c, E, p, key, name, d):
    """the key and nonce come from the receiver's own state"""
    t = T("deref", argterm(E, key, 1))

    def roots(x, out):
        if isinstance(x, T0):
            if x.op == "arg":
                out.add(x)
                return
            for a in x.args:
                roots(a, out)
        elif isinstance(x, Lin):
            for s, _ in x.t:
                roots(s.term, out)
        elif isinstance(x, tuple):
            for a in x:
                roots(a, out)
    out = set()
    roots(d.a["key"], out)
    roots(d.a["nonce"], out)
    c.ob("key and nonce depend on the cipher only", name, out == {argterm(E, key, 1)}, f"{where(p)}: {out}")


T0 = type(T("x"))


def decrypt(c, feat, name, out_i, aad_i):
    k = c.fn(feat, name)
    E = c.run(feat, k)
    ps = oks(E)
    covers_options(c, E, k, aad_i, name, ps)
    c.floor(f"successful paths of {name}", len(ps), 4)
    for p in ps:
        d = opening(c, E, p, name, k, 2, opt_slice_arg(E, p.st, k, aad_i))
        if d is None:
            continue
        key_of_self(c, E, p, k, name, d)
        n, seg = slice_arg(E, k, 2)
        want = ((n - 16, "t", d.a["pt"], ZERO),)
        if out_i == "ret":      # (PacketType, contents)
            v = p.ret[3][0]
            got = contents(E, p.st, v[3][1])
        else:
            buf = arg_after(E, p.st, k, out_i)
            got = sublist(E, p.st, buf[2], 0, n - 16) if isinstance(buf, tuple) and buf[0] == "Y" else None
        c.ob("the caller receives exactly the opened plaintext", name, same(E, p.st, got, want), f"{where(p)}: {got}")


def version(c):
    k = c.fn("core", "Handshake::receive_version")
    E = c.run("core", k)
    ps = oks(E)
    c.floor("successful paths of receive_version", len(ps), 2)
    for p in ps:
        d = opening(c, E, p, "receive_version", k, 2, False)


def reader(c, feat, mod):
    """paths of a session read that deliver a payload"""
    con = c.fn(feat, "Payload::contents")
    n = 0
    for E, p, v in reads(c, feat, mod):
        n += 1
        name = f"{mod}::read"
        os_ = [e for e in events(p, "open") if e.a["ok"]]
        if not c.ob("a delivered payload was opened exactly once", name, len(os_) == 1 and len(events(p, "open")) == 1,
                    f"{where(p)}: {len(events(p, 'open'))} openings"):
            continue
        o = os_[0]
        ls = [e for e in events(p, "dec_len")]
        ct = bsegs(o.a["ct"])
        c.ob("session packets have no associated data", name, bsegs(o.a["aad"]) == (), f"{where(p)}: {o.a['aad']}")
        c.ob("the packet is one run of stream bytes", name, is_stream(E, p.st, ct), f"{where(p)}: {ct}")
        if c.ob("one length per packet", name, len(ls) == 1, f"{where(p)}: {len(ls)} lengths"):
            l = ls[0]
            lb = E.merge(p.st, bsegs(l.a["bytes"]))
            c.ob("the packet has the announced length", name, p.st.eq(seglen(ct), l.a["n"]), f"{where(p)}: {seglen(ct)} vs {l.a['n']}")
            c.ob("the packet follows its length prefix", name, follows(E, p.st, lb, ct), f"{where(p)}: {lb} then {ct}")
        for q in c.then(E, p, con, {1: ref(v)}):
            got = contents(E, q.st, q.ret) if q.kind == "ret" else None
            if q.kind == "panic":
                # contents of an opened packet: never empty (C07 decides this)
                continue
            want = [(seglen(ct) - 17, "t", o.a["pt"], ONE)]
            c.ob("the payload's contents are the opened plaintext after its header byte", name, same(E, q.st, got, want),
                 f"{where(q)}: {got}")
    c.floor(f"payloads delivered by {mod}::read", n, 1)


def is_stream(E, st, segs):
    m = E.merge(st, segs)
    return len(m) == 1 and m[0][1] == "t" and m[0][2].op == "strm"


def follows(E, st, a, b):
    a, b = E.merge(st, a), E.merge(st, b)
    return len(a) == 1 and len(b) == 1 and a[0][1] == b[0][1] == "t" and a[0][2] is b[0][2] and \
        st.eq(a[0][0], mk(3)) and st.eq(a[0][3] + 3, b[0][3])


def reads(c, feat, mod):
    """(engine, path, payload) of every successful session read"""
    if mod == "io":
        k = c.fn(feat, "ProtocolReader::read", mod)
        E = c.run(feat, k, contract=CIPHER)
        ps = E.paths
    else:
        E, ps = fresh_async_read(c, feat)
    for p in ps:
        if p.kind != "ret":
            continue
        v = find_adt(E, p.ret, "bip324::io::Payload")
        if v:
            yield E, p, v[0]


def check(c):
    c.guard("decrypt", decrypt, c, "core", "InboundCipher::decrypt", 3, 4)
    c.guard("decrypt_in_place", decrypt, c, "core", "InboundCipher::decrypt_in_place", "ret", 3)
    c.guard("decrypt_to_vec", decrypt, c, "std", "InboundCipher::decrypt_to_vec", "ret", 3)
    c.guard("receive_version", version, c)
    c.guard("sync read", reader, c, "std", "io")
    c.guard("async read", reader, c, "tokio", "futures")
