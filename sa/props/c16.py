"""Abstract interpretation of the header code: the decoded packet type is
computed for all 256 header bytes, the encoded byte for both packet types, and on
every path of every decrypting / encrypting interface the reported type is
compared with bit 7 of the authenticated first plaintext byte (and the sealed
header byte with the requested type)."""
from lib import *

PT = "bip324::PacketType"


def enumerate_types(c, feat):
    k = c.fn(feat, "PacketType::from_byte")
    cr = c.crate(feat)
    good = 0
    for b in range(256):
        def setup(E, st, b=b):
            uid = st.stack[0].uid
            st.mem[("o", "hdr")] = mk(b)
            st.mem[("l", uid, 1)] = ("R", ("o", "hdr"), ())
        E = c.run(feat, k, setup=setup)
        names = {variant_name(E, p.st, p.ret) if p.kind == "ret" else "panic" for p in E.paths}
        c.ob("decoded type is bit 7", f"header byte {b:#04x}", names == {"Decoy" if b >= 128 else "Genuine"},
             f"PacketType::from_byte({b:#04x}) gives {names}")
    k = c.fn(feat, "PacketType::to_byte")
    ty = tyid(cr, PT)
    for i, v in enumerate(cr.types[ty]["variants"]):
        def setup(E, st, i=i):
            st.mem[("o", "ty")] = ("A", ty, i, ())
            st.mem[("l", st.stack[0].uid, 1)] = ("R", ("o", "ty"), ())
        E = c.run(feat, k, setup=setup)
        vals = {str(p.ret) if p.kind == "ret" else "panic" for p in E.paths}
        c.ob("encoded header byte", v["n"], vals == {"128" if v["n"] == "Decoy" else "0"}, f"to_byte({v['n']}) = {vals}")


def opened(c, feat, name, mod=None, coro=False):
    """every successful decrypt: type == bit 7 of the opened plaintext's first byte"""
    k = c.coroutine(feat, name, mod) if coro else c.fn(feat, name, mod)
    E = c.run(feat, k)
    n = 0
    for p in E.paths:
        if p.kind != "ret":
            continue
        ts = find_adt(E, p.ret, PT)
        if res(p.ret) != "ok" or not ts:
            continue
        ds = [e for e in events(p, "aead_dec") if e.a["ok"]]
        if not c.ob("a reported type comes from an opened packet", f"{name} [{feat}]", len(ds) == 1, f"{where(p)}: {len(ds)} opens"):
            continue
        n += 1
        b = byte0(p.st, E, [(ds[0].a["len"], "t", ds[0].a["pt"], ZERO)])
        got = variant_name(E, p.st, ts[0])
        can = both_possible(p.st, b)
        c.ob("decrypted type is bit 7 of the header", f"{name} [{feat}]", can == [got], f"{where(p)}: reports {got} but header allows {can}")
    c.floor(f"successful paths of {name}", n, 2)
    return E


def version(c, feat):
    k = c.fn(feat, "Handshake::receive_version")
    E = c.run(feat, k)
    seen = set()
    for p in E.paths:
        if p.kind != "ret" or res(p.ret) != "ok":
            continue
        vs = find_adt(E, p.ret, "bip324::handshake::VersionResult")
        ds = [e for e in events(p, "aead_dec") if e.a["ok"]]
        if not c.ob("a handshake packet is classified after opening", "receive_version", len(ds) == 1 and vs, where(p)):
            continue
        b = byte0(p.st, E, [(ds[0].a["len"], "t", ds[0].a["pt"], ZERO)])
        got = variant_name(E, p.st, vs[0])
        want = {"Complete": ["Genuine"], "Decoy": ["Decoy"]}.get(got)
        seen.add(got)
        c.ob("handshake completes exactly on a genuine packet", "receive_version", both_possible(p.st, b) == want,
             f"{where(p)}: {got} with header {both_possible(p.st, b)}")
    c.ob("both outcomes are reachable", "receive_version", seen == {"Complete", "Decoy"}, str(seen))


def sealed(c, feat, name):
    k = c.fn(feat, name)
    cr = c.crate(feat)
    ty = tyid(cr, PT)
    body = cr.body(k)
    idx = [i for i in range(1, body.argc + 1) if body.locals[i][0] == ty]
    if len(idx) != 1:
        raise Missing(f"{name}: packet type parameter")
    for i, v in enumerate(cr.types[ty]["variants"]):
        E = c.run(feat, k, args={idx[0]: ("A", ty, i, ())})
        n = 0
        for p in E.paths:
            for e in events(p, "aead_enc"):
                if is_rekey(e):
                    continue
                n += 1
                b = byte0(p.st, E, e.a["segs"])
                want = 128 if v["n"] == "Decoy" else 0
                c.ob("sealed header byte is the requested type", f"{name}({v['n']}) [{feat}]",
                     isinstance(b, Lin) and p.st.eqz(b - want), f"{where(p)}: header byte {b}")
        c.floor(f"sealed packets of {name}", n, 1)


def payloads(c, feat, name, mod, coro):
    """payloads delivered by a session reader, and payloads made by the caller"""
    k = c.coroutine(feat, name, mod) if coro else c.fn(feat, name, mod)
    E = c.run(feat, k)
    ty_k = c.fn(feat, "Payload::packet_type")
    co_k = c.fn(feat, "Payload::contents")
    n = 0
    for p in E.paths:
        if p.kind != "ret":
            continue
        v = find_adt(E, p.ret, "bip324::io::Payload")
        if not v:
            continue
        ds = [e for e in events(p, "aead_dec") if e.a["ok"]]
        if not c.ob("a delivered payload was opened", f"{mod}::{name}", bool(ds), where(p)):
            continue
        n += 1
        d = ds[-1]
        b = byte0(p.st, E, [(d.a["len"], "t", d.a["pt"], ZERO)])
        for q in c.then(E, p, ty_k, {1: ref(v[0])}):
            got = variant_name(E, q.st, q.ret) if q.kind == "ret" else "panic " + str(q.why)
            c.ob("payload type is bit 7 of the opened header", f"{mod}::{name}", both_possible(q.st, b) == [got],
                 f"{got} but header allows {both_possible(q.st, b)}")
    c.floor(f"payloads delivered by {mod}::{name}", n, 1)


def made(c, feat):
    ty_k = c.fn(feat, "Payload::packet_type")
    for kind, want in (("genuine", "Genuine"), ("decoy", "Decoy")):
        k = c.fn(feat, "Payload::" + kind)
        E = c.run(feat, k)
        n = 0
        for p in E.paths:
            v = find_adt(E, p.ret, "bip324::io::Payload") if p.kind == "ret" else None
            if not v:
                c.ob("constructor returns", kind, False, where(p))
                continue
            for q in c.then(E, p, ty_k, {1: ref(v[0])}):
                n += 1
                got = variant_name(E, q.st, q.ret) if q.kind == "ret" else "panic"
                c.ob("constructed payload keeps its type", kind, got == want, f"Payload::{kind} reports {got}")
        c.floor("constructed payloads", n, 1)


def check(c):
    enumerate_types(c, "core")
    for name in ("InboundCipher::decrypt", "InboundCipher::decrypt_in_place"):
        c.guard(name, opened, c, "core", name)
    c.guard("decrypt_to_vec", opened, c, "std", "InboundCipher::decrypt_to_vec")
    c.guard("receive_version", version, c, "core")
    c.guard("encrypt", sealed, c, "core", "OutboundCipher::encrypt")
    c.guard("encrypt_to_vec", sealed, c, "std", "OutboundCipher::encrypt_to_vec")
    c.guard("sync read", payloads, c, "std", "ProtocolReader::read", "io", False)
    c.guard("async read", payloads, c, "tokio", "ProtocolReader::read", "futures", True)
    c.guard("payload", made, c, "std")
