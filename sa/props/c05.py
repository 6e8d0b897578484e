"""Induction over the packet number by abstract interpretation: the cipher value
the handshake creates is the base case; one operation on the state describing
packet n = 224q + r (q, r symbolic, r <= 222 and r = 223 separately) must use the
epoch's key with nonce (r, q), the length keystream at 3r under (0, q), rekey exactly
at r = 223 in the prescribed way, and end in the state describing n + 1. No packet
number up to 2^64 - 2 may overflow a counter or panic."""
from cipherlib import *

OUT = {"core": [("OutboundCipher::encrypt", "pl")],
       "std": [("OutboundCipher::encrypt", "pl"), ("OutboundCipher::encrypt_to_vec", "pl")]}
IN = {"core": [("InboundCipher::decrypt_in_place", "p"), ("InboundCipher::decrypt", "p"), ("InboundCipher::decrypt_packet_len", "l")],
      "std": [("InboundCipher::decrypt_in_place", "p"), ("InboundCipher::decrypt_to_vec", "p"), ("InboundCipher::decrypt_packet_len", "l")]}


def direction(c, feat, which, init, E0, ops, joint):
    I = Induct(c, which, init, E0, [(feat, n, w) for n, w in ops], joint)
    I.probe = {w: (feat, n) for n, w in reversed(ops)}
    return I.solve()


def only_ciphers(c, feat, name, mod=None, coro=False):
    """above the ciphers nothing seals, opens or rekeys by itself"""
    k = c.coroutine(feat, name, mod) if coro else c.fn(feat, name, mod)
    E = c.run(feat, k, contract=CIPHER)
    raw = 0
    for p in E.paths:
        raw += len(events(p, "aead_enc", "aead_dec", "keystream"))
    c.ob("packets are sealed and opened through the ciphers only", f"{name} [{feat}]", raw == 0, f"{raw} raw cipher operations")


def fresh_keys(c):
    """the four keys of a session are four different derived secrets"""
    for inb, outb, E, p, role in initial(c, "core"):
        ks = [x for v in (inb, outb) for x in leaves(E, v) if x[1] in ("key", "bytes")]
        segs = [bsegs(x[2][1].args[0]) if x[1] == "key" and x[2][1].op == "key" else x[2][2] if x[1] == "bytes" else None for x in ks]
        c.ob("four session keys", "send_version", len(ks) == 4 and all(segs), f"{where(p)}: {len(ks)} keys")
        c.ob("no key serves two purposes", "send_version",
             len({repr(E.merge(p.st, s)) for s in segs if s}) == len(ks), f"{where(p)}: {segs}"[:500])


def check(c):
    for feat in ("core", "std"):
        inits = initial(c, feat)
        shapes_in = {repr(shape(x[0])) for x in inits}
        shapes_out = {repr(shape(x[1])) for x in inits}
        c.ob("every session starts at packet 0", f"send_version [{feat}]", len(shapes_in) == 1 and len(shapes_out) == 1,
             f"{shapes_in} {shapes_out}"[:400])
        inb, outb, E0, p, role = inits[0]
        c.guard(f"sender [{feat}]", direction, c, feat, f"outbound [{feat}]", outb, E0, OUT[feat], True)
        c.guard(f"receiver [{feat}]", direction, c, feat, f"inbound [{feat}]", inb, E0, IN[feat], False)
    c.guard("keys", fresh_keys, c)
    for name in ("Handshake::send_version", "Handshake::receive_version", "Handshake::decrypt_packet_len"):
        c.guard(name, only_ciphers, c, "core", name)
