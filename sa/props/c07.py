"""Abstract interpretation of every receiving operation: no path may end in a panic
(failed bounds check, overflow, unwrap, explicit panic or assertion). The ciphers are
analysed in the state describing an arbitrary packet number below 2^64 - 1 with
arbitrary ciphertext, buffer and associated data; the handshake steps from an arbitrary
state with arbitrary bytes; the public blocking and asynchronous constructors and the
readers over a transport that delivers arbitrary bytes in arbitrary chunks, with the
asynchronous read dropped and restarted at any suspension point and called again after
an error; and everything a caller can do with what they return."""
import props.c05 as c05
import props.c11 as c11
from cipherlib import *


def quiet(c, E, ps, name):
    n = 0
    for p in ps:
        n += 1
        if p.kind == "panic":
            c.ob("no path panics", name, False, f"{where(p)}: {p.why}")
    c.ob("no path panics", name, n > 0, "no paths")
    c.ob("everything reached is analysed", name, not E.unknown, f"unmodelled: {dict(E.unknown)}")


def step(c, feat, name):
    k = c.fn(feat, name)
    E = c.run(feat, k, contract=CIPHER)
    quiet(c, E, E.paths, f"{name} [{feat}]")


def new(c, feat, mod):
    E = handshake_run(c, feat, mod)
    quiet(c, E, E.paths, f"{mod}::Protocol::new")


def payload(c, feat, E, p, v, name):
    for m in ("Payload::contents", "Payload::packet_type", "<Payload as Clone>::clone"):
        qs = c.then(E, p, c.fn(feat, m), {1: ref(v)})
        quiet(c, E, qs, f"{m} of {name}")


def reader_io(c):
    k = c.fn("std", "ProtocolReader::read", "io")
    E = c.run("std", k, contract=CIPHER)
    quiet(c, E, E.paths, "io::read")
    n = 0
    for p in E.paths:
        v = find_adt(E, p.ret, "bip324::io::Payload") if p.kind == "ret" else None
        if v:
            n += 1
            payload(c, "std", E, p, v[0], "a received payload")
    c.floor("payloads received by io::read", n, 1)


def reader_async(c):
    E, ps = fresh_async_read(c, mode="retry")
    quiet(c, E, ps, "futures::read")
    n = m = 0
    for p in ps:
        if p.kind != "ret":
            continue
        v = find_adt(E, p.ret, "bip324::io::Payload")
        if v:
            n += 1
            payload(c, "tokio", E, p, v[0], "a received payload")
        else:
            m += 1
    c.floor("payloads received by futures::read", n, 1)
    c.floor("errors of futures::read", m, 1)


def ciphers(c):
    for feat in ("core", "std"):
        sub = type(c)(c.prop, c.tier)
        inits = initial(sub, feat)
        inb, outb, E0, p, role = inits[0]
        c05.direction(sub, feat, f"inbound [{feat}]", inb, E0, c05.IN[feat], False)
        bad = {k: d for k, d in sub.viols}
        steps = set()
        for rule, target, ok in sub.obs:
            if rule in ("no packet number below 2^64 - 1 panics", "a successful path exists", "the counter's type holds every packet number",
                        "analysis must succeed") or not ok and rule.startswith("an invariant"):
                c.ob(rule, target, ok, bad.get(f"{rule}|{target}", ""))
                steps.add(target)
        c.floor(f"cipher operations [{feat}]", len(steps), 6)
        c.functions |= sub.functions
        c.paths += sub.paths
        c.sites += sub.sites
        c.entries += sub.entries


OTHER = ("<Error as Debug>::fmt", "<Error as Display>::fmt", "<Error as Error>::source", "<Error as From>::from", "<Error as PartialEq>::eq",
         "<ProtocolError as Debug>::fmt", "<ProtocolError as Display>::fmt", "<ProtocolError as Error>::source", "<ProtocolError as From>::from",
         "<ProtocolFailureSuggestion as Debug>::fmt", "ProtocolError::eof", "<ProtocolSessionReader as Read>::read",
         "<ProtocolSessionReader as AsyncRead>::poll_read", "ProtocolReader::into_inner", "Protocol::into_split", "Payload::genuine", "Payload::decoy",
         "PacketType::from_byte", "PacketType::to_byte", "<PacketType as Debug>::fmt", "CipherSession::id", "CipherSession::inbound",
         "CipherSession::outbound", "CipherSession::into_split", "Handshake::magic", "Handshake::role")


READS = ("<ProtocolSessionReader as Read>::read", "<ProtocolSessionReader as AsyncRead>::poll_read")


def within(E, k, p, mod):
    """can this path be taken with a reader whose position is within its left-over bytes?"""
    st, before, now = c11.around(E, p, argterm(E, k, 1), mod)
    b = c11.position(before)
    return b is None or bool(list(st.where_(("ge", b[0] - b[1]))))


def within_kept(c, feat, E, k, mod, nm):
    """a reader starts and stays that way"""
    for p in E.paths:
        if p.kind == "ret" and within(E, k, p, mod):
            st, before, now = c11.around(E, p, argterm(E, k, 1), mod)
            b, a = c11.position(before), c11.position(now)
            for st in st.where_(("ge", b[0] - b[1])) if b else []:
                c.ob("the position stays within the left-over bytes", f"{mod} {nm}", a is not None and st.le(a[1], a[0]), f"{where(p)}: {a}")
    E2 = handshake_run(c, feat, mod, [c11.ghost], "c11")
    n = 0
    for p in E2.paths:
        for e in events(p, "sess_open"):
            n += 1
            c.ob("a reader starts with left-over bytes of the handshake", f"{mod}::Protocol::new", e.a.get("left"), f"{e.where}: {str(e.a['log'])[:300]}")
    c.floor(f"readers of {mod}::Protocol::new", n, 2)


def others(c, feat):
    """small exported functions a receiver calls on results and errors"""
    cr = c.crate(feat)
    n = 0
    for f in cr.d["fns"]:
        nm = f["name"].split("bip324::", 1)[1] if f["name"].startswith("bip324::") else f["name"]
        if nm in OTHER and f["exported"] and f["key"] in cr.d["bodies"] and not f["async"]:
            n += 1
            E = c.run(feat, f["key"], contract=CIPHER)
            ps = E.paths
            mod = f["vpath"].split("::")[1]
            if nm in READS:
                ps = [p for p in ps if p.kind != "panic" or within(E, f["key"], p, mod)]
                within_kept(c, feat, E, f["key"], mod, nm)
            quiet(c, E, ps, f"{mod} {nm} [{feat}]")
    c.floor(f"functions on results and errors [{feat}]", n, 20)


def check(c):
    c.guard("ciphers", ciphers, c)
    for name in ("receive_key", "receive_garbage", "decrypt_packet_len", "receive_version"):
        for feat in ("core", "std"):
            c.guard(name, step, c, feat, "Handshake::" + name)
    c.guard("io::Protocol::new", new, c, "std", "io")
    c.guard("futures::Protocol::new", new, c, "tokio", "futures")
    c.guard("io::read", reader_io, c)
    c.guard("futures::read", reader_async, c)
    for feat in ("std", "tokio"):
        c.guard("others", others, c, feat)
