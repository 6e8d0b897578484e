"""Abstract interpretation: every allocation or growth reached by the handshakes, the
session readers and vector decryption has a size that either depends on the caller's
own arguments only or is provably at most the documented limit; the garbage buffer is
provably at most the garbage limit plus one chunk whenever it grows and whenever more
data is asked for. A session reader's refusal without any failing transport or cipher
operation provably concerns a plaintext above the limit."""
from lib import *

LIMIT = 4000014
PACKET = LIMIT + 17
GARBAGE = 4111
CHUNK = 65536


def callers(x):
    """size determined by the caller's arguments (or a constant)"""
    return isinstance(x, Lin) and all(s.term.op in ("len", "verlen") for s, _ in x.t)


def sizes(c, E, ps, name, least):
    n = 0
    for p in ps:
        for e in events(p, "alloc", "grow"):
            x = e.a["n"]
            if e.a.get("refs"):
                continue        # references to what is held elsewhere
            n += 1
            if e.op == "alloc":
                c.ob("every allocation is bounded by the packet limit", name, callers(x) or PACKET in e.a["within"],
                     f"{where(p)}: {e.a['what']} of {x} bytes")
            else:
                c.ob("buffers grow to the garbage limit plus one chunk at most", name, callers(x) or GARBAGE + CHUNK in e.a["within"],
                     f"{where(p)}: {e.a['what']} to {x} bytes")
    c.floor(f"allocations of {name}", n, least)


def new(c, feat, mod):
    E = handshake_run(c, feat, mod)
    name = f"{mod}::Protocol::new"
    sizes(c, E, E.paths, name, 10)
    n = 0
    for p in E.paths:
        for e in events(p, "receive_garbage"):
            n += 1
            c.ob("the garbage buffer stays within one chunk of the limit", name, GARBAGE + CHUNK in e.a["within"], f"{where(p)}: {e.a['n']}")
    c.floor(f"garbage searches of {name}", n, 2)


def more_data(c):
    k = c.fn("core", "Handshake::receive_garbage")
    E = c.run("core", k, contract=CIPHER)
    nb, seg = slice_arg(E, k, 2)
    n = 0
    for p in oks(E):
        v = find_adt(E, p.ret, "bip324::handshake::GarbageResult")[0]
        if variant_name(E, p.st, v) == "NeedMoreData":
            n += 1
            c.ob("more data is asked for only below the garbage limit", "receive_garbage", p.st.le(nb, mk(GARBAGE - 1)), f"{where(p)}: with {nb} bytes")
    c.floor("requests for more data", n, 1)


def refusals(c, E, ps, name):
    n = m = 0
    for p in ps:
        if p.kind != "ret" or find_adt(E, p.ret, "bip324::io::Payload"):
            m += p.kind == "ret"
            continue
        bad = [e for e in p.trace() if e.op in ("read", "read_exact", "poll_read") and e.a.get("ok") is False or e.op in ("read", "poll_read") and isinstance(e.a.get("n"), Lin) and p.st.eqz(e.a["n"])]
        op = [e for e in events(p, "open") if not e.a["ok"]]
        ls = events(p, "dec_len")
        if bad or [e for e in op if not e.a.get("size")]:
            continue
        n += 1
        ok = bool(ls) and p.st.le(mk(LIMIT + 1), ls[-1].a["n"] - 16)
        c.ob("only packets above the limit are refused for their size", name, ok, f"{where(p)}: refused {ls[-1].a['n'] if ls else '-'} bytes")
    c.floor(f"size refusals of {name}", n, 1)
    c.floor(f"packets read by {name}", m, 1)


def to_vec(c):
    k = c.fn("std", "InboundCipher::decrypt_to_vec")
    E = c.run("std", k)
    n, seg = slice_arg(E, k, 2)
    m = 0
    for p in E.paths:
        for e in events(p, "alloc", "grow"):
            m += 1
            c.ob("every allocation is bounded by the plaintext limit", "decrypt_to_vec", LIMIT in e.a["within"], f"{where(p)}: {e.a['n']} bytes")
    c.floor("allocations of decrypt_to_vec", m, 2)
    for p in oks(E, "err"):
        if not events(p, "aead_dec"):
            c.ob("only packets above the limit or below a header are refused for their size", "decrypt_to_vec",
                 not p.st.where_(("and", ("ge", n - 17), ("ge", mk(LIMIT + 16) - n))), f"{where(p)}: refused {n} bytes")


def check(c):
    c.guard("io::Protocol::new", new, c, "std", "io")
    c.guard("futures::Protocol::new", new, c, "tokio", "futures")
    c.guard("receive_garbage", more_data, c)
    c.guard("decrypt_to_vec", to_vec, c)
    k = c.fn("std", "ProtocolReader::read", "io")

    def sync():
        E = c.run("std", k, contract=CIPHER)
        sizes(c, E, E.paths, "io::read", 2)
        refusals(c, E, E.paths, "io::read")

    def async_():
        E, ps = fresh_async_read(c, mode="retry")
        sizes(c, E, ps, "futures::read", 2)
        refusals(c, E, ps, "futures::read")
    c.guard("io::read", sync)
    c.guard("futures::read", async_)
