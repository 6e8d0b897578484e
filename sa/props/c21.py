"""Abstract interpretation of key generation: the secret key is followed back to its
bytes. They must be exactly one whole 32-byte draw from the given source (the operating
system seeded thread generator where none is given), and the key exchange, the message
sent to the peer and the handshake state must all use the key made of them. Every
implementation of the source interface must fill the whole destination with output of
its generator."""
from lib import *
from terms import Term


def terms(v, op, out=None, seen=None):
    """all sub-terms with this operator in a value"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, Term):
        if v.op == op:
            out.add(v)
        for a in v.args:
            terms(a, op, out, seen)
    elif isinstance(v, (tuple, list)):
        for x in v:
            terms(x, op, out, seen)
    elif isinstance(v, Lin):
        for s, _ in v.t:
            terms(s.term, op, out, seen)
    return out


def all_zero(st, draw):
    """does the path assume a draw of only zero bytes?"""
    for t, v in st.bt.items():
        if v and t.op == "eq":
            for x, y in (t.args, t.args[::-1]):
                if x.op == "B" and all(s[1] == "c" and not any(s[2]) for s in x.args[0]) and draw in terms(y, draw.op):
                    return True
    return False


def generation(c, feat, fname, source):
    k = c.fn(feat, fname)
    E = c.run(feat, k)
    name = f"{fname} [{feat}]"
    n = 0
    for p in E.paths:
        st = p.st
        if p.kind == "loop":
            continue
        fills = events(p, "rng_fill")
        if p.kind != "ret":
            c.ob("an unusable draw is an error", name, len(fills) == 1 and all_zero(st, fills[0].a["out"]), f"{where(p)}: {p.why}")
            continue
        if res(p.ret) != "ok":
            continue
        n += 1
        c.ob("one draw per handshake", name, len(fills) == 1 and not events(p, "rng_range"), f"{where(p)}: {len(fills)} draws")
        if not fills:
            continue
        f = fills[0]
        if source is None:
            src, ok = f.a["src"], False
            while isinstance(src, Term) and src.op in ("deref", "asref") and src.args:
                src = src.args[0]
            ok = isinstance(src, Term) and src.op == "arg" and src.args[0] == 3
            c.ob("the given source is used", name, ok, f"{f.where}: {f.a['src']}")
        else:
            made = [e for e in events(p, "rng_new") if e.a["out"] is f.a["src"]]
            c.ob("the system seeded thread generator is used", name, len(made) == 1 and made[0].a["kind"] in source, f"{f.where}: {f.a['src']}")
        draw = T("B", ((mk(32), "t", f.a["out"], ZERO),))
        ks = events(p, "secret_key")
        good = bool(ks) and all(same(E, st, bsegs(e.a["src"]) or (), draw.args[0]) for e in ks)
        c.ob("the secret key is exactly the draw", name, st.eq(f.a["n"], mk(32)) and good, f"{[str(e.a['src']) for e in ks]} of {f.a['out']}"[:300])
        h = p.ret[3][0]
        sks = terms(h, "sk")
        c.ob("the handshake holds only this key", name, sks == {T("sk", e.a["src"]) for e in ks}, f"{where(p)}: {sks}"[:300])
        pubs = terms(h, "es_of")
        mine = {T("es_of", T("pubkey", s)) for s in sks}
        c.ob("the public key is the secret key's", name, pubs == mine, f"{where(p)}: {pubs}"[:300])
        m = 0
        ksend = c.fn(feat, "Handshake::send_key")
        out = T("arg", "message", 2, "out")
        for q in c.then(E, p, ksend, {1: h, 3: E.mkval(out, E.crate.body(ksend).locals[3][0])}):
            if q.kind != "ret" or res(q.ret) != "ok":
                continue
            m += 1
            now = after(E, q.st, ("d", out))
            head = sublist(E, q.st, now[2], 0, 64)
            key = ((mk(64), "t", T("es_bytes", next(iter(mine))), ZERO),)
            c.ob("the key sent is the secret key's", name, same(E, q.st, head, key), f"{where(q)}: {head}"[:300])
        c.floor(f"key messages of {name}", m, 1)
    c.floor(f"handshakes from {name}", n, 1)


def sources(c, feat, least):
    n = 0
    for f in c.crate(feat).d["fns"]:
        if not f["name"].endswith(" as FillBytes>::fill_bytes") or f["key"] not in c.crate(feat).d["bodies"]:
            continue
        k = f["key"]
        b = c.crate(feat).body(k)
        if not b.local or not str(f["name"]).startswith("bip324::"):
            continue
        E = c.run(feat, k)
        for p in E.paths:
            name = f["name"]
            if p.kind != "ret":
                c.ob("filling does not fail", name, p.kind == "loop", where(p))
                continue
            n += 1
            now = after(E, p.st, ("d", argterm(E, k, 2)))
            fills = events(p, "rng_fill")
            ok = len(fills) == 1 and isinstance(now, tuple) and now[0] == "Y" and \
                same(E, p.st, now[2], ((mk(32), "t", fills[0].a["out"], ZERO),)) and p.st.eq(fills[0].a["n"], mk(32))
            c.ob("the whole destination is drawn", name, ok, f"{where(p)}: {now}"[:300])
            if fills:
                src = fills[0].a["src"]
                while isinstance(src, Term) and src.op in ("deref", "asref") and src.args:
                    src = src.args[0]
                c.ob("the draw is from the generator itself", name, isinstance(src, Term) and src.op == "arg" and src.args[0] == 1, f"{fills[0].where}: {src}")
    c.floor(f"source implementations [{feat}]", n, least)


def once(c, feat, mod):
    E = handshake_run(c, feat, mod)
    n = 0
    for p in E.paths:
        hs = events(p, "hs_new")
        if p.kind == "ret" and res(p.ret) == "ok":
            n += 1
            c.ob("every session makes its own key, once", f"{mod}::Protocol::new", len(hs) == 1, f"{where(p)}: {len(hs)}")
    c.floor(f"sessions of {mod}::Protocol::new", n, 2)


def check(c):
    for feat in ("core", "std"):
        c.guard(f"new_with_rng [{feat}]", generation, c, feat, "Handshake::new_with_rng", None)
    c.guard("new [std]", generation, c, "std", "Handshake::new", ("thread_rng", "os_rng", "osrng"))
    c.guard("sources", sources, c, "std", 2)
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        c.guard(f"{mod}::Protocol::new", once, c, feat, mod)
