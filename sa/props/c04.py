"""Abstract interpretation of a whole handshake, step after step, for each role: the
key exchange, the HKDF calls and every use of a secret (terminator written, terminator
searched, keys of the four ciphers, session id) are values over the inputs, and are
compared with the BIP324 table: which label, which half, which side."""
from lib import *
from terms import Term

SALT = b"bitcoin_v2_shared_secret"
TAG = b"bip324_ellswift_xonly_ecdh"


def const(b):
    return ((mk(len(b)), "c", b, None),)


def chain(c, feat, ri):
    """[(steps..)]: every way through a complete handshake in one role"""
    cr = c.crate(feat)
    k = {n: c.fn(feat, "Handshake::" + n) for n in ("new_with_rng", "send_key", "receive_key", "send_version", "receive_garbage", "decrypt_packet_len", "receive_version")}

    def setup(E, st):
        for i in range(1, cr.body(k["new_with_rng"]).argc + 1):
            v = st.mem[("l", st.stack[0].uid, i)]
            if adt_path(E, v) == "bip324::Role":
                st.var[v[1]] = ri
    E = c.run(feat, k["new_with_rng"], setup=setup, tag=f"c04-{ri}")
    none = lambda key, i: ("A", cr.body(key).locals[i][0], 0, ())
    ps = [(p, p.ret[3][0]) for p in oks(E)]
    c.floor(f"new handshakes [{feat}]", len(ps), 1)
    out = []
    for p, h in ps:
        out += [dict(E=E, new=p, h0=h)]
    out = follow(c, E, out, "new", "key", lambda d: c.then(E, d["new"], k["send_key"], {1: d["h0"], 2: none(k["send_key"], 2)}),
                 lambda E, p: p.ret[3][0])
    out = follow(c, E, out, "key", "rkey", lambda d: c.then(E, d["key"], k["receive_key"], {1: d["key_v"]}), lambda E, p: p.ret[3][0])
    out = follow(c, E, out, "rkey", "ver", lambda d: c.then(E, d["rkey"], k["send_version"], {1: d["rkey_v"], 2: E.mkval(OUT, cr.body(k["send_version"]).locals[2][0]), 3: none(k["send_version"], 3)}),
                 lambda E, p: p.ret[3][0])
    out = follow(c, E, out, "ver", "garb", lambda d: c.then(E, d["ver"], k["receive_garbage"], {1: d["ver_v"]}), found)
    out = follow(c, E, out, "garb", "len", lambda d: c.then(E, d["garb"], k["decrypt_packet_len"], {1: ref(d["garb_v"])}), None)
    out = follow(c, E, out, "len", "done", lambda d: c.then(E, d["len"], k["receive_version"], {1: d["garb_v"]}), complete)
    return E, out, k


def follow(c, E, ds, prev, name, step, pick):
    out = []
    for d in ds:
        for p in step(d):
            if p.kind != "ret" or res(p.ret) != "ok":
                continue
            v = pick(E, p) if pick else None
            if pick and v is None:
                continue
            out.append({**d, name: p, name + "_v": v})
    c.floor(f"ways through step {name}", len(out), 1)
    return out


def found(E, p):
    v = p.ret[3][0]
    if variant_name(E, p.st, v) != "FoundGarbage":
        return None
    return next((x for x in v[3] if isinstance(x, tuple) and adt_path(E, x) == "bip324::handshake::Handshake"), None)


def complete(E, p):
    v = p.ret[3][0]
    if variant_name(E, p.st, v) != "Complete":
        return None
    return v[3][0]


def label(t, prk):
    """(label, offset, length) of a slice of an expansion under prk"""
    if t[1] != "t" or t[2].op != "okm" or t[2].args[0] is not prk:
        return None
    s = bsegs(t[2].args[1])
    if not s or len(s) != 1 or s[0][1] != "c":
        return None
    return s[0][2].decode("latin1")


def secret(E, st, segs, prk, want, off, n, total):
    """are these bytes [off, off+n) of the expansion labelled want?"""
    segs = E.merge(st, tuple(segs))
    if len(segs) != 1 or label(segs[0], prk) != want:
        return False
    o = segs[0][2].args[2]
    return st.eq(segs[0][0], mk(n)) and st.eq(segs[0][3], mk(off)) and st.eq(o if isinstance(o, Lin) else mk(o), mk(total))


OUT = T("arg", "message", 2, "out")


def keysegs(t):
    while t.op == "key" and t.args:
        t = t.args[0]
    s = bsegs(t)
    return s if s is not None else ((mk(32), "t", t, ZERO),)


def tail(before, after_, *ops):
    """events of a step that are not of the steps before"""
    n = len(before.trace())
    return [e for e in after_.trace()[n:] if e.op in ops]


def role(c, feat, ri, rname):
    E, ds, k = chain(c, feat, ri)
    own, peer = ("initiator", "responder") if rname == "Initiator" else ("responder", "initiator")
    name = f"{rname} [{feat}]"
    for d in ds:
        st = d["done"].st
        ec = events(d["rkey"], "ecdh")
        hk = events(d["rkey"], "hkdf")
        if not c.ob("one key exchange and one extraction", name, len(ec) == 1 and len(hk) == 1, f"{where(d['rkey'])}: {len(ec)}, {len(hk)}"):
            continue
        e, h = ec[0].a, hk[0].a
        sk = [x for x in events(d["new"], "secret_key")]
        mine = T("es_of", T("pubkey", T("sk", sk[-1].a["src"])))
        a, b = e["a"], e["b"]
        first, second = (a, b) if own == "initiator" else (b, a)
        c.ob("the own key takes the place of its role", name, first is mine, f"{ec[0].where}: {first}")
        c.ob("the peer's key takes the other place", name, peer_key(E, st, second), f"{ec[0].where}: {second}")
        c.ob("the own secret key is used", name, e["sk"] is T("sk", sk[-1].a["src"]), f"{ec[0].where}: {e['sk']}")
        c.ob("the party names the own side", name, party(e["party"]) == ("A" if own == "initiator" else "B"), f"{ec[0].where}: {e['party']}")
        tg = bsegs(e["data"]) if isinstance(e["data"], Term) else None
        tg = tg or (bsegs(e["data"].args[0]) if isinstance(e["data"], Term) and e["data"].op == "some" else None)
        c.ob("the exchange is bound to BIP324", name, tg is not None and same(E, st, tg, const(TAG)), f"{ec[0].where}: {e['data']}")
        salt = bsegs(h["salt"]) or ()
        magic = sublist(E, st, salt, 24, 4) if st.eq(seglen(salt), mk(28)) else ()
        c.ob("the salt is the protocol label and the magic", name, st.eq(seglen(salt), mk(28)) and same(E, st, sublist(E, st, salt, 0, 24), const(SALT))
             and given_magic(E, st, magic), f"{hk[0].where}: {h['salt']}")
        ikm = bsegs(h["ikm"]) or ()
        c.ob("the extraction uses the whole shared secret", name, whole_secret(E, st, ikm, e["out"]), f"{hk[0].where}: {h['ikm']}")
        prk = h["prk"]
        # the terminator sent
        now = after(E, d["ver"].st, ("d", OUT))
        half = 0 if own == "initiator" else 16
        sent = sublist(E, d["ver"].st, now[2], 0, 16) if now and now[0] == "Y" else ()
        c.ob("the own garbage terminator is sent", name, secret(E, st, sent, prk, "garbage_terminators", half, 16, 32), f"{where(d['ver'])}: {sent}"[:300])
        # the terminator searched
        hits = [t for t, v in d["garb"].st.bt.items() if v and t.op == "eq" and any(is_okm(x) for x in t.args)]
        good = [t for t in hits if any(x.op == "B" and secret(E, st, x.args[0], prk, "garbage_terminators", 16 - half, 16, 32) for x in t.args)]
        c.ob("the peer's garbage terminator is searched", name, len(hits) >= 1 and len(good) == len(hits), f"{where(d['garb'])}: {hits}"[:300])
        # outbound keys
        ks = [x for x in tail(d["rkey"], d["ver"], "keystream")]
        en = tail(d["rkey"], d["ver"], "aead_enc")
        pk = [x for x in en if not is_rekey(x)]
        c.ob("the version packet is sealed", name, bool(pk) and bool(ks), f"{where(d['ver'])}")
        for x in pk:
            c.ob("packets are sealed under the own packet key", name, secret(E, st, keysegs(x.a["key"]), prk, own + "_P", 0, 32, 32), f"{x.where}: {x.a['key']}"[:300])
        for x in ks:
            c.ob("lengths are sealed under the own length key", name, secret(E, st, keysegs(x.a["key"]), prk, own + "_L", 0, 32, 32), f"{x.where}: {x.a['key']}"[:300])
        # inbound keys
        ks = tail(d["garb"], d["len"], "keystream")
        de = tail(d["len"], d["done"], "aead_dec")
        c.ob("a packet is opened", name, bool(ks) and bool(de), where(d["done"]))
        for x in de:
            c.ob("packets are opened under the peer's packet key", name, secret(E, st, keysegs(x.a["key"]), prk, peer + "_P", 0, 32, 32), f"{x.where}: {x.a['key']}"[:300])
        for x in ks:
            c.ob("lengths are opened under the peer's length key", name, secret(E, st, keysegs(x.a["key"]), prk, peer + "_L", 0, 32, 32), f"{x.where}: {x.a['key']}"[:300])
        session(c, feat, E, d, prk, own, peer, name)
    c.floor(f"complete handshakes as {name}", len(ds), 1)


def session(c, feat, E, d, prk, own, peer, name):
    """the session handed out: its id and its two directions"""
    st = d["done"].st
    ki = c.fn(feat, "CipherSession::id")
    for p in c.then(E, d["done"], ki, {1: ref(d["done_v"])}):
        s = contents(E, p.st, p.ret)
        c.ob("the session id is its own expansion", name, s is not None and secret(E, p.st, s, prk, "session_id", 0, 32, 32), f"{where(p)}: {p.ret}"[:300])
    ksplit = c.fn(feat, "CipherSession::into_split")
    for p in c.then(E, d["done"], ksplit, {1: d["done_v"]}):
        outs = find_adt(E, p.ret, "bip324::OutboundCipher")
        ins = find_adt(E, p.ret, "bip324::InboundCipher")
        if not c.ob("the session hands out both directions", name, len(outs) == 1 and len(ins) == 1, where(p)):
            continue
        for v, key, side, what in ((outs[0], "OutboundCipher::encrypt", own, "sealed"), (ins[0], "InboundCipher::decrypt_packet_len", peer, "opened"),
                                   (ins[0], "InboundCipher::decrypt", peer, "opened")):
            n = 0
            for q in c.then(E, p, c.fn(feat, key), {1: ref(v)}):
                for x in tail(p, q, "aead_enc", "aead_dec", "keystream"):
                    if is_rekey(x) if x.op.startswith("aead") else x.a["raw"]:
                        continue
                    n += 1
                    pos = "_P" if x.op.startswith("aead") else "_L"
                    ks = keysegs(x.a["key"])
                    c.ob(f"session packets are {what} under the {'own' if side == own else 'peer'}'s keys", name, secret(E, q.st, ks, prk, side + pos, 0, 32, 32)
, f"{x.where}: {x.a['key']}"[:300])
            c.floor(f"{key} operations", n, 1)


def is_okm(x):
    return x.op == "B" and any(s[1] == "t" and s[2].op == "okm" for s in x.args[0])


def party(p):
    if isinstance(p, Term):
        return {0: "A", 1: "B"}.get(p.args[0]) if p.op == "A" else None
    if isinstance(p, tuple) and p[0] == "A":
        return {0: "A", 1: "B"}.get(p[2])
    return {0: "A", 1: "B"}.get(p, p if p in ("A", "B") else None)


def peer_key(E, st, t):
    """the key the peer sent: built from the whole argument of receive_key"""
    if t.op != "ellswift":
        return False
    s = E.merge(st, tuple(bsegs(t.args[0]) or ()))
    return len(s) == 1 and s[0][1] == "t" and s[0][2].op == "arg" and str(s[0][2].args[0]).startswith("then") and st.eq(s[0][0], mk(64)) and st.eqz(s[0][3])


def given_magic(E, st, s):
    s = E.merge(st, tuple(s))
    if len(s) != 1 or s[0][1] != "t" or not st.eqz(s[0][3]):
        return False
    t = s[0][2]
    while isinstance(t, Term) and t.op in ("deref", "asref") and t.args:
        t = t.args[0]
    return isinstance(t, Term) and t.op == "arg" and t.args[0] == 1


def whole_secret(E, st, s, out):
    s = E.merge(st, tuple(s))
    if len(s) != 1 or s[0][1] != "t" or not st.eq(s[0][0], mk(32)) or not st.eqz(s[0][3]):
        return False
    t = s[0][2]
    while isinstance(t, Term) and t is not out and t.op in ("deref", "ssref", "ss_bytes") and t.args:
        t = t.args[0]
    return t is out


def interface(c, feat, mod):
    """the constructors of sessions pass on the caller's magic and role"""
    E = handshake_run(c, feat, mod)
    k = c.fn(feat, "Protocol::new", mod)
    body = E.crate.body(k)
    name = f"{mod}::Protocol::new"
    n = 0
    for p in E.paths:
        for e in events(p, "hs_new"):
            if not e.a["ok"]:
                continue
            n += 1
            c.ob("the session is for the caller's network and role", name, from_arg(e.a["magic"], 1) and from_arg(e.a["role"], 2), f"{e.where}: {e.a}"[:300])
    c.floor(f"handshakes begun by {name}", n, 1)


def from_arg(t, i):
    """the value of argument i, also as captured by an async body"""
    while isinstance(t, Term) and t.op in ("deref", "asref") and t.args:
        t = t.args[0]
    if isinstance(t, Term) and t.op == "arg":
        return t.args[0] == i
    return isinstance(t, Term) and t.op == "f" and t.args[2] == i - 1 and isinstance(t.args[0], Term)


def check(c):
    for feat in ("core", "std"):
        cr = c.crate(feat)
        for i, v in enumerate(cr.types[tyid(cr, "bip324::Role")]["variants"]):
            c.guard(f"{v['n']} [{feat}]", role, c, feat, i, v["n"])
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        c.guard(f"{mod}::Protocol::new", interface, c, feat, mod)
