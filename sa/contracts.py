"""Contracts of the repository's own public handshake and cipher interface.

They are used (assume) when the I/O layers above are analysed; each of them is
established (guarantee) from the bodies by the checks named in DESIGN.md."""
from terms import T, lin, mk, sym
from engine import ZERO, ONE, UNIT, ISIZE_MAX, Imprecise, mkb, seglen, tseg, tup, valterm
import models as mo
from models import A, content, optval, targ, write_seq, segs_of, seqloc


def vindex(E, ty, name):
    for i, v in enumerate(E.ty(ty)["variants"]):
        if v["n"] == name:
            return i
    raise Imprecise(f"variant {name} not found")


def mkenum(E, ty, name, **fields):
    i = vindex(E, ty, name)
    fs = E.ty(ty)["variants"][i]["f"]
    vals = []
    for j, f in enumerate(fs):
        if f[0] in fields:
            vals.append(fields[f[0]])
        elif ("_%d" % j) in fields:
            vals.append(fields["_%d" % j])
        else:
            raise Imprecise(f"field {f[0]} of {name}")
    return ("A", ty, i, tuple(vals))


def fldty(E, ty, name, j):
    i = vindex(E, ty, name)
    f = E.ty(ty)["variants"][i]["f"]
    return f[j][1] if isinstance(j, int) else next(x[1] for x in f if x[0] == j)


def opaque_err(E, s, cs, hint):
    return A(E, cs, 1, ("T", s.fresh(E.site(s), hint), targ(E, cs, 1)))


def selfterm(v):
    return valterm(v)


def hs_new(E, st, avs, cs, ft):
    s = st.fork()
    st.ev("hs_new", ok=True, magic=valterm(avs[0]), role=valterm(avs[1]))
    s.ev("hs_new", ok=False)
    return [(st, A(E, cs, 0, ("T", T("hs0", valterm(avs[0]), valterm(avs[1])), targ(E, cs)))), (s, opaque_err(E, s, cs, "hserr"))]


def glen(E, st, g):
    """[(len, state)] of an Option<&[u8]>"""
    out = []
    for i, p, s in optval(E, st, g):
        out.append((ZERO if i == 0 else seqloc(E, s, p)[1], s))
    return out


def send_key_len(E, st, avs, cs, ft):
    return [(s, n + 64) for n, s in glen(E, st, avs[0])]


def optterm(E, st, g):
    for i, p, s in optval(E, st, g):
        return T("none") if i == 0 else T("some", content(E, s, p))


def send_key(E, st, avs, cs, ft):
    out = []
    for n, s in glen(E, st, avs[1]):
        g = optterm(E, s, avs[1])
        loc, bl = seqloc(E, s, avs[2])
        e = s.fork()
        e.ev("send_key", ok=False)
        out.append((e, opaque_err(E, e, cs, "hserr")))
        for s2 in s.where_(("and", ("ge", bl - n - 64), ("ge", mk(4095) - n))):
            t = T("keymsg", selfterm(avs[0]), g)
            segs = segs_of(E, s2, avs[2])
            write_seq(E, s2, avs[2], (tseg(n + 64, t),) + tuple(E.sub(s2, segs, n + 64, bl - n - 64)))
            s2.ev("send_key", ok=True, garbage=g, n=n + 64, out=t)
            out.append((s2, A(E, cs, 0, ("T", T("hs1", selfterm(avs[0]), g), targ(E, cs)))))
    return out


def receive_key(E, st, avs, cs, ft):
    s = st.fork()
    k = content(E, st, avs[1]) if avs[1][0] in ("Y", "R", "V") else valterm(avs[1])
    st.ev("receive_key", ok=True, key=k)
    s.ev("receive_key", ok=False, key=k)
    return [(st, A(E, cs, 0, ("T", T("hs2", selfterm(avs[0]), k), targ(E, cs)))), (s, opaque_err(E, s, cs, "hserr"))]


def decoys_term(E, st, d):
    for i, p, s in optval(E, st, d):
        return T("none") if i == 0 else T("some", content(E, s, p))


def vlen(E, st, d):
    out = []
    for i, p, s in optval(E, st, d):
        t = T("none") if i == 0 else T("some", content(E, s, p))
        out.append((lin(sym(T("verlen", t), 36, ISIZE_MAX)) if i else mk(36), t, s))
    return out


def send_version_len(E, st, avs, cs, ft):
    return [(s, n) for n, t, s in vlen(E, st, avs[0])]


def send_version(E, st, avs, cs, ft):
    out = []
    for n, d, s in vlen(E, st, avs[2]):
        loc, bl = seqloc(E, s, avs[1])
        e = s.fork()
        e.ev("send_version", ok=False)
        out.append((e, opaque_err(E, e, cs, "hserr")))
        for s2 in s.where_(("ge", bl - n)):
            t = T("vermsg", selfterm(avs[0]), d)
            segs = segs_of(E, s2, avs[1])
            write_seq(E, s2, avs[1], (tseg(n, t),) + tuple(E.sub(s2, segs, n, bl - n)))
            s2.ev("send_version", ok=True, decoys=d, n=n, out=t)
            out.append((s2, A(E, cs, 0, ("T", T("hs3", selfterm(avs[0]), d), targ(E, cs)))))
    return out


def receive_garbage(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[1])
    b = content(E, st, avs[1])
    gty = targ(E, cs)
    out = []
    for s in st.where_(("ge", n - 16)):
        c = lin(sym(s.fresh(E.site(s), "consumed"), 16, 4111))
        for s2 in s.where_(("ge", n - c)):
            s2.ev("receive_garbage", res="found", buf=b, n=n, consumed=c)
            hty = fldty(E, gty, "FoundGarbage", "handshake")
            h = ("T", T("hs4", selfterm(avs[0]), b, c), hty)
            out.append((s2, A(E, cs, 0, mkenum(E, gty, "FoundGarbage", handshake=h, consumed_bytes=c))))
    for s in st.where_(("ge", mk(4110) - n)):
        s.ev("receive_garbage", res="more", buf=b, n=n)
        h = avs[0]
        out.append((s, A(E, cs, 0, mkenum(E, gty, "NeedMoreData", _0=h))))
    e = st.fork()
    e.ev("receive_garbage", res="err", buf=b, n=n)
    out.append((e, opaque_err(E, e, cs, "hserr")))
    return out


def hs_packet_len(E, st, avs, cs, ft):
    loc = mo.auto(E, st, avs[0])
    h = E.read(st, loc)
    k = content(E, st, avs[1]) if avs[1][0] in ("Y", "R", "V") else valterm(avs[1])
    e = st.fork()
    e.ev("dec_len", ok=False, bytes=k, who="hs")
    n = lin(sym(T("plen", valterm(h), k), 17, 2 ** 24 + 16))
    E.write(st, loc, ("T", T("advlen", valterm(h)), h[2] if h[0] == "T" else h[1]))
    st.ev("dec_len", ok=True, bytes=k, n=n, who="hs")
    return [(st, A(E, cs, 0, n)), (e, opaque_err(E, e, cs, "hserr"))]


def receive_version(E, st, avs, cs, ft):
    b = content(E, st, avs[1])
    loc, n = seqloc(E, st, avs[1])
    vty = targ(E, cs)
    out = []
    for res in ("Complete", "Decoy", None):
        s = st.fork()
        s.ev("receive_version", res=res, packet=b)
        t = s.fresh(E.site(s), "opened")
        write_seq(E, s, avs[1], (tseg(n, t),))
        if res is None:
            out.append((s, opaque_err(E, s, cs, "hserr")))
            continue
        fty = fldty(E, vty, res, 0)
        v = ("T", T("cipher" if res == "Complete" else "hs4n", selfterm(avs[0]), b), fty)
        i = vindex(E, vty, res)
        try:
            s.assume(("ge", n - 17))
        except Exception:
            continue
        out.append((s, A(E, cs, 0, ("A", vty, i, (v,)))))
    return out


# ---------------------------------------------------------------- cipher API
def c_packet_len(E, st, avs, cs, ft):
    loc = mo.auto(E, st, avs[0])
    h = E.read(st, loc)
    k = content(E, st, avs[1]) if avs[1][0] in ("Y", "R", "V") else valterm(avs[1])
    n = lin(sym(T("plen", valterm(h), k), 17, 2 ** 24 + 16))
    E.write(st, loc, ("T", T("advlen", valterm(h)), h[2] if h[0] == "T" else h[1]))
    st.ev("dec_len", ok=True, bytes=k, n=n, cipher=valterm(h))
    return n


def opt_aad(E, st, v):
    """[(term, state)]"""
    out = []
    for i, p, s in optval(E, st, v):
        out.append((T("B", ()) if i == 0 else content(E, s, p), s))
    return out


def _open(E, st, cs, h, loc, ct, n, aad, kind, errok=True):
    """(ok state, err state, plaintext term)"""
    s = st.fork()
    hty = h[2] if h[0] == "T" else h[1]
    pt = T("opened", valterm(h), ct, aad)
    E.write(s, loc, ("T", T("advpkt", valterm(h)), hty))
    s.ev("open", ok=True, cipher=valterm(h), ct=ct, aad=aad, pt=pt, n=n, via=kind)
    e = st.fork()
    e.ev("open", ok=False, cipher=valterm(h), ct=ct, aad=aad, via=kind)
    return s, e, pt


def ptype(E, st, pt, ty):
    """packet type of an opened packet: bit 7 of its first byte"""
    b = lin(sym(T("elem", pt, ZERO), 0, 255))
    out = []
    for nm, c in (("Decoy", ("ge", b - 128)), ("Genuine", ("ge", mk(127) - b))):
        for s in st.where_(c):
            out.append((s, ("A", ty, vindex(E, ty, nm), ())))
    return out


def c_decrypt(E, st, avs, cs, ft):
    loc = mo.auto(E, st, avs[0])
    h = E.read(st, loc)
    cl, n = seqloc(E, st, avs[1])
    out = []
    for aad, st1 in opt_aad(E, st, avs[3]):
        ct = content(E, st1, avs[1])
        ol, on = seqloc(E, st1, avs[2])
        bad = st1.where_(("or", ("ge", mk(16) - n), ("ge", n - 17 - on)))
        for s in bad:
            s.ev("open", ok=False, size=True, cipher=valterm(h), ct=ct, aad=aad, via="decrypt")
            out.append((s, opaque_err(E, s, cs, "cerr")))
        for s0 in st1.where_(("and", ("ge", n - 17), ("ge", on - n + 16))):
            s, e, pt = _open(E, s0, cs, h, loc, ct, n, aad, "decrypt")
            segs = segs_of(E, s, avs[2])
            write_seq(E, s, avs[2], (tseg(n - 16, pt),) + tuple(E.sub(s, segs, n - 16, on - n + 16)))
            for s3, t in ptype(E, s, pt, targ(E, cs)):
                out.append((s3, A(E, cs, 0, t)))
            write_seq(E, e, avs[2], (tseg(n - 16, e.fresh(E.site(e), "unauth")),) + tuple(E.sub(e, segs, n - 16, on - n + 16)))
            out.append((e, opaque_err(E, e, cs, "cerr")))
    return out


def c_decrypt_to_vec(E, st, avs, cs, ft):
    loc = mo.auto(E, st, avs[0])
    h = E.read(st, loc)
    cl, n = seqloc(E, st, avs[1])
    tty = targ(E, cs)
    vty = E.ty(tty)["e"] if tty is not None else [None, None]
    out = []
    for aad, st1 in opt_aad(E, st, avs[2]):
        ct = content(E, st1, avs[1])
        for s in st1.where_(("or", ("ge", mk(16) - n), ("ge", n - 16 - 4000015))):
            s.ev("open", ok=False, size=True, cipher=valterm(h), ct=ct, aad=aad, via="decrypt_to_vec")
            out.append((s, opaque_err(E, s, cs, "cerr")))
        for s0 in st1.where_(("and", ("ge", n - 17), ("ge", mk(4000014 + 16) - n))):
            s0.ev("alloc", n=n - 16, what="decrypt_to_vec")
            s, e, pt = _open(E, s0, cs, h, loc, ct, n, aad, "decrypt_to_vec")
            ety = E.ty(vty[1])["args"][0] if vty[1] is not None else None
            for s3, t in ptype(E, s, pt, vty[0]):
                out.append((s3, A(E, cs, 0, ("A", tty, 0, (t, ("V", ety, (tseg(n - 16, pt),)))))))
            out.append((e, opaque_err(E, e, cs, "cerr")))
    return out


def c_decrypt_in_place(E, st, avs, cs, ft):
    loc = mo.auto(E, st, avs[0])
    h = E.read(st, loc)
    cl, n = seqloc(E, st, avs[1])
    tty = targ(E, cs)
    pty = E.ty(tty)["e"][0]
    out = []
    for aad, st1 in opt_aad(E, st, avs[2]):
        ct = content(E, st1, avs[1])
        for s in st1.where_(("ge", mk(16) - n)):
            s.ev("open", ok=False, size=True, cipher=valterm(h), ct=ct, aad=aad, via="decrypt_in_place")
            out.append((s, opaque_err(E, s, cs, "cerr")))
        for s0 in st1.where_(("ge", n - 17)):
            s, e, pt = _open(E, s0, cs, h, loc, ct, n, aad, "decrypt_in_place")
            segs = segs_of(E, s, avs[1])
            write_seq(E, s, avs[1], (tseg(n - 16, pt),) + tuple(E.sub(s, segs, n - 16, mk(16))))
            for s3, t in ptype(E, s, pt, pty):
                out.append((s3, A(E, cs, 0, ("A", tty, 0, (t, mo.slice_ref(E, cl, ZERO, n - 16))))))
            write_seq(E, e, avs[1], (tseg(n, e.fresh(E.site(e), "unauth")),))
            out.append((e, opaque_err(E, e, cs, "cerr")))
    return out


def c_encrypt(E, st, avs, cs, ft):
    """encrypt(&mut self, plaintext, out, type, aad) -> Result<()>"""
    loc = mo.auto(E, st, avs[0])
    h = E.read(st, loc)
    _, pn = seqloc(E, st, avs[1])
    out = []
    for aad, st1 in opt_aad(E, st, avs[4]):
        p = content(E, st1, avs[1])
        ol, on = seqloc(E, st1, avs[2])
        need = pn + 20
        for s in st1.where_(("ge", need - on - 1)):
            s.ev("seal", ok=False, size=True, cipher=valterm(h), pt=p)
            out.append((s, opaque_err(E, s, cs, "cerr")))
        for s in st1.where_(("and", ("ge", on - need), ("ge", pn - 2 ** 24))):
            s.ev("seal", ok=False, cipher=valterm(h), pt=p)
            out.append((s, opaque_err(E, s, cs, "cerr")))
        for s in st1.where_(("and", ("ge", on - need), ("ge", mk(2 ** 24 - 1) - pn))):
            ty = valterm(avs[3])
            t = T("sealed", valterm(h), p, ty, aad)
            write_seq(E, s, mo.slice_ref(E, ol, ZERO, need), (tseg(need, t),))
            E.write(s, loc, ("T", T("advpkt", valterm(h)), h[2] if h[0] == "T" else h[1]))
            s.ev("seal", ok=True, cipherv=h, cipher=valterm(h), pt=p, type=ty, aad=aad, ct=t, n=need)
            out.append((s, A(E, cs, 0, UNIT)))
    return out


def c_encrypt_to_vec(E, st, avs, cs, ft):
    loc = mo.auto(E, st, avs[0])
    h = E.read(st, loc)
    _, pn = seqloc(E, st, avs[1])
    out = []
    for aad, s in opt_aad(E, st, avs[3]):
        p = content(E, s, avs[1])
        for s2 in s.where_(("ge", pn - 2 ** 24)):
            s2.ev("panic", why="content longer than the length field")
            E.end(s2, "panic", "content longer than the length field")
        for s2 in s.where_(("ge", mk(2 ** 24 - 1) - pn)):
            ty = valterm(avs[2])
            t = T("sealed", valterm(h), p, ty, aad)
            E.write(s2, loc, ("T", T("advpkt", valterm(h)), h[2] if h[0] == "T" else h[1]))
            s2.ev("seal", ok=True, cipherv=h, cipher=valterm(h), pt=p, type=ty, aad=aad, ct=t, n=pn + 20)
            out.append((s2, ("V", targ(E, cs), (tseg(pn + 20, t),))))
    return out


CIPHER = {
    "bip324::InboundCipher::decrypt_packet_len": c_packet_len,
    "bip324::InboundCipher::decrypt": c_decrypt,
    "bip324::InboundCipher::decrypt_to_vec": c_decrypt_to_vec,
    "bip324::InboundCipher::decrypt_in_place": c_decrypt_in_place,
    "bip324::OutboundCipher::encrypt": c_encrypt,
    "bip324::OutboundCipher::encrypt_to_vec": c_encrypt_to_vec,
}
HS = {
    "bip324::Handshake::new": hs_new,
    "bip324::Handshake::send_key_len": send_key_len,
    "bip324::Handshake::send_key": send_key,
    "bip324::Handshake::receive_key": receive_key,
    "bip324::Handshake::send_version_len": send_version_len,
    "bip324::Handshake::send_version": send_version,
    "bip324::Handshake::receive_garbage": receive_garbage,
    "bip324::Handshake::decrypt_packet_len": hs_packet_len,
    "bip324::Handshake::receive_version": receive_version,
}


# ------------------------------------------------- contracts of whole futures
def io_err(E, st, rt, hint):
    """Result::Err(opaque) of a result type"""
    return ("A", rt, 1, (("T", st.fresh(E.site(st), hint), E.ty(rt)["args"][1]),))


def handshake(E, st, avs, cs, ft):
    """bip324::{io,futures}::handshake: fresh ciphers and session reader"""
    if E.ty(cs.ty)["k"] == "coroutine":
        return ("X", "contract_fut", ("handshake", tup(*avs)))
    return _handshake(E, st, avs, cs.ty)


def _handshake(E, st, avs, rt):
    e = st.fork()
    e.ev("handshake", ok=False)
    x = io_err(E, e, rt, "hserr")
    t = T("hsres", st.fresh(E.site(st), "hs"))
    st.ev("handshake", ok=True, args=tuple(valterm(a) for a in avs))
    return [(st, ("A", rt, 0, (E.mkval(t, E.ty(rt)["args"][0]),))), (e, x)]


def _poll_handshake(E, st, v, loc, avs, cs, ft):
    rt = targ(E, cs)
    out = [(s, A(E, cs, 0, x)) for s, x in _handshake(E, st.fork(), v[2][1][3], rt)]
    st.ev("pending", io="handshake")
    return [(st, A(E, cs, 1))] + out


mo.CFUT["handshake"] = _poll_handshake
NEW = {"bip324::io::handshake": handshake, "bip324::futures::handshake": handshake}


# ------------------------------------- contracts of the session and payload API
def pterm(E, st, v):
    """term of the payload a reference designates"""
    return valterm(E.read(st, mo.auto(E, st, v)))


def p_make(kind):
    def f(E, st, avs, cs, ft):
        return ("X", "payload", (kind, ("V", None, tuple(mo.segs_of(E, st, avs[0])))))
    return f


def p_contents(E, st, avs, cs, ft):
    v = E.read(st, mo.auto(E, st, avs[0]))
    p = valterm(v)
    if v[0] == "X" and v[1] == "payload":
        segs = v[2][1][2]
        return ("R", ("kv", ("V", None, segs)), (("s", ZERO, seglen(segs)),))
    return E.mkval(T("contents", p), cs.ty)


def p_type(E, st, avs, cs, ft):
    p = pterm(E, st, avs[0])
    if p.op == "mkpayload":
        return ("A", cs.ty, vindex(E, cs.ty, p.args[0]), ())
    return ("T", T("ptype", p), cs.ty)


def loc_term(E, st, v):
    loc = mo.auto(E, st, v)
    return loc, valterm(E.read(st, loc))


def _p_result(E, st, rt, ok, err):
    """[(state, Result value)] of a session operation"""
    e = st.fork()
    er = io_err(E, e, rt, "perr")
    err(e, er[3][0])
    return [(st, ("A", rt, 0, (ok(st),))), (e, er)]


def _p_new(E, st, avs, rt, **kw):
    args = tuple(avs)
    t = T("proto", st.fresh(E.site(st), "pnew"))
    def ok(s):
        s.ev("p_new", ok=True, args=args, out=t, **kw)
        return E.mkval(t, E.ty(rt)["args"][0])
    return _p_result(E, st, rt, ok, lambda s, e: s.ev("p_new", ok=False, args=args, err=e, **kw))


def _p_read(E, st, avs, rt, **kw):
    loc, who = loc_term(E, st, avs[0])
    t = T("payload", st.fresh(E.site(st), "pread"))
    def ok(s):
        s.ev("p_read", ok=True, who=who, loc=loc, out=t, **kw)
        return ("T", t, E.ty(rt)["args"][0])
    return _p_result(E, st, rt, ok, lambda s, e: s.ev("p_read", ok=False, who=who, loc=loc, err=e, **kw))


def _p_write(E, st, avs, rt, **kw):
    loc, who = loc_term(E, st, avs[0])
    p = pterm(E, st, avs[1])
    def ok(s):
        s.ev("p_write", ok=True, who=who, loc=loc, payload=p, **kw)
        return UNIT
    return _p_result(E, st, rt, ok, lambda s, e: s.ev("p_write", ok=False, who=who, loc=loc, payload=p, err=e, **kw))


SESSION = {"p_new": _p_new, "p_read": _p_read, "p_write": _p_write}


def session(op):
    def f(E, st, avs, cs, ft):
        if E.ty(cs.ty)["k"] == "coroutine":
            return ("X", "contract_fut", (op, tup(*avs), False))
        return SESSION[op](E, st, avs, cs.ty)

    def poll(E, st, v, loc, avs, cs, ft):
        # one of several alternatives may be abandoned
        among = mo.among(st)
        x = ("X", "contract_fut", (op, v[2][1], True))
        p = st.fork()
        p.ev("pending", io=op, among=among)
        E.write(p, loc, x)
        out = [(p, A(E, cs, 1))]
        E.write(st, loc, ("X", "contract_fut", (op, v[2][1], False)))
        for s, r in SESSION[op](E, st, v[2][1][3], targ(E, cs), among=among):
            out.append((s, A(E, cs, 0, r)))
        return out
    mo.CFUT[op] = poll
    return f


def p_split(E, st, avs, cs, ft):
    t = valterm(avs[0])
    ts = E.ty(cs.ty)["e"]
    return ("A", cs.ty, 0, (("T", T("preader", t), ts[0]), ("T", T("pwriter", t), ts[1])))


PROTO = {
    "bip324::Payload::genuine": p_make("Genuine"),
    "bip324::Payload::decoy": p_make("Decoy"),
    "bip324::Payload::contents": p_contents,
    "bip324::Payload::packet_type": p_type,
    "bip324::Protocol::new": session("p_new"),
    "bip324::Protocol::read": session("p_read"),
    "bip324::Protocol::write": session("p_write"),
    "bip324::Protocol::into_split": p_split,
    "bip324::ProtocolReader::read": session("p_read"),
    "bip324::ProtocolWriter::write": session("p_write"),
}
