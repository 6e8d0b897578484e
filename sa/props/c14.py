"""Abstract interpretation of the key-message step and of every path on which an
input/output error leaves the library: a path that reports a V1 peer has established
that the first bytes of the message equal the network magic (and has derived nothing
from it), every other path has established that they differ; the advice attached to an
input/output error is compared with the set of error kinds still possible on the path,
for all kinds at once, and an end of stream always ends in the advice to retry."""
from lib import *
from terms import Term

RETRY = {"ConnectionReset", "ConnectionAborted", "UnexpectedEof"}


def equal_bytes(E, st, a, b, n):
    """True / False / None: are two byte sequences of n bytes equal on this path?"""
    a, b = tuple(E.merge(st, tuple(a))), tuple(E.merge(st, tuple(b)))
    if same(E, st, a, b):
        return True
    ta, tb = bterm(a), bterm(b)
    x, y = (ta, tb) if ta.id < tb.id else (tb, ta)
    v = st.bt.get(T("eq", x, y))
    if v is not None:
        return v
    es = [(byte(E, st, a, i), byte(E, st, b, i)) for i in range(n)]
    if all(st.eq(p, q) for p, q in es):
        return True
    for w in (1, -1):
        if st.eq(*(sum((e[j] * 256 ** i for i, e in enumerate(es[::w])), ZERO) for j in (0, 1))):
            return True
    t = st.fork()
    try:
        for p, q in es:
            t.assume(("eq", p - q))
    except Infeasible:
        return False
    # comparisons of parts
    known = sum(1 << i for i, (p, q) in enumerate(es) if st.eq(p, q))
    for t, v in st.bt.items():
        if t.op != "eq" or t.args[0].op != "B" or t.args[1].op != "B":
            continue
        u, w = t.args[0].args[0], t.args[1].args[0]
        for lo in range(n):
            for k in range(1, n - lo + 1):
                s, r = sublist(E, st, a, lo, k), sublist(E, st, b, lo, k)
                if same(E, st, u, s) and same(E, st, w, r) or same(E, st, u, r) and same(E, st, w, s):
                    if v is False:
                        return False
                    known |= ((1 << k) - 1) << lo
    return True if known == (1 << n) - 1 else None


def byte(E, st, segs, i):
    v = E.elem(st, ("Y", None, tuple(segs)), mk(i))
    return lin(sym(v[1], 0, 255)) if isinstance(v, tuple) and v[0] == "T" else v


def recognition(c, feat):
    k = c.fn(feat, "Handshake::receive_key")
    name = f"receive_key [{feat}]"
    E = c.run(feat, k, opts={"unroll": 6}, tag="c14")
    body = E.crate.body(k)
    n = m = 0
    for p in E.paths:
        if p.kind == "loop":
            continue
        if p.kind != "ret":
            c.ob("no panic", name, False, f"{where(p)}: {p.why}")
            continue
        st = p.st
        msg = key_bytes(E, p, body.locals[2][0], argterm(E, k, 2))
        magic = field_bytes(E, body.locals[1][0], argterm(E, k, 1), 4)
        e = p.ret[3][0] if res(p.ret) == "err" else None
        v1 = e is not None and variant_name(E, st, e) == "V1Protocol"
        eq = equal_bytes(E, st, sublist(E, st, msg, 0, 4), magic, 4)
        if v1:
            n += 1
            c.ob("a V1 peer is reported only for a message starting with the magic", name, eq is True, f"{where(p)}: equality of magic and prefix is {eq}")
            c.ob("nothing is derived from a V1 message", name, not events(p, "ecdh", "hkdf", "expand"), where(p))
        else:
            m += 1
            c.ob("a message starting with the magic is always reported as V1", name, eq is False,
                 f"{where(p)} returns {res(p.ret)}; equality of magic and prefix is {eq}")
    c.floor(f"V1 reports of {name}", n, 1)
    c.floor(f"other outcomes of {name}", m, 2)


def key_bytes(E, p, ty, t):
    v = E.mkval(t, ty)
    v = E.expand(v, None, p.st) if v[0] == "T" else v
    if v[0] in ("Y", "V"):
        return v[2]
    return ((mk(64), "t", t, ZERO),)


def field_bytes(E, ty, t, n):
    """the one field that is an array of n bytes"""
    fs = []
    for j, f in enumerate(E.ty(ty)["variants"][0]["f"]):
        v = E.mkval(T("f", t, 0, j), f[1])
        v = E.expand(v) if v[0] == "T" and E.ty(f[1])["k"] == "array" else v
        if v[0] == "Y" and seglen(v[2]).t == () and seglen(v[2]).c == n:
            fs.append(v[2])
    if len(fs) != 1:
        raise Missing(f"the network magic of a handshake: {len(fs)} candidates")
    return fs[0]


def kinds(E, st, err):
    """names of the error kinds an io::Error value can still have on a path"""
    ty = next((i for i, t in enumerate(E.crate.types) if t["k"] == "adt" and t["path"].endswith("io::ErrorKind") or t["k"] == "adt" and t["path"].endswith("::ErrorKind")), None)
    if ty is None:
        raise Missing("ErrorKind")
    names = [v["n"] for v in E.ty(ty)["variants"]]
    t = valterm(err)
    if t.op == "ioerror_new":
        a = t.args[0]
        return {names[a.args[0]]} if isinstance(a, Term) and a.op == "A" else set(names)
    k = T("kind", t)
    if k in st.var:
        return {names[st.var[k]]}
    out = set()
    for i, nm in enumerate(names):
        if i not in st.nvar.get(k, ()):
            out.add(nm)
    return out


def advice(c, E, ps, name, floors):
    """obligations for every path returning an input/output error; (errors, ends of stream)"""
    n = m = 0
    for p in ps:
        if p.kind != "ret":
            continue
        st = p.st
        end = [e for e in events(p, "read") if e.a["ok"] and st.eqz(e.a["n"]) and not st.eqz(e.a["cap"])]
        v = io_error(E, st, p.ret)
        if end:
            m += 1
            c.ob("an end of stream is reported with the advice to retry", name, v is not None and v[1] == "RetryV1",
                 f"{end[-1].where}: end of stream; {where(p)} returns {str(p.ret)[:120]}")
        if v is None:
            continue
        n += 1
        err, sug = v
        ks = kinds(E, st, err)
        if sug == "RetryV1":
            c.ob("retrying is advised only for a peer that went away", name, ks <= RETRY, f"{where(p)}: also for {sorted(ks - RETRY)[:6]}")
        else:
            c.ob("retrying is advised for every peer that went away", name, sug == "Abort" and not ks & RETRY, f"{where(p)}: {sug} for {sorted(ks & RETRY)[:6]}")
    c.floor(f"input/output errors of {name}", n, floors[0])
    c.floor(f"ends of stream of {name}", m, floors[1])


def io_error(E, st, v):
    """(io error, suggestion name) of a returned ProtocolError::Io"""
    for x in find_adt(E, v, "bip324::io::ProtocolError"):
        if x[0] == "T":
            if variant_name(E, st, x) != "Io":
                continue
            x = E.expand(x, None, st)
        if E.ty(x[1])["variants"][x[2]]["n"] == "Io":
            return x[3][0], variant_name(E, st, x[3][1])
    return None


def errors(c, feat, mod):
    fut = mod == "futures"
    E = handshake_run(c, feat, mod)
    advice(c, E, E.paths, f"{mod}::Protocol::new", (12, 2))
    if fut:
        E, ps = fresh_read(c, feat, mod, False)
        advice(c, E, ps, f"{mod}::ProtocolReader::read", (4, 2))
    else:
        E = c.run(feat, c.fn(feat, "ProtocolReader::read", mod), contract=CIPHER)
        advice(c, E, E.paths, f"{mod}::ProtocolReader::read", (4, 0))
    k = c.coroutine(feat, "ProtocolWriter::write", mod) if fut else c.fn(feat, "ProtocolWriter::write", mod)
    E = c.run(feat, k, contract=CIPHER)
    advice(c, E, E.paths, f"{mod}::ProtocolWriter::write", (4, 0))


def conversion(c):
    k = [f["key"] for f in c.crate("std").d["fns"] if f["key"] in c.crate("std").d["bodies"] and f["name"].endswith("<ProtocolError as From>::from")]
    n = 0
    for key in k:
        E = c.run("std", key)
        for p in E.paths:
            v = io_error(E, p.st, p.ret) if p.kind == "ret" else None
            if v:
                n += 1
                c.ob("a converted error is the given one", "From<io::Error>", valterm(v[0]) is argterm(E, key, 1), f"{where(p)}: {p.ret}")
                advice(c, E, [p], "From<io::Error>", (1, 0))
    c.floor("outcomes of From<io::Error>", n, 2)
    E = c.run("std", c.fn("std", "ProtocolError::eof"))
    for p in E.paths:
        v = io_error(E, p.st, p.ret)
        c.ob("the end-of-stream error advises to retry", "ProtocolError::eof", v is not None and v[1] == "RetryV1" and kinds(E, p.st, v[0]) <= RETRY, where(p))


def check(c):
    for feat in ("core", "std"):
        c.guard(f"receive_key [{feat}]", recognition, c, feat)
    c.guard("From<io::Error>", conversion, c)
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        c.guard(mod, errors, c, feat, mod)
