"""Abstract interpretation of the two ends of the garbage exchange. Sending: the path
conditions of acceptance and refusal. Receiving: the search is followed with a ghost
counter of the positions already shown not to hold the terminator, advanced by each
comparison that fails and kept by the loop invariant; a match must be at exactly that
position (so it is the first), and giving up or asking for more must have examined every
position that can hold a terminator."""
import props.c24 as c24
from lib import *
from terms import Term

LIMIT, TERM = 4095, 16
SEEN, HIT = ("gh", "seen"), ("gh", "hit")


def root(t):
    while isinstance(t, Term) and t.op in ("f", "deref") and t.args:
        t = t.args[0]
    return t


def operands(E, st, t, buf):
    """(offset in the received bytes, length) if t compares them with the own terminator"""
    if t.op != "eq":
        return None
    for x, y in (t.args, t.args[::-1]):
        if x.op != "B" or y.op != "B":
            continue
        a, b = x.args[0], y.args[0]
        if len(a) == 1 and len(b) == 1 and a[0][1] == b[0][1] == "t" and a[0][2] is T("deref", buf) and st.eqz(b[0][3]) \
                and root(b[0][2]).op == "arg" and root(b[0][2]) is not buf and st.eq(a[0][0], TERM_) and st.eq(b[0][0], TERM_):
            return a[0][3]
    return None


TERM_ = mk(TERM)


def search(E0, buf):
    def h(st, t, v):
        o = operands(st.E, st, t, buf)
        if o is None:
            return
        seen = st.mem.get(SEEN, ZERO)
        if not v:
            if st.eq(o, seen):
                st.mem[SEEN] = o + 1
        elif SEEN_HIT(st, o):
            st.mem[HIT] = o + 1
    return h


def SEEN_HIT(st, o):
    return st.eq(o, st.mem.get(SEEN, ZERO)) and st.eqz(st.mem.get(HIT, ZERO))


def elementwise(buf, ters):
    """a position is also refuted by one differing byte"""
    def h(st):
        E = st.E
        seen = st.mem.get(SEEN, ZERO)
        n = lin(sym(T("len", buf), 0, 2 ** 63 - 1))
        if not st.ne or not st.le(seen + TERM, n):
            return
        for t in ters:
            for j in range(TERM):
                a = lin(sym(T("elem", T("deref", buf), seen + j), 0, 255))
                b = lin(sym(T("elem", t, mk(j)), 0, 255))
                if a - b in st.ne or b - a in st.ne:
                    st.mem[SEEN] = seen + 1
                    return
    return h


def apart(buf):
    """buffers below, at and above the limit are followed separately"""
    n = lin(sym(T("len", buf), 0, 2 ** 63 - 1))
    m = mk(LIMIT + TERM)

    def h(st):
        if not st.mon:
            st.mon = ("size", st.le(n, m - 1), st.le(n, m), st.le(m, n))
    return h


def terminators(E, ty, t, d=0):
    """terms of the 16-byte arrays held in a value"""
    out = []
    k = E.ty(ty)
    if k["k"] == "array":
        v = E.expand(E.mkval(t, ty))
        if v[0] == "Y" and not seglen(v[2]).t and seglen(v[2]).c == TERM:
            out.append(t)
    elif k["k"] == "adt" and k["ak"] == "struct" and d < 4:
        for j, f in enumerate(k["variants"][0]["f"]):
            out += terminators(E, f[1], T("f", t, 0, j), d + 1)
    return out


def receive(c, feat):
    k = c.fn(feat, "Handshake::receive_garbage")
    name = f"receive_garbage [{feat}]"
    cr = c.crate(feat)
    body = cr.body(k)
    buf = T("arg", 2, body.locals[2][1] or "_")
    import engine
    ters = terminators(engine.Engine(cr, mo.M), body.locals[1][0], T("arg", 1, body.locals[1][1] or "_"))
    E = c.run(feat, k, opts={"on_bool": [search(None, buf)], "at_head": (apart(buf), elementwise(buf, ters))}, tag="c15")
    n, _ = slice_arg(E, k, 2)
    cnt = {"found": 0, "more": 0, "err": 0}
    for p in E.paths:
        st = p.st
        if p.kind == "loop":
            continue
        if p.kind != "ret":
            c.ob("no panic", name, False, f"{where(p)}: {p.why}")
            continue
        elementwise(buf, ters)(st)
        seen, hit = st.mem.get(SEEN, ZERO), st.mem.get(HIT, ZERO)
        if res(p.ret) == "err":
            cnt["err"] += 1
            c.ob("the search fails only when the limit is exceeded", name, st.le(mk(LIMIT + TERM), n), f"{where(p)}: fails with {n} bytes")
            c.ob("no admissible position was left out before failing", name, st.le(mk(LIMIT + 1), seen), f"{where(p)}: examined {seen} positions")
            continue
        v = p.ret[3][0]
        vn = variant_name(E, st, v)
        v = E.expand(v, None, st) if v[0] == "T" else v
        if vn == "NeedMoreData":
            cnt["more"] += 1
            c.ob("more data is asked for only while a terminator can still come", name, st.le(n, mk(LIMIT + TERM - 1)), f"{where(p)}: asks with {n} bytes")
            c.ob("no position was left out before asking for more", name, st.le(n - TERM + 1, seen), f"{where(p)}: examined {seen} positions of {n} bytes")
            c.ob("waiting changes nothing", name, any(valterm(x) is argterm(E, k, 1) for x in v[3]) or self_unchanged_value(E, st, k, v[3][0]), f"{where(p)}: {v}"[:200])
        else:
            cnt["found"] += 1
            used = [x for x in v[3] if isinstance(x, Lin)]
            ok = len(used) == 1
            c.ob("the consumed size is reported", name, ok, f"{where(p)}: {v}"[:200])
            if not ok:
                continue
            pos = used[0] - TERM
            c.ob("the reported position holds the terminator and is the first that does", name, st.eq(hit, pos + 1) and st.eq(seen, pos),
                 f"{where(p)}: reports {pos}, matched {hit - 1}, examined {seen}")
            c.ob("a terminator is accepted up to the limit only", name, st.le(pos, mk(LIMIT)), f"{where(p)}: {pos}")
            g = garbage(E, st, v, buf)
            c.ob("the garbage is everything before the terminator", name, same(E, st, g, ((pos, "t", T("deref", buf), ZERO),)) if g else st.eqz(pos),
                 f"{where(p)}: {g}")
    for kk, m in (("found", 2), ("more", 2), ("err", 1)):
        c.floor(f"{kk} outcomes of {name}", cnt[kk], m)


def garbage(E, st, v, buf):
    """bytes of the received buffer kept in the result"""
    out = []

    def walk(x, d=0):
        if isinstance(x, tuple) and x and x[0] == "R" and x[1] == ("d", buf):
            out.append(E.read(st.fork(), (x[1], x[2]))[2])
        elif isinstance(x, tuple) and x and x[0] in ("A", "X") and d < 8:
            for y in (x[3] if x[0] == "A" else x[2]):
                walk(y, d + 1)
    walk(v)
    return out[0] if len(out) == 1 else None


def self_unchanged_value(E, st, k, v):
    ini = E.mkval(argterm(E, k, 1), E.crate.body(k).locals[1][0])
    return unchanged(E, st, ini, v)


def send(c, feat):
    k = c.fn(feat, "Handshake::send_key")
    name = f"send_key [{feat}]"
    E = c.run(feat, k)
    n = m = 0
    for p in E.paths:
        if p.kind != "ret":
            continue
        g = opt_slice_arg(E, p.st, k, 2)
        if g is None:
            c.ob("the outcome depends on the garbage given", name, False, where(p))
            continue
        ln = seglen(g)
        if res(p.ret) == "ok":
            n += 1
            c.ob("only garbage up to the limit is sent", name, p.st.le(ln, mk(LIMIT)), f"{where(p)}: accepts {ln} bytes")
        elif variant_name(E, p.st, p.ret[3][0]) == "BufferTooSmall":
            continue
        else:
            m += 1
            c.ob("only garbage over the limit is refused", name, p.st.le(mk(LIMIT + 1), ln), f"{where(p)}: refuses {ln} bytes")
    c.floor(f"acceptances of {name}", n, 2)
    c.floor(f"refusals of {name}", m, 1)


def through(c, feat, mod):
    """the public constructors neither refuse garbage themselves nor change it"""
    E = handshake_run(c, feat, mod, [c24.automaton], "c24")
    name = f"{mod}::Protocol::new"
    n = 0
    for p in E.paths:
        if p.kind != "ret" or res(p.ret) == "ok":
            continue
        if any(e.a.get("ok") for e in events(p, "send_key")):
            continue
        n += 1
        c.ob("garbage is refused only by the protocol's own limit", name, bool(p.st.mon), f"{where(p)}: {str(p.ret)[:100]}")
    c.floor(f"early failures of {name}", n, 1)


def check(c):
    for feat in ("core", "std"):
        c.guard(f"send_key [{feat}]", send, c, feat)
        c.guard(f"receive_garbage [{feat}]", receive, c, feat)
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        c.guard(f"{mod}::Protocol::new", through, c, feat, mod)
