"""Helpers shared by the property rules."""
from terms import T, Term, Lin, lin, mk, sym
from engine import ZERO, ONE, Imprecise, Infeasible, valterm, seglen, bterm, byte_of, mk_div, mk_rem
import models as mo
from ctx import variant_name, ref, res, Missing, HS, CIPHER, BOTH


def adt_path(E, v):
    ty = v[1] if v[0] == "A" else v[2] if v[0] == "T" else None
    if ty is None:
        return None
    return E.ty(ty).get("path")


def find_adt(E, v, path, d=0):
    """sub-values of a value whose type is the adt with this path"""
    out = []
    if isinstance(v, tuple) and v and v[0] in ("A", "T"):
        if adt_path(E, v) == path:
            return [v]
        if v[0] == "A" and d < 8:
            for x in v[3]:
                out += find_adt(E, x, path, d + 1)
    return out


def tyid(c, path):
    """type index of a monomorphic adt"""
    r = [i for i, t in enumerate(c.types) if t["k"] == "adt" and t["path"] == path]
    if not r:
        raise Missing(f"type {path}")
    return r[0]


def byte0(st, E, segs):
    """value of the first byte of a sequence"""
    v = E.elem(st, ("Y", None, tuple(segs)), ZERO)
    if isinstance(v, tuple) and v[0] == "T":
        return lin(sym(v[1], 0, 255))
    return v


def nonce_segs(t):
    """byte segments of a nonce value term"""
    if t.op == "nonce" and t.args[0].op == "B":
        return t.args[0].args[0]
    return ()


def is_rekey(e):
    """the AEAD call under the reserved rekey nonce (first four bytes all ones)"""
    s = nonce_segs(e.a["nonce"])
    return bool(s) and s[0][1] == "c" and bytes(s[0][2])[:4] == b"\xff" * 4


def events(p, *ops):
    return [e for e in p.trace() if e.op in ops]


def where(p):
    return f"{p.fn} {p.where}"


def bits7(st, b):
    """'Decoy' / 'Genuine' as decided by bit 7 of byte b in this state, else None"""
    if st.entails(b - 128):
        return "Decoy"
    if st.entails(mk(127) - b):
        return "Genuine"
    return None


def both_possible(st, b):
    out = []
    for nm, c in (("Decoy", ("ge", b - 128)), ("Genuine", ("ge", mk(127) - b))):
        if st.where_(c):
            out.append(nm)
    return out


# ------------------------------------------------------------------ sequences
def param(i, name=None):
    """the initial contents of slice parameter i: one segment (name = debug name)"""
    t = T("arg", i, name or "_")
    return lin(sym(T("len", t), 0, 2 ** 63 - 1)), T("deref", t)


def argterm(E, key, i):
    body = E.crate.body(key)
    return T("arg", i, body.locals[i][1] or "_")


def slice_arg(E, key, i):
    """(length, segments) of slice parameter i as it was on entry"""
    t = argterm(E, key, i)
    n = lin(sym(T("len", t), 0, 2 ** 63 - 1))
    return n, ((n, "t", T("deref", t), ZERO),)


def opt_slice_arg(E, st, key, i):
    """segments of an Option<&[T]> parameter on a path; None = the variant is not decided"""
    t = argterm(E, key, i)
    v = st.var.get(t)
    if v == 0:
        return ()
    if v == 1:
        f = T("f", t, 1, 0)
        n = lin(sym(T("len", f), 0, 2 ** 63 - 1))
        return ((n, "t", T("deref", f), ZERO),)
    return None


def after(E, st, obj):
    """current contents of an object (its initial value when never written)"""
    return E.getobj(st.fork(), obj)


def arg_after(E, st, key, i):
    return after(E, st, ("d", argterm(E, key, i)))


def bsegs(t):
    """segments of a byte-string term"""
    if t.op == "B":
        return tuple(t.args[0])
    return None


def contents(E, st, v):
    """segments a reference, vector or array value stands for"""
    if isinstance(v, tuple) and v[0] in ("Y", "V"):
        return v[2]
    if isinstance(v, tuple) and v[0] == "R":
        r = E.read(st.fork(), (v[1], v[2]))
        if isinstance(r, tuple) and r[0] in ("Y", "V"):
            return r[2]
    return None


def sublist(E, st, segs, off, n):
    return E.sub(st, tuple(segs), lin_(off), lin_(n))


def lin_(x):
    return mk(x) if isinstance(x, int) else x


def same(E, st, a, b):
    """do two segment lists denote the same bytes in this state?"""
    if a is None or b is None:
        return False
    a, b = list(E.merge(st, tuple(a))), list(E.merge(st, tuple(b)))
    if not st.eq(seglen(a), seglen(b)):
        return False
    while a and b:
        x, y = a[0], b[0]
        if st.eqz(x[0]):
            a.pop(0)
            continue
        if st.eqz(y[0]):
            b.pop(0)
            continue
        if st.eq(x[0], y[0]):
            m = x[0]
            a.pop(0)
            b.pop(0)
        elif st.le(x[0], y[0]):
            m = x[0]
            a.pop(0)
            b[0] = E.cut(st, y, m, y[0] - m)
        elif st.le(y[0], x[0]):
            m = y[0]
            b.pop(0)
            a[0] = E.cut(st, x, m, x[0] - m)
        else:
            return False
        if not same_seg(E, st, E.cut(st, x, ZERO, m), E.cut(st, y, ZERO, m)):
            return False
    return all(st.eqz(s[0]) for s in a + b)


def unle(E, st, x):
    """a slice of a little-endian integer with a known value, as constant bytes"""
    if x[1] == "t" and x[2].op == "le" and isinstance(x[2].args[0], Lin):
        v, o, n = E.pin(st, x[2].args[0]), E.pin(st, x[3]), E.pin(st, x[0])
        if v is not None and o is not None and n is not None and v >= 0:
            b = v.to_bytes(16, "little")[o:o + n]
            return (mk(n), "c", b, None)
    if x[1] == "v" and len(x[2]) == 1:
        b = byte_of(x[2][0])
        if b is not None:
            return (x[0], "t", T("le", b[0], 8), mk(b[1]))
    return x


def number_is(E, st, x, vals):
    """the slice x of a little-endian number consists of these bytes"""
    n, o = x[2].args[0], E.pin(st, x[3])
    if o is None or not isinstance(n, Lin) or not st.le(ZERO, n):
        return False
    for k, v in enumerate(vals, o):
        if not isinstance(v, Lin) and isinstance(v, Term) and v.op == "int":
            v = v.args[0]
        d = mk_div(n, 256 ** k)
        b = ZERO if st.le(n, mk(256 ** k - 1)) else d if st.le(n, mk(256 ** (k + 1) - 1)) else mk_rem(d, 256)
        if not isinstance(v, Lin) or not st.eq(b, v):
            return False
    return True


def same_seg(E, st, x, y):
    x, y = unle(E, st, x), unle(E, st, y)
    if x[1] == "t" and y[1] == "t" and x[2].op == "le" and y[2].op == "le":
        return st.eq(x[3], y[3]) and st.eq(x[2].args[0], y[2].args[0])
    if x[1] == "t" and y[1] == "t":
        if x[2] is y[2]:
            return st.eq(x[3], y[3])
        if x[2].op == "B" or y[2].op == "B":
            xs = E.sub(st, x[2].args[0], x[3], x[0]) if x[2].op == "B" else (x,)
            ys = E.sub(st, y[2].args[0], y[3], y[0]) if y[2].op == "B" else (y,)
            return same(E, st, xs, ys)
        return False
    for u, w in ((x, y), (y, x)):
        if u[1] == "t" and u[2].op == "le" and w[1] in ("c", "v", "f"):
            m = E.pin(st, w[0])
            if m is None or m > 16:
                return False
            return number_is(E, st, u, [mk(b) for b in w[2]] if w[1] == "c" else w[2] if w[1] == "v" else [w[2]] * m)
    if x[1] in ("c", "f") and y[1] in ("c", "f"):
        def uni(s):
            return s[2] if s[1] == "f" else mk(s[2][0]) if len(set(s[2])) == 1 else None
        if x[1] == y[1] == "c":
            return x[2] == y[2]
        return uni(x) is not None and uni(x) == uni(y)
    return x[1:] == y[1:]


def oks(E, kind="ok"):
    return [p for p in E.paths if p.kind == "ret" and res(p.ret) == kind]


def covers_options(c, E, key, i, name, paths):
    """both variants of an optional argument reach a successful path"""
    t = argterm(E, key, i)
    seen = {p.st.var.get(t) for p in paths}
    c.ob("every argument form is analysed", name, {0, 1} <= seen, f"option variants seen: {seen}")


POS, LEN = ("gh", "pos"), ("gh", "len")


def segs1(E, st, t):
    s = bsegs(t)
    return s if s is not None else ()


def stream_ghost(st, ev):
    E = st.E
    if ev.op not in ("dec_len", "open") or ev.a.get("ok") is False and ev.op == "dec_len":
        return
    at = st.mem.get(POS, ZERO)
    n = mk(3) if ev.op == "dec_len" else st.mem.get(LEN, ZERO)
    got = segs1(E, st, ev.a["bytes" if ev.op == "dec_len" else "ct"])
    got = tuple(s for s in E.merge(st, tuple(got)) if not st.eqz(s[0]))
    key = got[0][2].args[0] if got and got[0][1] == "t" and got[0][2].op == "strm" else None
    ev.a["next"] = key is not None and same(E, st, got, ((n, "t", T("strm", key), at),))
    ev.a["at"] = at
    if ev.op == "dec_len":
        ev.a["once"] = st.mon == ()
        st.mon = ("len",)
        st.mem[POS] = at + 3
        st.mem[LEN] = ev.a["n"]
        return
    ev.a["once"] = st.mon == ("len",)
    if ev.a.get("ok") is not False:
        st.mon = ()
        st.mem[POS] = at + n
        st.mem[LEN] = ZERO


def fresh_read(c, feat, mod, mode=True, monitors=(), tag=None, of="ProtocolReader"):
    """one session read from a reader as the constructor makes it; an asynchronous one is dropped
    and called anew at any of its suspension points any number of times. mode "ok" / "retry" / "all":
    any number of successive reads, after success / failure / both"""
    import contracts
    fut = mod == "futures"
    k0 = c.coroutine(feat, "Protocol::new", mod) if fut else c.fn(feat, "Protocol::new", mod)
    E = c.run(feat, k0, contract={**HS, **contracts.NEW}, tag="new-for-read")
    hit = getattr(E, "_fresh_read", None) or {}
    E._fresh_read = hit
    if (mode, tag, of) in hit:
        return E, hit[mode, tag, of]
    rs = []
    for p in oks(E):
        r = find_adt(E, p.ret, f"bip324::{mod}::{of}")
        if not r:
            raise Missing("reader in Protocol::new's result")
        rs.append((p, r[0]))
    if not rs:
        raise Missing(f"successful path of {mod}::Protocol::new")
    p, r = rs[0]
    k = c.coroutine(feat, of + "::read", mod) if fut else c.fn(feat, of + "::read", mod)
    b = E.crate.body(k)
    old = E.opts["contract"], E.monitors, p.st.mon
    E.opts["contract"] = CIPHER
    E.opts["cancel"] = mode
    E.monitors = list(monitors)
    p.st.mon = ()
    arg = (lambda st: ("A", b.locals[1][0], 0, (ref(r)(st),))) if fut else ref(r)
    ps = c.then(E, p, k, {1: arg})
    E.opts["contract"], E.monitors, p.st.mon = old
    E.opts["cancel"] = False
    hit[mode, tag, of] = ps
    return E, ps


def fresh_async_read(c, feat="tokio", mode=True):
    return fresh_read(c, feat, "futures", mode, (stream_ghost,), "ghost")


def unchanged(E, st, a, b):
    """is value b still value a (a may be the unexpanded initial value)?"""
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == "T" and b[0] == "A":
            a = E.expand(a, b[2], st)
        elif b[0] == "T" and a[0] == "A":
            b = E.expand(b, a[2], st)
        if a[0] == "A" and b[0] == "A":
            return a[2] == b[2] and len(a[3]) == len(b[3]) and all(unchanged(E, st, x, y) for x, y in zip(a[3], b[3]))
        if a[0] in ("Y", "V") and b[0] in ("Y", "V"):
            return same(E, st, a[2], b[2])
        if a[0] == "T" and b[0] == "T":
            return a[1] is b[1]
    return False


def self_unchanged(E, st, key, i=1):
    t = argterm(E, key, i)
    o = ("d", t)
    now = st.mem.get(o)
    return now is None or unchanged(E, st, E.deref_init(t), now)


def handshake_run(c, feat, mod, monitors=(), tag=None):
    """the public constructor of a session, over the contracts of the handshake steps"""
    k = c.coroutine(feat, "Protocol::new", mod) if mod == "futures" else c.fn(feat, "Protocol::new", mod)
    return c.run(feat, k, contract=HS, monitors=monitors, tag=tag)
