"""Abstract interpretation of both interfaces over the same contracts, with an observer
that reduces every path to the protocol steps it takes: which step follows which, what
each step is given (as bytes of the incoming stream or of the arguments), what has been
sent and flushed when the peer is waited for, what is returned, and within which packet
lengths. Suspension, buffering, the slicing of transport operations and the order of
local computations are not part of it. The two sets of observations, complete over all
paths, must be equal."""
from lib import *
from terms import Term
import props.c14 as c14

READ = ("read", "read_exact", "poll_read")
WRITE = ("write_all", "write", "poll_write")
MAXLEN = 1 << 24
START = ("start", "", (), False, None)


def roots(fut):
    """terms of the parameters -> their numbers"""
    def root(t):
        if fut:
            if t.op == "f" and t.args[0].op == "arg":
                return t.args[2] + 1
        elif t.op == "arg":
            return t.args[0]
        return None
    return root


def canon(x, root, d=0):
    """a term written in terms of the parameters"""
    if d > 40:
        return "..."
    if isinstance(x, Term):
        r = root(x)
        if r is not None:
            return f"P{r}"
        if x.op in ("phi", "new"):
            return "?"
        if x.op == "strm":
            return "stream"
        if x.op in ("cipher", "advpkt", "advlen", "opened"):
            return x.op
        return x.op + "(" + ",".join(canon(a, root, d + 1) for a in x.args) + ")"
    if isinstance(x, Lin):
        return "+".join(sorted(f"{k}*{canon(s[0] if isinstance(s, tuple) else s, root, d + 1)}" for s, k in x.t) + [str(x.c)])
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(canon(a, root, d + 1) for a in x) + ")"
    if isinstance(x, (int, str, bytes, bool)) or x is None:
        return repr(x)
    return canon(getattr(x, "term", None) or str(type(x).__name__), root, d + 1)


class Observer:
    def __init__(self, root):
        self.root = root

    def __call__(self, st, ev):
        E, a = st.E, ev.a
        step, io, owed, dirty, why = st.mon or START
        op = ev.op
        rec = None
        if op in READ + WRITE + ("flush",) and (io.startswith("failed") or io == "end of stream"):
            rec = (step, "failed", "goes on", op in READ)
        if op in READ:
            if not io:
                rec = (step, io, "waits for the peer", not owed, not dirty)
                io = "r"
            if not a["ok"]:
                io, why = "failed read", a.get("err")
            elif op == "read" and st.eqz(a["n"]) and not st.eqz(a["cap"]):
                io = "end of stream"
        elif op in WRITE:
            if a["ok"]:
                segs, n = a["segs"], a["n"]
                have = seglen(owed)
                if st.le(n, have) and same(E, st, segs, sublist(E, st, owed, 0, n)):
                    owed = tuple(s for s in sublist(E, st, owed, n, have - n) if not st.eqz(s[0]))
                else:
                    rec = (step, io, "sends something else", canon(segs, self.root))
                dirty = True
            else:
                io, why = "failed write", a.get("err")
        elif op == "flush":
            if a["ok"]:
                dirty = False
            else:
                io, why = "failed flush", a.get("err")
        elif op in ("hs_new", "send_key", "receive_key", "send_version", "receive_garbage", "dec_len", "receive_version", "open", "seal"):
            what, nxt = self.step(E, st, op, a)
            rec = (step, "" if io == "r" else io, op) + what + (not owed, not dirty)
            if nxt.startswith(("send_key+", "send_version+", "seal+")):
                owed = tuple(E.merge(st, tuple(owed) + ((a["n"], "t", a["ct"] if op == "seal" else a["out"], ZERO),)))
            io, step, why = "", nxt, None
        if rec:
            a["rec"] = rec
            a["span"] = self.span(st, rec[0])
        st.mon = (step, io, owed, dirty, valterm(why) if isinstance(why, tuple) else why)
        if op == "dec_len" and a.get("ok") is not False:
            st.mem[LEN] = a["n"]
        elif op in ("open", "receive_version"):
            st.mem[LEN] = ZERO

    def span(self, st, step):
        """possible packet lengths while a packet is awaited"""
        if step != "dec_len+" or LEN not in st.mem:
            return (0, 0)
        n = st.mem[LEN]
        lo, hi = 0, MAXLEN
        a, b = 0, MAXLEN
        while a < b:
            m = (a + b + 1) // 2
            a, b = (m, b) if st.entails(n - m) else (a, m - 1)
        lo = a
        a, b = lo, MAXLEN
        while a < b:
            m = (a + b) // 2
            a, b = (a, m) if st.entails(mk(m) - n) else (m + 1, b)
        return lo, a

    def given(self, st, t):
        return canon(t, self.root)

    def step(self, E, st, op, a):
        """what a step is given; the name of the step with its outcome"""
        ok = a.get("ok", True)
        nxt = op + ("+" if ok else "-")
        if op == "hs_new":
            return ((self.given(st, a["magic"]), self.given(st, a["role"])) if ok else ()), nxt
        if op == "send_key":
            return ((ok, self.given_as(st, 3), self.given(st, a["garbage"])) if ok else (ok,)), nxt
        if op == "send_version":
            return ((ok, self.given_as(st, 4), self.decoys(E, st, a["decoys"])) if ok else (ok,)), nxt
        if op == "receive_key":
            return (ok, self.stream(E, st, a["key"], ZERO, mk(64))), nxt
        if op == "receive_garbage":
            if a["res"] == "err":
                return ("err",), op + "-"
            return (a["res"], self.stream(E, st, a["buf"], mk(64), a["n"])), op + " " + a["res"]
        if op == "dec_len":
            if ok is not False and "next" in a:
                return (ok, a["next"], a["once"]), nxt
            return (ok,), nxt
        if op == "receive_version":
            r = str(a["res"])
            return (r, self.packet(E, st, a["packet"])), op + " " + r
        if op == "open":
            return (ok, a.get("next"), a.get("once"), canon(a["aad"], self.root)), nxt
        if op == "seal":
            return ((ok, canon(a["pt"], self.root), canon(a["type"], self.root), canon(a["aad"], self.root), canon(a["cipher"], self.root)) if ok else (ok, canon(a["pt"], self.root))), nxt

    def stream(self, E, st, t, at, n):
        """is this byte string exactly the stream from a position on?"""
        s = bsegs(t)
        if not s or s[0][1] != "t" or s[0][2].op != "strm":
            return False
        return same(E, st, s, ((n, "t", s[0][2], at),))

    def packet(self, E, st, t):
        s = bsegs(t)
        s = tuple(x for x in s or () if not st.eqz(x[0]))
        n = st.mem.get(LEN, ZERO)
        if not s:
            return st.eqz(n)
        return s[0][1] == "t" and s[0][2].op == "strm" and same(E, st, s, ((n, "t", s[0][2], s[0][3]),))

    def param(self, st, i):
        """term of an optional parameter, once it has been looked at"""
        return next((t for t in st.var if isinstance(t, Term) and self.root(t) == i), None)

    def given_as(self, st, i):
        P = self.param(st, i)
        return {None: "?", 0: "absent", 1: "present"}[None if P is None else st.var.get(P)]

    def decoys(self, E, st, t):
        """the caller's decoys: all of them or none"""
        if t.op == "none":
            return "none"
        s = bsegs(t.args[0])
        P = self.param(st, 4)
        if P is not None and st.eq(seglen(s or ()), lin(sym(T("len", T("f", P, 1, 0)), 0, 2 ** 63 - 1))):
            return "all"
        return "some ?"


def kinds_class(E, st, err):
    ks = c14.kinds(E, st, ("T", err, None))
    return "peer gone" if ks <= c14.RETRY else "other" if not ks & c14.RETRY else "any"


def error(E, p, v, cause):
    """a returned error, as a caller sees it; the cause of a transport failure is the transport's
    own error or the end of the stream, which each interface reports with its own kind of error"""
    st = p.st
    x = c14.io_error(E, st, v)
    if x is not None:
        err, sug = x
        t = valterm(err)
        cls = kinds_class(E, st, t)
        if cause is None:
            return ("Io", cls, sug)
        own = t is cause[1] if cause[1] is not None else cls == "peer gone"
        return (cause[0], "Io", "that error" if own else "another error", sug)
    xs = find_adt(E, v, "bip324::io::ProtocolError")
    for y in xs:
        if y[0] == "A":
            e = y[3][0]
            nm = variant_name(E, st, e)
            if nm is None or e[0] == "T" and nm is None:
                nm = "of the step"
            return ("Internal", nm)
    return ("error", str(v)[:80])


def result(E, p, root, cause):
    r = res(p.ret)
    if r == "err":
        return ("err",) + error(E, p, p.ret, cause)
    st = p.st
    out = set()

    def walk(v, d=0):
        if isinstance(v, tuple) and v and d < 12:
            if v[0] == "T":
                out.add(canon(v[1], root) if v[1].op not in ("sess",) else "session reader")
            elif v[0] in ("A", "X"):
                for y in v[3 if v[0] == "A" else 2]:
                    walk(y, d + 1)
            elif v[0] in ("V", "Y"):
                for s in v[2]:
                    if s[1] == "t" and not st.eqz(s[0]) and s[2].op == "opened":
                        n, o, ct = s[0], s[3], s[2].args[1]
                        whole = st.eqz(o) and st.eq(n, seglen(bsegs(ct) or ()) - 16)
                        out.add("contents" if whole else "part of the contents")
    walk(p.ret)
    return ("ok",) + tuple(sorted(out))


def observe(E, ps, ob, ok=True):
    """{observation: [spans]}, with a place for each"""
    out, at = {}, {}

    def add(rec, span, w):
        out.setdefault(rec, set()).add(span)
        at.setdefault(rec, w)
    for p in ps:
        for e in p.trace():
            if "rec" in e.a:
                add(e.a["rec"], e.a["span"], e.where)
        if p.kind == "loop":
            continue
        mon = p.st.mon
        mon = mon[0] if mon and len(mon) == 2 else mon
        step, io, owed, dirty, why = mon or START
        cause = None
        if io == "end of stream":
            io, cause = "failed read", ("peer gone", None)
        elif io == "r":
            io = ""
        elif io:
            cause = (kinds_class(E, p.st, why), why)
        span = ob.span(p.st, step)
        if p.kind == "ret":
            r = result(E, p, ob.root, cause)
            if r[0] == "ok":
                r += (not owed, not dirty)
            add((step, io, "returns") + r, span, where(p))
        else:
            add((step, io, "panics"), span, f"{where(p)}: {p.why}")
    return {k: union(v) for k, v in out.items()}, at


def union(spans):
    out = []
    for a, b in sorted(spans):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def compare(c, name, a, b, least):
    (x, xat), (y, yat) = a, b
    for k in sorted(set(x) | set(y), key=str):
        if k not in y:
            c.ob("the asynchronous interface does everything the blocking one does", name, False, f"{xat[k]}: only blocking: {k}")
        elif k not in x:
            c.ob("the blocking interface does everything the asynchronous one does", name, False, f"{yat[k]}: only asynchronous: {k}")
        else:
            c.ob("the same packet lengths lead there", name, x[k] == y[k], f"{xat[k]} / {yat[k]}: {k}: {x[k]} blocking, {y[k]} asynchronous")
    c.floor(f"observations of {name}", len(set(x) & set(y)), least)


def handshakes(c):
    out = []
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        ob = Observer(roots(mod == "futures"))
        E = handshake_run(c, feat, mod, [ob], "c13")
        out.append(observe(E, E.paths, ob))
    compare(c, "Protocol::new", *out, 20)


def free(c):
    out = []
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        ob = Observer(roots(mod == "futures"))
        k = c.coroutine(feat, mod + "::handshake") if mod == "futures" else c.fn(feat, mod + "::handshake")
        E = c.run(feat, k, contract=HS, monitors=[ob], tag="c13")
        out.append(observe(E, E.paths, ob))
    compare(c, "handshake", *out, 20)


def reads(c, of):
    out = []
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        ob = Observer(lambda t: None)
        both = [ghosted(ob)]
        E, ps = fresh_read(c, feat, mod, False, both, "c13", of)
        out.append(observe(E, ps, ob))
    compare(c, of + "::read", *out, 6)


def ghosted(ob):
    """the stream positions of lib.stream_ghost next to the observer's state"""
    def m(st, ev):
        mine, g = st.mon or (None, ())
        st.mon = g
        stream_ghost(st, ev)
        g, st.mon = st.mon, mine
        ob(st, ev)
        st.mon = (st.mon, g) if st.mon or g else ()
    return m


def writes(c, name):
    out = []
    for feat, mod in (("std", "io"), ("tokio", "futures")):
        ob = Observer(roots(mod == "futures"))
        k = c.coroutine(feat, name, mod) if mod == "futures" else c.fn(feat, name, mod)
        E = c.run(feat, k, contract=CIPHER, monitors=[ob], tag="c13")
        out.append(observe(E, E.paths, ob))
    compare(c, name, *out, 8)


def check(c):
    c.guard("Protocol::new", handshakes, c)
    c.guard("handshake", free, c)
    for n in ("ProtocolReader", "Protocol"):
        c.guard(n + "::read", reads, c, n)
    for n in ("ProtocolWriter::write", "Protocol::write"):
        c.guard(n, writes, c, n)
