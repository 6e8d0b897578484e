"""Shared set-up of the traffic shaping rules: a shaped connection is built through the
public interface for every configuration, and reading, writing, dropping and the
background worker are continued from that state. The session below is used through
its contract (contracts.PROTO)."""
from lib import *
from contracts import PROTO
from ctx import Missing
from terms import Term
import models as mo

CR = "bip324_traffic"
CONFIGS = {"default": (None, None), "off": ("Disabled", "Disabled"), "padding": ("Random", "Disabled"), "decoys": ("Disabled", "Random"), "both": ("Random", "Random")}
FEAT = {"io": "traffic", "futures": "traffic-tokio"}


def pub(c, feat, name, mod=None):
    return c.fn(feat, name, mod, CR)


def call(c, E, p, key, args):
    """continue a path with a function; an async one is run to completion"""
    out = []
    for q in c.then(E, p, key, args):
        r = q.ret
        if q.kind == "ret" and isinstance(r, tuple) and r[0] == "A" and r[1] is not None and E.ty(r[1])["k"] == "coroutine":
            out += c.then(E, q, E.ty(r[1])["inst"], {1: r})
        else:
            out.append(q)
    return out


def enum(E, ty, name):
    for i, v in enumerate(E.ty(ty)["variants"]):
        if v["n"] == name:
            return ("A", ty, i, ())
    raise Missing(f"variant {name}")


def config(c, mod, cfg, monitors=(), tag=""):
    """(engine, path whose result is the configuration)"""
    feat = FEAT[mod]
    E = c.run(feat, pub(c, feat, "TrafficConfig::new"), CR, contract=PROTO, monitors=monitors, opts={"unroll": 6, "lists": True}, tag=("traffic", mod, cfg, tag))
    if len(E.paths) != 1 or E.paths[0].kind != "ret":
        raise Missing("TrafficConfig::new")
    p = E.paths[0]
    for nm, v in zip(("padding", "decoy"), CONFIGS[cfg]):
        if v is None:
            continue
        k = pub(c, feat, f"TrafficConfig::with_{nm}_strategy")
        ty = next(f for f in E.crate.d["fns"] if f["key"] == k)["ins"][1]
        ps = c.then(E, p, k, {1: p.ret, 2: enum(E, ty, v)})
        if len(ps) != 1 or ps[0].kind != "ret":
            raise Missing(k)
        p = ps[0]
    return E, p


class World:
    """one shaped connection: the engine, the paths of new, and what follows"""

    def __init__(self, c, mod, cfg, monitors=(), tag=""):
        self.c, self.mod, self.cfg, self.feat = c, mod, cfg, FEAT[mod]
        self.E, p = config(c, mod, cfg, monitors, tag)
        self.base = len(p.trace())
        self.news = call(c, self.E, p, pub(c, self.feat, "ShapedProtocol::new", mod), {3: p.ret})
        self.E.opts["unroll"] = 0
        self.oks = [q for q in self.news if q.kind == "ret" and res(q.ret) == "ok"]
        if not self.oks:
            raise Missing("no shaped connection is ever established")

    def one(self):
        """a representative established connection: they differ in handshake filler only"""
        return min(self.oks, key=lambda q: len(q.trace()))

    def split(self, p):
        ps = self.c.then(self.E, p, pub(self.c, self.feat, "ShapedProtocol::into_split", self.mod), {1: p.ret[3][0]})
        if len(ps) != 1 or ps[0].kind != "ret":
            raise Missing("into_split")
        return ps[0], ps[0].ret[3][0], ps[0].ret[3][1]

    def then(self, p, name, value):
        """paths of a public method on a value, each with the events it adds"""
        n = len(p.trace())
        ps = call(self.c, self.E, p, pub(self.c, self.feat, name, self.mod), {1: ref(value)})
        return [(q, q.trace()[n:]) for q in ps]

    def workers(self, p):
        return [e for e in p.trace() if e.op == "spawn"]

    def work(self, p, sp):
        """paths of the background worker"""
        n = len(p.trace())
        b = sp.a["body"]
        return [(q, q.trace()[n:]) for q in self.c.then(self.E, p, self.E.ty(b[1])["inst"], {1: b})]

    def command(self, p, w):
        """what the asynchronous writer hands to its task: (command, payload, answer channel)"""
        out = []
        for q, ev in self.then(p, "ShapedProtocolWriter::write", w):
            for e in ev:
                if e.op == "chan_send" and e.a["ok"] and e.a["val"] not in out:
                    out.append(e.a["val"])
        if len(out) != 1:
            raise Missing(f"commands sent to the writer task: {len(out)}")
        v = out[0]
        return v, [t for t in leaves(v) if t.op == "deref"], [t for t in leaves(v) if t.op == "tx"]


def leaves(v, out=None):
    """terms of the opaque values inside a value"""
    out = [] if out is None else out
    if isinstance(v, tuple) and v:
        if v[0] == "T":
            out.append(v[1])
        elif v[0] in ("A", "X"):
            for x in v[3 if v[0] == "A" else 2]:
                leaves(x, out)
        elif v[0] in ("V", "Y"):
            for s in v[2]:
                leaves(s[2] if isinstance(s[2], tuple) else None, out)
    return out


def reach(E, st, v, out=None, seen=None):
    """opaque terms reachable from a value, through shared pointers too"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(v, tuple) and v:
        if v[0] == "T":
            out.append(v[1])
        elif v[0] == "R":
            if v[1] not in seen:
                seen.add(v[1])
                x = st.mem.get(v[1])
                if x is not None:
                    reach(E, st, x, out, seen)
        elif v[0] in ("A", "X"):
            for x in v[3 if v[0] == "A" else 2]:
                reach(E, st, x, out, seen)
    return out


def environment(p):
    """a panic because the clock is set before 1970 or another thread already panicked"""
    for t, i in p.st.var.items():
        if i == 1 and isinstance(t, Term) and t.op == "time_duration_since" and isinstance(t.args[1], Term) and t.args[1].op == "const":
            return True
    return any(e.op == "lock" and not e.a["ok"] and e.a["poisoned"] for e in p.trace())


def plen(t):
    """length of a payload's contents, as recorded or written"""
    if t.op == "mkpayload":
        return seglen(t.args[1].args[0])
    return lin(sym(T("len", T("contents", t)), 0, 2 ** 63 - 1))


def kind(t):
    return t.args[0] if t.op == "mkpayload" else None


RAW = ("seal", "aead_enc", "keystream", "write_all", "write", "flush", "poll_write", "open", "aead_dec", "read", "read_exact", "poll_read")


def items(E, st, v):
    """elements of a list value, None if its extent is not fixed"""
    while v[0] == "R":
        v = E.read(st, (v[1], v[2]))
    if v[0] not in ("V", "Y"):
        return None
    out = []
    for n, k, a, b in v[2]:
        if k != "v":
            if n is ZERO or st.decidec(("eq", n)) is True:
                continue
            return None
        out += a
    return out


def option(st, v):
    """(None, value or None) once decided; raises Missing if it cannot be told apart"""
    if v[0] == "A":
        return v[3][0] if v[2] == 1 else None
    i = st.variant(v)
    if i == 0:
        return None
    raise Missing(f"an optional list that is neither present nor absent: {str(v)[:80]}")
