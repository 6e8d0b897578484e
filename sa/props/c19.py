"""Abstract interpretation of the shaped interfaces for every configuration: what the
handshake is given as garbage and decoys, and what writing and the background worker
add, with the lengths bounded by the facts that hold where they are handed over."""
from traffic import *

MAXGARBAGE, MAXDECOYS, MAXDECOY = 4095, 3, 1024


def random(x):
    """does a value come from the random generator (or from a loop, which is not followed)"""
    if isinstance(x, Term):
        return x.op == "phi" or any(random(y) for y in x.args)
    if isinstance(x, Lin):
        return any(random(y.term) for y, _ in x.t)
    return x in ("rand", "rnd") if isinstance(x, str) else isinstance(x, tuple) and any(random(y) for y in x)


class Sizes:
    """marks each packet written with whether its length is within bounds right there"""

    def __call__(self, st, ev):
        if ev.op == "p_write" and kind(ev.a["payload"]) is not None:
            n = plen(ev.a["payload"])
            ev.a["within"] = st.entails(n - 1) and st.entails(MAXDECOY - n)


def handshake(c, W, cfg):
    nm = f"{W.mod} with {cfg}"
    padding, decoys = CONFIGS[cfg]
    seen = 0
    for q in W.news:
        for e in q.trace():
            if e.op != "p_new":
                continue
            seen += 1
            g, d = (option(q.st, e.a["args"][i]) for i in (2, 3))
            if g is not None:
                n = seglen(mo.segs_of(W.E, q.st, g))
                if padding == "Random":
                    c.ob("generated garbage is at most 4095 bytes", nm, q.st.entails(MAXGARBAGE - n), f"{e.where}: {n} bytes")
                    for x in mo.segs_of(W.E, q.st, g):
                        if not q.st.eqz(x[0]):
                            c.ob("generated garbage is random", nm, random(x[2]), f"{e.where}: {str(x)[:100]}")
                else:
                    c.ob("padding disabled generates no garbage", nm, q.st.decidec(("eq", n)) is True, f"{e.where}: {n} bytes")
            if d is None:
                continue
            xs = items(W.E, q.st, d)
            if not c.ob("handshake decoys can be counted", nm, xs is not None, f"{e.where}: {str(d)[:100]}"):
                continue
            if decoys != "Random":
                c.ob("decoys disabled generates no handshake decoys", nm, not xs, f"{e.where}: {len(xs)} decoys")
            c.ob("at most three handshake decoys", nm, len(xs) <= MAXDECOYS, f"{e.where}: {len(xs)} decoys")
            for x in xs:
                n = seglen(mo.segs_of(W.E, q.st, x))
                c.ob("a handshake decoy has 1 to 1024 bytes", nm, q.st.entails(n - 1) and q.st.entails(MAXDECOY - n), f"{e.where}: {n} bytes")
    c.floor(f"handshakes of {nm}", seen, 1)


def packets(c, W, cfg, what, ev, own):
    nm = f"{W.mod} {what} with {cfg}"
    k = 0
    for e in ev:
        if e.op == "unknown":
            c.ob("analysis must succeed", nm, False, f"{e.where}: {e.a['fn']}")
        if e.op != "p_write":
            continue
        t = e.a["payload"]
        if t in own:
            continue
        k += 1
        # what accompanies a payload is padding, what comes by itself a decoy
        strategy = CONFIGS[cfg][0 if what == "write" or e.a["padding"] else 1]
        c.ob("a disabled strategy sends nothing", nm, strategy == "Random", f"{e.where}: {str(t)[:80]}")
        c.ob("what is generated is a decoy", nm, kind(t) == "Decoy", f"{e.where}: {str(t)[:80]}")
        c.ob("generated packets have 1 to 1024 bytes", nm, e.a.get("within") is True, f"{e.where}: {str(t)[:80]}")
    return k


class Turn:
    """whether a packet of the writer task belongs to a command or to the clock"""

    def __call__(self, st, ev):
        if ev.op == "recv" and ev.a["some"]:
            st.mon = ("command",)
        elif ev.op in ("tick", "sleep"):
            st.mon = ("clock",)
        elif ev.op == "p_write":
            ev.a["padding"] = st.mon == ("command",)


def check(c):
    for mod in ("io", "futures"):
        for cfg in CONFIGS:
            def one():
                W = World(c, mod, cfg, [Sizes(), Turn()], "c19")
                handshake(c, W, cfg)
                p = W.one()
                s, r, w = W.split(p)
                n = 0
                for name, v in (("ShapedProtocolWriter::write", w), ("ShapedProtocol::write", p.ret[3][0])):
                    for q, ev in W.then(s if v is w else p, name, v):
                        own = [t for e in ev if e.op == "p_write" for t in (e.a["payload"],) if t.op == "deref" and "payload" in t.args[0].args]
                        n += packets(c, W, cfg, "write", ev, own)
                if mod == "futures":
                    cmd, own, tx = W.command(p, w)
                    W.E.opts["recv"] = cmd
                else:
                    own = []
                k = 0
                for sp in W.workers(p):
                    for q, ev in W.work(p, sp):
                        k += packets(c, W, cfg, "worker", ev, own)
                if CONFIGS[cfg][0] == "Random" and mod == "io":
                    c.floor(f"paddings of {mod} with {cfg}", n, 1)
                if CONFIGS[cfg][1] == "Random" or CONFIGS[cfg][0] == "Random" and mod == "futures":
                    c.floor(f"packets of the worker of {mod} with {cfg}", k, 1)
            c.guard(f"{mod} with {cfg}", one)
    c.guard("Default", default, c)


def default(c):
    """the default configuration is the one with both strategies disabled"""
    for mod in ("io", "futures"):
        E, p = config(c, mod, "off", tag="default")
        want = valterm(p.ret)
        feat = FEAT[mod]
        ks = [f["key"] for f in c.crate(feat, CR).d["fns"] if "TrafficConfig as" in f["name"] and f["name"].endswith("Default>::default")]
        ks.append(pub(c, feat, "TrafficConfig::new"))
        for k in ks:
            for q in c.then(E, p, k, {}):
                c.ob("the default disables both strategies", f"{k} [{feat}]", q.kind == "ret" and valterm(q.ret) is want, str(q.ret)[:100])
        c.floor(f"defaults [{feat}]", len(ks), 2)
