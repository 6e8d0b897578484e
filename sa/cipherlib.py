"""Induction over the packet number for one direction's cipher.

The cipher value is taken as the handshake creates it; its integer leaves are
matched with closed forms in the packet number n = 224 q + r, its keys with the
abstract keys of epoch q, and one operation is analysed for r <= 222 and r = 223."""
import itertools
from lib import *
from terms import Lin

U64 = 2 ** 64
INB, OUTB = "bip324::InboundCipher", "bip324::OutboundCipher"


def initial(c, feat):
    """[(inbound value, outbound value, engine)] as built by the handshake"""
    k = c.fn(feat, "Handshake::send_version")
    cr = c.crate(feat)
    roles = cr.types[tyid(cr, "bip324::Role")]["variants"]
    out = []
    for i, r in enumerate(roles):
        def setup(E, st, i=i):
            ts = role_terms(E, st, st.mem[("l", st.stack[0].uid, 1)])
            if len(ts) != 1:
                raise Missing(f"role of the handshake: {len(ts)} candidates")
            st.var[ts[0][1]] = i
        E = c.run(feat, k, contract=CIPHER, setup=setup)
        n = 0
        for p in oks(E):
            seals = [e for e in events(p, "seal") if e.a["ok"]]
            ins = find_adt(E, p.ret, INB)
            c.ob("the version message is sealed with the session cipher", "send_version", bool(seals) and len(ins) == 1,
                 f"{where(p)}: {len(seals)} packets, {len(ins)} inbound ciphers")
            if seals and ins:
                n += 1
                out.append((ins[0], seals[0].a["cipherv"], E, p, r["n"]))
        c.floor(f"handshake paths creating ciphers as {r['n']}", n, 1)
    return out


def role_terms(E, st, v, d=0):
    """the role-typed parts of an opaque value"""
    out = []
    if not isinstance(v, tuple) or d > 5:
        return out
    if adt_path(E, v) == "bip324::Role":
        return [v]
    if v[0] == "T" and v[2] is not None and E.ty(v[2])["k"] == "adt" and E.ty(v[2]).get("ak") == "struct" \
            and str(E.ty(v[2]).get("path", "")).startswith("bip324"):
        v = E.expand(v, None, st)
    if v[0] == "A":
        for x in v[3]:
            out += role_terms(E, st, x, d + 1)
    return out


def leaves(E, v, ty=None, path=()):
    """[(path, kind, value, type)]"""
    if isinstance(v, Lin):
        return [(path, "int", v, ty)]
    if isinstance(v, bool):
        return [(path, "bool", v, ty)]
    if isinstance(v, tuple) and v[0] == "A":
        fs = E.ty(v[1])["variants"][v[2]]["f"] if v[1] is not None else [[None, None]] * len(v[3])
        if E.ty(v[1]).get("ak") == "enum":
            return [(path, "enum", v, v[1])]
        out = []
        for i, x in enumerate(v[3]):
            out += leaves(E, x, fs[i][1], path + (i,))
        return out
    if isinstance(v, tuple) and v[0] == "T":
        return [(path, "key", v, v[2])]
    if isinstance(v, tuple) and v[0] == "Y":
        return [(path, "bytes", v, ty)]
    return [(path, "?", v, ty)]


def put(v, path, x):
    if not path:
        return x
    f = list(v[3])
    f[path[0]] = put(f[path[0]], path[1:], x)
    return ("A", v[1], v[2], tuple(f))


def at(v, path):
    for i in path:
        v = v[3][i]
    return v


def shape(v):
    """initial value with the keys' identities removed"""
    if isinstance(v, Lin):
        return v
    if isinstance(v, tuple) and v[0] == "A":
        return (v[1], v[2], tuple(shape(x) for x in v[3]))
    if isinstance(v, tuple) and v[0] == "Y":
        return ("Y", seglen(v[2]))
    if isinstance(v, tuple) and v[0] == "T":
        return ("T", v[2])
    return v


FORMS = {
    "n": lambda q, r: q * 224 + r,
    "r": lambda q, r: r,
    "q": lambda q, r: q,
    "3r": lambda q, r: r * 3,
    "224-r": lambda q, r: mk(224) - r,
    "223-r": lambda q, r: mk(223) - r,
    "672-3r": lambda q, r: mk(672) - r * 3,
    "n+1": lambda q, r: q * 224 + r + 1,
    "r+1": lambda q, r: r + 1,
    "224q": lambda q, r: q * 224,
    "224q+224": lambda q, r: q * 224 + 224,
    "q+1": lambda q, r: q + 1,
    "3n": None,
    "const": None,
}


def form(name, init, q, r):
    if name == "const":
        return init
    return FORMS[name](q, r)


def concrete(name, init, n):
    if name == "const":
        return init.c
    return FORMS[name](mk(n // 224), mk(n % 224)).c


class Induct:
    """ops: [(feat, fn name, what it advances)] with what in {'p','l','pl'}"""

    def __init__(self, c, which, init, E0, ops, joint):
        self.c, self.which, self.init, self.E0 = c, which, init, E0
        self.ops = ops
        self.joint = joint      # one counter for packet and length (sender)
        self.lv = leaves(E0, init)
        bad = [x for x in self.lv if x[1] not in ("int", "key", "bytes")]
        if bad:
            raise Imprecise(f"cipher state {which} has a {bad[0][1]} leaf")
        self.ints = [x for x in self.lv if x[1] == "int"]
        self.keys = [x for x in self.lv if x[1] in ("key", "bytes")]
        for x in self.ints:
            if not x[2].is_const():
                raise Imprecise("initial counter not constant")

    def keyval(self, x):
        """abstract key in place of leaf x; returns (value, term of the 32 bytes)"""
        b = T("epochkey", self.which, x[0])
        seg = ((mk(32), "t", b, ZERO),)
        if x[1] == "bytes":
            return ("Y", x[2][1], seg), b
        return ("T", T("key", T("B", seg)), x[2][2]), b

    def run(self, feat, name, value, facts=()):
        k = self.c.fn(feat, name)

        def setup(E, st):
            st.mem[("o", "cipher")] = value
            st.mem[("l", st.stack[0].uid, 1)] = ("R", ("o", "cipher"), ())
            for f in facts:
                st.facts.add(f)
        return self.c.run(feat, k, setup=setup)

    def post(self, E, p):
        return E.getobj(p.st.fork(), ("o", "cipher"))

    def samples(self):
        """values of the integer leaves after 0, 1, 2 operations"""
        vals = {x[0]: {w: [x[2].c] for w in "pl"} for x in self.ints}
        for what, (feat, name) in self.probe.items():
            v = self.init
            for _ in range(2):
                E = self.run(feat, name, v)
                ps = [p for p in E.paths if p.kind == "ret" and res(p.ret) != "err"]
                if not ps:
                    raise Missing(f"successful path of {name}")
                v = self.post(E, ps[0])
                for x in self.ints:
                    y = at(v, x[0])
                    if not isinstance(y, Lin) or not y.is_const():
                        raise Imprecise(f"counter after {name} is {y}")
                    for w in what:
                        vals[x[0]][w].append(y.c)
        return vals

    def solve(self):
        vals = self.samples()
        cand = []
        for x in self.ints:
            cs = []
            fams = ["p"] if self.joint else ["p", "l"]
            rng = self.E0.irange(x[3])
            moved = [w for w in fams if len(set(vals[x[0]][w])) > 1]
            if len(moved) > 1:
                raise Imprecise("a counter shared by packets and lengths")
            w = moved[0] if moved else None
            for f in FORMS:
                if f == "3n" or (w is None) != (f in ("const", "q", "q+1", "224q", "224q+224")):
                    continue
                for w2 in ([w] if w else (["p"] if f == "const" else fams)):
                    if [concrete(f, x[2], n) for n in range(3)] != vals[x[0]][w2][:3]:
                        continue
                    cs.append((w2, f))
            if not cs:
                cs = [("p", "const")]
            cand.append(cs)
        best = None
        combos = sorted(itertools.product(*cand), key=lambda z: sum(list(FORMS).index(f) for _, f in z))
        for combo in combos[:64]:
            obs = self.attempt(combo, rng_check=True)
            bad = [o for o in obs if not o[2]]
            if best is None or len(bad) < len([o for o in best[1] if not o[2]]):
                best = (combo, obs)
            if not bad:
                break
        for rule, target, ok, detail in best[1]:
            self.c.ob(rule, target, ok, detail)
        self.c.notes.append(f"{self.which}: counters {[f'{w}:{f}' for w, f in best[0]]}")
        return best[0]

    # ------------------------------------------------------------ one combination
    def attempt(self, combo, rng_check):
        obs = []
        sy = {}
        for w in "pl":
            sy[w] = lin(sym(T("epoch", self.which, w), 0, (U64 - 2) // 224))
        if self.joint:
            sy["l"] = sy["p"]
        for (feat, name, what) in self.ops:
            for case in ("step", "rekey"):
                r = {}
                for w in "pl":
                    if w in what or self.joint:
                        r[w] = mk(223) if case == "rekey" else lin(sym(T("idx", self.which, w), 0, 222))
                    else:
                        r[w] = lin(sym(T("idxo", self.which, w), 0, 223))
                if self.joint:
                    r["l"] = r["p"]
                self.one(obs, combo, feat, name, what, case, sy, r)
        return obs

    def build(self, combo, q, r):
        v = self.init
        for x, (w, f) in zip(self.ints, combo):
            v = put(v, x[0], form(f, x[2], q[w], r[w]))
        ks = {}
        for x in self.keys:
            kv, b = self.keyval(x)
            v = put(v, x[0], kv)
            ks[x[0]] = (kv, b)
        return v, ks

    def one(self, obs, combo, feat, name, what, case, q, r):
        tgt = f"{name} [{feat}] {case}"
        ob = lambda rule, ok, d="": obs.append((rule, tgt, bool(ok), d))
        v, ks = self.build(combo, q, r)
        facts = []
        for w in set("pl"):
            facts.append(mk(U64 - 2) - q[w] * 224 - r[w])
        E = self.run(feat, name, v, facts)
        # counters stay inside their types
        for x, (w, f) in zip(self.ints, combo):
            lo, hi = E.irange(x[3])
            val = form(f, x[2], q[w], r[w])
            st = E.paths[0].st.fork()
            st.facts = set(facts)
            ob("the counter's type holds every packet number", st.le(val, mk(hi)) and st.le(mk(lo), val),
               f"counter {x[0]} = {f} does not fit {lo}..{hi}")
        n = 0
        for p in E.paths:
            if p.kind == "panic":
                k = E.crate.body(self.c.fn(feat, name))
                n_, seg = slice_arg(E, k.key, 2)
                if name.endswith("encrypt_to_vec") and p.st.le(mk(2 ** 24), n_):
                    continue    # documented: contents beyond the length field
                ob("no packet number below 2^64 - 1 panics", False, f"{where(p)}: {p.why}")
            if p.kind != "ret":
                continue
            end = self.post(E, p)
            isok = res(p.ret) != "err"
            if not isok:
                continue
            n += 1
            self.path(ob, E, p, end, combo, ks, what, case, q, r)
        ob("a successful path exists", n >= 1, f"{n}")

    def keyis(self, t, kv, b):
        return t is T("key", T("B", ((mk(32), "t", b, ZERO),)))

    def path(self, ob, E, p, end, combo, ks, what, case, q, r):
        st = p.st
        aead = events(p, "aead_enc", "aead_dec")
        pk = [e for e in aead if not is_rekey(e)]
        rk = [e for e in aead if is_rekey(e)]
        stream = events(p, "keystream")
        allk = {T("key", T("B", ((mk(32), "t", b, ZERO),))): path for path, (kv, b) in ks.items()}
        newkey = {}
        w8 = where(p)
        if "p" in what:
            if not ob2(ob, "one packet operation per call", len(pk) == 1, f"{w8}: {len(pk)}"):
                return
            e = pk[0]
            kp = allk.get(e.a["key"])
            ob("the packet key is the current epoch's", kp is not None, f"{w8}: key {e.a['key']}")
            ob("packet nonce is (n mod 224, n div 224)", nonce_is(E, st, e.a["nonce"], r["p"], q["p"]),
               f"{w8}: nonce {e.a['nonce']}")
            if case == "rekey":
                if ob2(ob, "rekeying happens after packet 224k+223", len(rk) == 1, f"{w8}: {len(rk)} rekeyings"):
                    x = rk[0]
                    ob("the rekey nonce is the reserved one", same(E, st, nonce_segs(x.a["nonce"]), rekey_nonce(q["p"])), f"{w8}: {x.a['nonce']}")
                    ob("rekeying encrypts 32 zero bytes under the old key",
                       x.op == "aead_enc" and x.a["key"] is e.a["key"] and same(E, st, bsegs(x.a["pt"]), ((mk(32), "f", ZERO, None),)), w8)
                    newkey[kp] = ((mk(32), "t", x.a["ct"], ZERO),)
            else:
                ob("no rekeying inside an epoch", len(rk) == 0, f"{w8}: {len(rk)} rekeyings")
        else:
            ob("no packet operation", not aead, f"{w8}: {len(aead)}")
        if "l" in what:
            ln = [e for e in stream if not (e.a["raw"] and st.eq(e.a["len"], mk(32)))]
            kk = [e for e in stream if e not in ln]
            if not ob2(ob, "one length operation per call", len(ln) == 1, f"{w8}: {len(ln)}"):
                return
            e = ln[0]
            kl = allk.get(e.a["key"])
            ob("the length key is the current epoch's", kl is not None and (("p" not in what) or kl != allk.get(pk[0].a["key"])),
               f"{w8}: key {e.a['key']}")
            ob("length keystream nonce is (0, n div 224)", same(E, st, nonce_segs(e.a["nonce"]), len_nonce(q["l"])), f"{w8}: {e.a['nonce']}")
            ob("length keystream position is 3 (n mod 224)", st.eq(e.a["pos"], r["l"] * 3) and st.eq(e.a["len"], mk(3)),
               f"{w8}: position {e.a['pos']} length {e.a['len']}")
            if case == "rekey":
                if ob2(ob, "the length cipher rekeys after packet 224k+223", len(kk) == 1, f"{w8}: {len(kk)} rekeyings"):
                    x = kk[0]
                    ob("the next length key is the following 32 keystream bytes",
                       x.a["key"] is e.a["key"] and same(E, st, nonce_segs(x.a["nonce"]), len_nonce(q["l"])) and st.eq(x.a["pos"], mk(672)),
                       f"{w8}: position {x.a['pos']}")
                    newkey[kl] = ((mk(32), "t", x.a["out"], ZERO),)
            else:
                ob("no length rekeying inside an epoch", not kk, f"{w8}: {len(kk)} rekeyings")
        else:
            ob("no length operation", not stream, f"{w8}: {len(stream)}")
        # the state after
        q2, r2 = dict(q), dict(r)
        for w in "pl":
            if w in what:
                q2[w], r2[w] = (q[w] + 1, ZERO) if case == "rekey" else (q[w], r[w] + 1)
        for x, (w, f) in zip(self.ints, combo):
            got = at(end, x[0])
            want = form(f, x[2], q2[w], r2[w])
            ob("counters describe the next packet number", isinstance(got, Lin) and st.eq(got, want), f"{w8}: counter {x[0]} is {got}, expected {want}")
        for x in self.keys:
            got = at(end, x[0])
            kv, b = ks[x[0]]
            if x[0] in newkey:
                ob("the next epoch uses the new key", keysegs_same(E, st, got, newkey[x[0]]), f"{w8}: key {got}")
            else:
                ob("other keys stay", keysegs_same(E, st, got, ((mk(32), "t", b, ZERO),)), f"{w8}: key {x[0]} changed to {got}")


def ob2(ob, rule, ok, d):
    ob(rule, ok, d)
    return ok


def keysegs_same(E, st, v, want):
    if isinstance(v, tuple) and v[0] == "T" and v[1].op == "key":
        return same(E, st, bsegs(v[1].args[0]), want)
    if isinstance(v, tuple) and v[0] == "Y":
        return same(E, st, v[2], want)
    return False


def le_is(E, st, seg, n, x):
    """segment list is the n-byte little-endian form of x"""
    if not st.le(ZERO, x) or not st.le(x, mk(256 ** min(n, 8) - 1)):
        return False
    b = E.pin(st, x)
    if b is not None:
        return same(E, st, seg, ((mk(n), "c", b.to_bytes(n, "little"), None),))
    return same(E, st, seg, ((mk(n), "t", T("le", x, n), ZERO),))


def nonce_is(E, st, t, r, q):
    s = nonce_segs(t)
    if not s or not st.eq(seglen(s), mk(12)):
        return False
    return le_is(E, st, E.sub(st, s, ZERO, mk(4)), 4, r) and le_is(E, st, E.sub(st, s, mk(4), mk(8)), 8, q)


def rekey_nonce(q):
    return ((mk(4), "c", b"\xff" * 4, None), (mk(8), "t", T("le", q, 8), ZERO))


def len_nonce(q):
    return ((mk(4), "c", b"\0" * 4, None), (mk(8), "t", T("le", q, 8), ZERO))
