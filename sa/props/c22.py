"""Type and dataflow query over every function of both crates. Which fields hold a
secret is read off the values of an abstract execution of a whole handshake and of a
read: a field whose value is made of the key exchange, of an expansion not labelled
session id, of the drawn secret or of opened plaintext. Then: no secret field is public;
every value handed to a formatter, to a panic message, to an unwrap or into an
input/output error is followed back to its sources, none of which may be bytes that are
not shown public; error types carry no bytes at all; nothing an exported function
returns from a state, session or cipher contains a key; nothing is printed or logged."""
import re
from lib import *
from terms import Term
import props.c04 as c04

SETS = (("core", "bip324"), ("std", "bip324"), ("tokio", "bip324"), ("traffic", "bip324_traffic"), ("traffic-tokio", "bip324_traffic"))
PRINT = re.compile(r"^(std::io::stdio::|std::io::_e?print|log::|tracing|std::fs::|std::process::|std::env::set|std::backtrace)")
KEYS = ("prk", "ecdh", "sk", "key")
# foreign values whose rendering shows none of what they carry
OPAQUE = re.compile(r"::(Error|ErrorKind|PoisonError|SendError|TrySendError|RecvError|TryRecvError|JoinError|MaxLengthError|Arguments|Location|Duration|Instant|SystemTime|"
                    r"SystemTimeError|TryFromIntError|TryFromSliceError|LayoutError|AccessError|String|Ordering|TypeId|Atomic\w*|Utf8Error|Elapsed|ThreadId)$")


def walk(v, f, seen=None):
    """every term inside a value or term"""
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Term):
        f(v)
        for a in v.args:
            walk(a, f, seen)
    elif isinstance(v, Lin):
        for x in v.terms() if hasattr(v, "terms") else ():
            walk(x, f, seen)
    elif isinstance(v, (tuple, list)):
        for x in v:
            walk(x, f, seen)


def made(v, draws=(), opened=()):
    """what a value is made of: {'key', 'id', 'plain'} (public otherwise)"""
    out = set()

    def top(t):
        if isinstance(t, Term):
            if t.op == "okm":
                s = bsegs(t.args[1])
                out.add("id" if s and len(s) == 1 and s[0][1] == "c" and bytes(s[0][2]) == b"session_id" else "key")
                return
            if t.op in ("pubkey", "es_of", "es_bytes", "ellswift", "fctx"):
                return
            if t.op in ("prk", "ecdh", "sk") or t in draws:
                out.add("key")
                return
            if t in opened:
                out.add("plain")
                return
            for a in t.args:
                top(a)
        elif isinstance(t, (tuple, list)):
            for x in t:
                top(x)
    top(v)
    return out


def fields(E, st, v, table, draws, opened, depth=0):
    """classify the fields of every crate type inside a value"""
    if not isinstance(v, tuple) or not v or depth > 12:
        return
    if v[0] == "A" and len(v) == 4:
        t = E.ty(v[1])
        for j, x in enumerate(v[3]):
            if t.get("k") == "adt" and t["path"].startswith("bip324"):
                sub = isinstance(x, tuple) and x and x[0] == "A" and local(E.ty(x[1]))
                if not sub:
                    table.setdefault((t["path"], v[2] or 0, j), set()).update(made(x, draws, opened) or {"public"})
            fields(E, st, x, table, draws, opened, depth + 1)


def local(t):
    return t.get("k") == "adt" and t["path"].startswith("bip324")


def harvest(c):
    """(field classes, [(engine, path, value, what)] values a caller holds)"""
    table, held = {}, []
    for ri in (0, 1):
        sub = type(c)(c.prop, c.tier)
        E, ds, k = c04.chain(sub, "std", ri)
        for d in ds[:8]:
            draws = {e.a["out"] for e in events(d["new"], "rng_fill")}
            for nm, vn in (("new", "h0"), ("key", "key_v"), ("rkey", "rkey_v"), ("ver", "ver_v"), ("garb", "garb_v"), ("done", "done_v")):
                fields(E, d[nm].st, d[vn], table, draws, ())
                held.append((E, d[nm], d[vn], f"{nm} as {'initiator' if ri == 0 else 'responder'}", draws))
        c.paths += sub.paths
        c.functions |= sub.functions
    k = c.fn("std", "ProtocolReader::read", "io")
    E = c.run("std", k, contract=CIPHER)
    n = 0
    for p in E.paths:
        if p.kind == "ret" and res(p.ret) == "ok":
            op = {e.a["pt"] for e in events(p, "open") if e.a["ok"]}
            fields(E, p.st, p.ret, table, (), op)
            n += 1
    c.floor("payloads read", n, 1)
    c.floor("fields that hold a key", sum(1 for s in table.values() if "key" in s), 8)
    c.floor("fields that hold plaintext", sum(1 for s in table.values() if "plain" in s), 1)
    return table, held


def public(table, path, variant, j):
    s = table.get((path, variant or 0, j))
    return s is not None and not s & {"key", "plain"}


# ------------------------------------------------------------------ types
def hasbytes(cr, i, seen=None):
    seen = seen if seen is not None else set()
    if i in seen:
        return False
    seen.add(i)
    t = cr.types[i]
    if t is None:
        return False
    k = t["k"]
    if k == "uint":
        return t["n"] == "u8"
    if k in ("array", "slice"):
        return hasbytes(cr, t["e"], seen)
    if k in ("ref", "ptr"):
        return hasbytes(cr, t["to"], seen)
    if k == "tuple":
        return any(hasbytes(cr, x, seen) for x in t["e"])
    if k == "adt":
        if t["path"].startswith("bip324") or OPAQUE.search(t["path"]):
            return False
        if any(hasbytes(cr, a, seen) for a in t.get("args", ()) if isinstance(a, int)):
            return True
        if t["crate"] in ("core", "alloc", "std"):
            return False
        return not t.get("variants") or any(hasbytes(cr, f[1], seen) for v in t["variants"] for f in v["f"])
    return False


def carries(cr, i, seen=None, via=""):
    """does a type carry bytes or an arbitrary value (crate types followed too)?"""
    seen = seen if seen is not None else set()
    if i in seen:
        return None
    seen.add(i)
    t = cr.types[i]
    if t and t["k"] == "adt" and t["path"].startswith("bip324"):
        for v in t["variants"]:
            for f in v["f"]:
                r = carries(cr, f[1], seen, via + f" {v['n']}.{f[0]}")
                if r:
                    return r
        return None
    if t and t["k"] == "adt" and t["path"].split("::")[-1] == "String":
        return via + ": String"
    if t and t["k"] == "dyn":
        return via + ": " + t["s"]
    if t and t["k"] == "adt" and not OPAQUE.search(t["path"]):
        for a in t.get("args", ()):
            if isinstance(a, int):
                r = carries(cr, a, seen, via)
                if r:
                    return r
    return f"{via}: {t.get('s') or t.get('n')}" if hasbytes(cr, i) else None


# ------------------------------------------------------------------ dataflow
class Slice:
    def __init__(self, cr, table):
        self.cr, self.table = cr, table
        self.defs = {}

    def body(self, key):
        if key in self.defs:
            return self.defs[key]
        b = self.cr.d["bodies"][key]
        d = {}
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] == "=":
                    d.setdefault(s[1][0], []).append(("rv", s[2], s[1]))
                    # a mutable borrow lets others write the local
                    if s[2][0] == "ref" and s[2][1]:
                        d.setdefault(s[2][2][0], []).append(("lent", s[1][0]))
            t = blk["t"]
            if t[0] == "call":
                d.setdefault(t[3][0], []).append(("call", t[1], t[2]))
                for a in t[2]:
                    if a[0] in ("c", "m") and not a[1][1]:
                        d.setdefault(("uses", a[1][0]), []).append((t[1], t[2], a))
        self.defs[key] = (b, d)
        return self.defs[key]

    def pty(self, b, place):
        i, variant = b["locals"][place[0]][0], None
        for s in place[1]:
            t = self.cr.types[i]
            if s == "D":
                if t["k"] in ("ref", "ptr"):
                    i = t["to"]
                elif t["k"] == "adt" and t.get("args"):
                    i = t["args"][0]
            elif isinstance(s, list) and s[0] == "F":
                i = s[2]
            elif isinstance(s, list) and s[0] in ("I", "C"):
                i = t.get("e", i)
        return i

    def field(self, b, place):
        """the last crate-type field a place passes through: (class known, public?, text)"""
        i, variant, last = b["locals"][place[0]][0], 0, None
        for s in place[1]:
            t = self.cr.types[i]
            if s == "D":
                i = t["to"] if t["k"] in ("ref", "ptr") else (t.get("args") or [i])[0]
            elif isinstance(s, list) and s[0] == "V":
                variant = s[1]
            elif isinstance(s, list) and s[0] == "F":
                if t["k"] == "adt" and t["path"].startswith("bip324"):
                    last = (t["path"], variant, s[1], t["variants"][variant]["f"][s[1]][0])
                i, variant = s[2], 0
            elif isinstance(s, list) and s[0] in ("I", "C"):
                i = t.get("e", i)
        return last

    def sources(self, key, op, seen=None, depth=0):
        """where the bytes of an operand may come from: texts of sources not public"""
        seen = seen if seen is not None else set()
        if depth > 40:
            return {"too deep"}
        if op[0] == "k":
            return set()
        return self.place(key, op[1], seen, depth)

    def place(self, key, place, seen, depth):
        b, d = self.body(key)
        f = self.field(b, place)
        if f is not None:
            path, variant, j, nm = f
            return set() if public(self.table, path, variant, j) else {f"{path.split('::')[-1]}.{nm}"}
        l = place[0]
        if (key, l) in seen:
            return set()
        seen.add((key, l))
        out = set()
        if 0 < l <= b["argc"]:
            t = self.cr.types[b["locals"][l][0]]
            while t["k"] in ("ref", "ptr"):
                t = self.cr.types[t["to"]]
            nm = b["locals"][l][1] or f"argument {l}"
            return {f"parameter {nm}"} if hasbytes(self.cr, b["locals"][l][0]) or t["k"] in ("param",) else set()
        for df in d.get(l, ()):
            out |= self.source(key, df, seen, depth + 1)
        return out

    def source(self, key, df, seen, depth):
        out = set()
        if df[0] == "lent":
            # whoever got the borrow may have written: its other inputs are sources
            b, d = self.body(key)
            for g, args, a in self.users(key, df[1]):
                for x in args:
                    if x is not a:
                        out |= self.sources(key, x, seen, depth)
            return out
        if df[0] == "call":
            t = self.callee(df[1])
            if t is None:
                return {"an unresolved call"}
            inst = t.get("inst")
            if inst and inst in self.cr.d["bodies"] and self.cr.d["bodies"][inst]["local"]:
                return self.place(inst, [0, []], seen, depth + 1)
            for a in df[2]:
                out |= self.sources(key, a, seen, depth)
            return out
        rv = df[1]
        return self.rvalue(key, rv, seen, depth)

    def users(self, key, l):
        """calls that get a borrow, followed through copies and reborrows"""
        b, d = self.body(key)
        todo, done, out = [l], set(), []
        while todo:
            x = todo.pop()
            if x in done:
                continue
            done.add(x)
            out += d.get(("uses", x), ())
            for y, ds in d.items():
                if not isinstance(y, int):
                    continue
                for df in ds:
                    if df[0] == "rv" and df[1][0] in ("use", "ref", "cast"):
                        o = df[1][1] if df[1][0] == "use" else df[1][2] if df[1][0] == "cast" else ["c", df[1][2]]
                        if o[0] in ("c", "m") and o[1][0] == x:
                            todo.append(y)
        return out

    def rvalue(self, key, rv, seen, depth):
        h = rv[0]
        if h == "use":
            return self.sources(key, rv[1], seen, depth)
        if h in ("ref", "raw"):
            return self.place(key, rv[-1], seen, depth)
        if h == "cast":
            return self.sources(key, rv[2], seen, depth)
        if h == "rep":
            return self.sources(key, rv[1], seen, depth)
        if h == "bin":
            return self.sources(key, rv[2], seen, depth) | self.sources(key, rv[3], seen, depth)
        if h == "un":
            return self.sources(key, rv[2], seen, depth)
        if h == "agg":
            out = set()
            for o in rv[2]:
                out |= self.sources(key, o, seen, depth)
            return out
        return set()

    def callee(self, op):
        if op[0] == "k":
            t = self.cr.types[op[1]["t"]]
            if t["k"] == "fndef":
                return t
        return None

    def operand(self, key, op, seen=None):
        """types and sources an operand may have, looking through references to dyn"""
        seen = set() if seen is None else seen
        b, d = self.body(key)
        if op[0] == "k":
            return []
        i = self.pty(b, op[1])
        t = self.cr.types[i]
        while t["k"] in ("ref", "ptr", "slice", "array") and not (t["k"] in ("slice", "array") and not self.dyn(i)):
            i = t["to"] if t["k"] in ("ref", "ptr") else t["e"]
            t = self.cr.types[i]
        if t["k"] != "dyn":
            return [(i, op)]
        out = []
        l = op[1][0]
        if l in seen:
            return out
        seen.add(l)
        for df in d.get(l, ()):
            if df[0] == "rv":
                rv = df[1]
                nx = {"cast": lambda: [rv[2]], "use": lambda: [rv[1]], "rep": lambda: [rv[1]], "ref": lambda: [["c", rv[2]]], "raw": lambda: [["c", rv[1]]],
                      "agg": lambda: rv[2]}.get(rv[0], list)()
                for o in nx:
                    out += self.operand(key, o, seen)
            elif df[0] == "call":
                for o in df[2]:
                    out += self.operand(key, o, seen)
        return out

    def dyn(self, i):
        t = self.cr.types[i]
        while t["k"] in ("ref", "ptr", "slice", "array"):
            t = self.cr.types[t["to"] if t["k"] in ("ref", "ptr") else t["e"]]
        return t["k"] == "dyn"


SINK = re.compile(r"core::fmt::rt::\{impl#\d+\}::new_|core::fmt::\{impl#\d+\}::(debug_|write_str)|core::fmt::builders|core::panicking::(assert_failed|panic_display|panic_str)|"
                  r"core::result::\{impl#\d+\}::(unwrap|expect|unwrap_err|expect_err)$|::io::error::\{impl#\d+\}::(new|other)$|alloc::string::\{impl#\d+\}::(from_utf8|from_utf8_lossy|from_utf8_unchecked)|"
                  r"core::str::converts::from_utf8|alloc::string::\{impl#\d+\}::to_string|core::fmt::(Debug|Display|LowerHex|UpperHex|Binary|Octal|LowerExp|Pointer)::fmt|std::panic::panic_any|"
                  r"alloc::string::ToString::to_string|core::char::|core::ascii")


def sinks(c, feat, name, table):
    cr = c.crate(feat, name)
    S = Slice(cr, table)
    n = m = 0
    # a rendering of a private type counts once something renders a value of the type
    hidden = {}
    ex = {cr.types[a["t"]]["path"] for a in cr.d["adts"] if a["exported"]}
    for f in cr.d["fns"]:
        if f["selfty"] is not None and f["name"].endswith("::fmt"):
            t = cr.types[f["selfty"]]
            if t["k"] == "adt" and t["path"].startswith("bip324") and t["path"] not in ex:
                hidden.setdefault(t["path"], []).append(f["key"])
    waiting = {k for ks in hidden.values() for k in ks}
    work = [k for k, b in cr.d["bodies"].items() if b["local"] and k not in waiting]
    while work:
        key = work.pop()
        b = cr.d["bodies"][key]
        m += 1
        nm = f"{b['name']} [{feat}]"
        for blk in b["blocks"]:
            t = blk["t"]
            if t[0] != "call":
                continue
            f = S.callee(t[1])
            if f is None:
                continue
            w = f"{cr.d['files'][blk['sp'][0]].split('/repo/')[-1]}:{blk['sp'][1]}"
            if PRINT.match(f["path"]):
                c.ob("nothing is printed or logged", nm, False, f"{w}: {f['path']}")
            if not SINK.search(f["path"]):
                continue
            n += 1
            if re.search(r"result::.*::(unwrap|expect)$", f["path"]):
                # the error is rendered
                e = f["args"][1] if len(f["args"]) > 1 else None
                bad = carries(cr, e) if isinstance(e, int) else None
                c.ob("no secret reaches a rendering", nm, not bad, f"{w}: {f['name']} renders {bad}")
                continue
            args = t[2]
            if "assert_failed" in f["path"]:
                kind = args[0]
                sides = [S.sources(key, a) for a in args[1:3]]
                ty = [hasbytes(cr, x) for x in f["args"] if isinstance(x, int)]
                if not any(ty) or is_ne(S, key, kind) and any(const(S, key, a) for a in args[1:3]):
                    c.ob("no secret reaches a rendering", nm, True)
                    continue
                c.ob("no secret reaches a rendering", nm, not (sides[0] | sides[1]), f"{w}: an assertion shows {sorted(sides[0] | sides[1])}")
                continue
            for a in args:
                for i, op in S.operand(key, a):
                    tt = cr.types[i]
                    if tt["k"] == "adt" and tt["path"] == "core::fmt::Formatter":
                        continue
                    for pth in mentions(cr, i):
                        for k2 in hidden.pop(pth, ()):
                            work.append(k2)
                    if not hasbytes(cr, i):
                        continue
                    src = S.sources(key, op)
                    c.ob("no secret reaches a rendering", nm, not src, f"{w}: {f['name']} shows {sorted(src)}")
    c.obs.append(("no secret reaches a rendering", f"{name} [{feat}]: {n} renderings in {m} functions", True))
    c.sites += n
    c.functions |= {b["name"] for b in cr.d["bodies"].values() if b["local"]}
    c.floor(f"functions searched [{name} {feat}]", m, 30)
    if name == "bip324":
        c.floor(f"renderings found [{feat}]", n, 10)
    for t in cr.types:
        if t and t["k"] == "fndef" and PRINT.match(t["path"]):
            c.ob("nothing is printed or logged", f"{name} [{feat}]", False, t["path"])


def mentions(cr, i, seen=None):
    """crate types a type is made of"""
    seen = seen if seen is not None else set()
    if not isinstance(i, int) or i in seen:
        return set()
    seen.add(i)
    t = cr.types[i]
    out = set()
    if t is None:
        return out
    if t["k"] == "adt":
        if t["path"].startswith("bip324"):
            out.add(t["path"])
        for a in t.get("args", ()):
            out |= mentions(cr, a, seen)
    for key in ("to", "e"):
        x = t.get(key)
        for y in (x if isinstance(x, list) else [x]):
            out |= mentions(cr, y, seen)
    return out


def is_ne(S, key, op):
    """assert_ne's kind (the second of core's AssertKind)"""
    if op[0] == "k":
        return op[1]["v"] == ["i", 1] or "Ne" in str(op[1]["v"])
    b, d = S.body(key)
    ds = d.get(op[1][0], ())
    return bool(ds) and all(x[0] == "rv" and (x[1][0] == "agg" and x[1][1][0] == "adt" and x[1][1][2] == 1 or
                                              x[1][0] == "use" and is_ne(S, key, x[1][1])) for x in ds)


def const(S, key, op, depth=0):
    """does an operand refer to a constant only?"""
    if op[0] == "k":
        return True
    b, d = S.body(key)
    df = [x for x in d.get(op[1][0], ()) if x[0] != "lent"]
    if depth > 12 or not df or any(x[0] == "lent" for x in d.get(op[1][0], ())):
        return False
    for x in df:
        if x[0] != "rv":
            return False
        rv = x[1]
        if rv[0] in ("use", "rep"):
            if not const(S, key, rv[1], depth + 1):
                return False
        elif rv[0] == "ref":
            if not const(S, key, ["c", rv[2]], depth + 1):
                return False
        elif rv[0] == "agg":
            # a tuple of references, as the assertion macros build
            j = next((s[1] for s in op[1][1] if isinstance(s, list) and s[0] == "F"), None)
            ops = rv[2] if j is None else [rv[2][j]]
            if not all(const(S, key, o, depth + 1) for o in ops):
                return False
        elif rv[0] == "cast":
            if not const(S, key, rv[2], depth + 1):
                return False
        else:
            return False
    return True


# ------------------------------------------------------------------ items
def items(c, feat, name, table):
    cr = c.crate(feat, name)
    for a in cr.d["adts"]:
        t = cr.types[a["t"]]
        if not a["exported"] or not t["path"].startswith(name):
            continue
        for vi, v in enumerate(t["variants"]):
            for j, f in enumerate(v["f"]):
                if f[2] != "pub":
                    continue
                ft = cr.types[f[1]]
                s = table.get((t["path"], vi, j), set())
                bad = s & {"key", "plain"}
                if not s and hasbytes(cr, f[1]):
                    bad = {"bytes of unknown origin"}
                c.ob("no secret is a public field", f"{t['path']}.{f[0]} [{feat}]", not bad, f"holds {sorted(bad)}")
    errs = set()
    for im in cr.d["impls"]:
        if im["trait"].endswith("::error::Error"):
            errs.add(im["self"])
    for f in cr.d["fns"]:
        t = cr.types[f["out"]]
        if f["exported"] and t["k"] == "adt" and t["name"] == "Result" and len(t["args"]) > 1:
            errs.add(t["args"][1])
    for i in errs:
        bad = carries(cr, i)
        c.ob("an error carries no bytes", f"{cr.types[i].get('s')} [{feat}]", not bad, f"carries {bad}")
    if name == "bip324":
        c.floor(f"error types [{feat}]", len(errs), 2)


def accessors(c, held):
    """nothing an exported function takes out of a state, session or cipher is a key"""
    n = 0
    seen = set()
    for E, p, v, what, draws in held:
        for obj in parts(E, v):
            tp = adt_path(E, obj)
            for f in E.crate.d["fns"]:
                if not f["exported"] or not f["ins"] or f["async"] or f["key"] not in E.crate.d["bodies"]:
                    continue
                t = E.ty(f["ins"][0])
                by_ref = t["k"] == "ref"
                if by_ref:
                    t = E.ty(t["to"])
                if t.get("k") != "adt" or t["path"] != tp or len(f["ins"]) != 1 or (f["key"], what) in seen:
                    continue
                if tp.endswith("::Handshake") and (t.get("args") or [None])[0] is not None:
                    st = E.ty(t["args"][0])
                    if st["k"] == "adt" and not any(adt_path(E, x) == st["path"] for x in obj[3] if isinstance(x, tuple) and x and x[0] in ("A", "T")):
                        continue
                seen.add((f["key"], what))
                n += 1
                for q in c.then(E, p, f["key"], {1: ref(obj) if by_ref else obj}):
                    if q.kind != "ret":
                        continue
                    bad = made(shown(E, q.st, q.ret), draws) & {"key"}
                    c.ob("only the session id can be taken out", f"{f['name']} after {what}", not bad, f"{where(q)}: returns key material")
    c.floor("ways to look into what a caller holds", n, 10)


def shown(E, st, v, d=0):
    """what a caller sees of a returned value: private fields of crate types left out"""
    if not isinstance(v, tuple) or not v or d > 10:
        return v
    if v[0] == "A" and len(v) == 4:
        t = E.ty(v[1])
        if t.get("k") == "adt" and t["path"].startswith("bip324"):
            fs = t["variants"][v[2] or 0]["f"]
            return tuple(shown(E, st, x, d + 1) for j, x in enumerate(v[3]) if fs[j][2] == "pub")
        return tuple(shown(E, st, x, d + 1) for x in v[3])
    if v[0] == "R":
        try:
            return shown(E, st, E.read(st, v[1] if len(v) == 2 else v[1:]), d + 1)
        except Exception:  # noqa: BLE001 - judged as it is
            return v
    return v


def parts(E, v, d=0):
    out = []
    if isinstance(v, tuple) and v and v[0] == "A" and d < 6:
        t = E.ty(v[1])
        if t.get("k") == "adt" and t["path"].startswith("bip324"):
            out.append(v)
        for x in v[3]:
            out += parts(E, x, d + 1)
    return out


def check(c):
    r = c.guard("what is secret", harvest, c)
    if r is None:
        return
    table, held = r
    for feat, name in SETS:
        c.guard(f"fields and errors [{feat}]", items, c, feat, name, table)
        c.guard(f"renderings [{feat}]", sinks, c, feat, name, table)
    c.guard("accessors", accessors, c, held)
