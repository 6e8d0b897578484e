"""Type-level query and compile-fail witnesses. From the signatures of every exported
function the step relation of the handshake is computed: a step takes its state by
value, leads only to the next state, ciphers come out of the last step alone, and no
state, session or cipher can be built, duplicated, defaulted, converted or borrowed into
existence otherwise (fields, constructors, trait implementations, generic parameters).
Each misuse of the interface is also written as a program that differs from an accepted
program in one statement: the compiler must refuse the one and accept the other.
Abstract interpretation of the last step shows that it yields a session only after
authenticating a genuine packet."""
import witness
from lib import *

HSP = "bip324::handshake::"
STATES = ("Initialized", "SentKey", "ReceivedKey", "SentVersion", "ReceivedGarbage")
CIPHERS = ("InboundCipher", "OutboundCipher", "CipherSession", "SessionKeyMaterial")
# the whole step relation: state -> what a call on it may produce
STEPS = {
    None: {"Initialized"},
    "Initialized": {"SentKey"},
    "SentKey": {"ReceivedKey"},
    "ReceivedKey": {"SentVersion"},
    "SentVersion": {"SentVersion", "ReceivedGarbage"},
    "ReceivedGarbage": {"ReceivedGarbage", "CipherSession"},
    "CipherSession": {"CipherSession", "InboundCipher", "OutboundCipher"},
    "InboundCipher": {"InboundCipher"}, "OutboundCipher": {"OutboundCipher"},
}


class Types:
    def __init__(self, cr):
        self.cr = cr
        # the handshake type is the exported generic one whose instances carry the exported states
        self.state = {}
        for i, t in enumerate(cr.types):
            if t and t["k"] == "adt" and t["path"].startswith("bip324::") and t["name"] in STATES:
                self.state[i] = t["name"]

    def owned(self, i, seen=None, refs=False):
        """states and ciphers inside a type that a holder of a value of it holds too
        (through public and private fields alike, not through references)"""
        out = {}
        seen = set() if seen is None else seen
        if i is None or i in seen:
            return set()
        seen.add(i)
        t = self.cr.types[i]
        if t is None:
            return set()
        if t["k"] == "adt":
            n = t["name"]
            if t["path"].startswith("bip324::") and n in CIPHERS:
                return {n}
            if t["path"].startswith("bip324::") and n in STATES:
                return {n}
            r = set()
            for a in t.get("args", ()):
                if isinstance(a, int):
                    r |= self.owned(a, seen, refs)
            for v in t.get("variants") or ():
                for f in v["f"]:
                    r |= self.owned(f[1], seen, refs)
            return r
        if t["k"] in ("ref", "ptr"):
            return self.owned(t["to"], seen, refs) if refs else set()
        r = set()
        for x in [t.get("e")] + list(t.get("up", ())):
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, int):
                    r |= self.owned(y, seen, refs)
        return r


def relation(c, feat):
    cr = c.crate(feat)
    T_ = Types(cr)
    tag = f"[{feat}]"
    steps = {}
    n = walks = 0
    for f in cr.d["fns"]:
        if not f["exported"]:
            continue
        n += 1
        if f["async"]:
            out = set()
            for t in cr.types:
                if t and t["k"] == "coroutine" and t["path"] == f["vpath"] + "::{closure#0}":
                    out |= T_.owned(t["ret"])
        else:
            out = T_.owned(f["out"])
        if "SessionKeyMaterial" in out:
            # derived from a secret key the caller must already have; no cipher can be built from it
            out.discard("SessionKeyMaterial")
        lent = T_.owned(f["out"], refs=True) - out - {"SessionKeyMaterial"}
        if not out and not lent:
            continue
        have, borrowed = set(), set()
        for i in f["ins"]:
            have |= T_.owned(i)
            if cr.types[i]["k"] == "ref":
                borrowed |= T_.owned(i, refs=True)
        nm = f"{f['vpath']} {tag}"
        whole = None
        if f["path"].endswith("Clone>::clone") or f["name"].endswith(" as Clone>::clone"):
            bad = (out | borrowed) & (set(STATES))
            c.ob("a handshake state cannot be duplicated", nm, not bad, f"clones {bad}")
            continue
        for o in lent:
            near = have | borrowed
            c.ob("a state or cipher is lent only by what holds it", nm, o in near or o in CIPHERS and "CipherSession" in near, f"lends {o} holding {sorted(near)}")
        for o in out:
            src = {s for s, to in STEPS.items() if o in to and s is not None and s != o}
            keeps = o in have                           # handed in and handed back
            first = o == "Initialized"
            good = keeps or first or bool(have & src)
            if not good:
                if whole is None:
                    whole = c.guard(nm, runs_all, c, feat, f, cr) or False
                    walks += 1
                good = whole
            c.ob("a state or cipher comes only out of the step before it", nm, good, f"yields {o} holding {sorted(have) or 'nothing'}, lending {sorted(borrowed)}")
            if not keeps and have & set(STATES):
                for s in have & set(STATES):
                    c.ob("no step is skipped", nm, o in STEPS[s], f"{s} leads to {o}")
                    steps.setdefault(s, set()).add(o)
                    if o == "CipherSession":
                        c.guard(nm, last, c, feat, f)
            elif keeps and o in STATES:
                steps.setdefault(o, set()).add(o)
    c.functions |= {f["vpath"] for f in cr.d["fns"]}
    c.floor(f"exported functions {tag}", n, 30)
    for s in STATES:
        c.ob("every step exists", f"{s} {tag}", bool(steps.get(s)), f"{steps}")
    c.floor(f"functions that run a whole handshake {tag}", walks, {"core": 0, "std": 2, "tokio": 4}[feat])
    ex = {a["t"] for a in cr.d["adts"]}
    for im in cr.d["impls"]:
        own = T_.owned(im["self"])
        t = cr.types[im["self"]]
        tr = im["trait"].split("::")[-1]
        if own & set(STATES) or t.get("name") == "Handshake":
            c.ob("no trait makes, copies or replaces a handshake state", f"{tr} for {t.get('s')} {tag}",
                 tr not in ("Clone", "Copy", "Default", "From", "TryFrom", "FromStr", "DerefMut", "BorrowMut", "AsMut", "FromIterator", "Deserialize", "TrivialClone")
                 or not exported(cr, im["self"]), f"{cr.d['files'][im['span'][0]]}:{im['span'][1]}")
        elif own & set(CIPHERS):
            c.ob("no trait makes a cipher", f"{tr} for {t.get('s')} {tag}",
                 tr not in ("Default", "From", "TryFrom", "FromStr", "DerefMut", "BorrowMut", "AsMut", "FromIterator", "Deserialize") or not exported(cr, im["self"]),
                 f"{cr.d['files'][im['span'][0]]}:{im['span'][1]}")
    for a in cr.d["adts"]:
        t = cr.types[a["t"]]
        nm = t["name"]
        if nm in STATES + CIPHERS + ("Handshake",) and t["path"].startswith("bip324::"):
            if nm == "SessionKeyMaterial":
                continue
            for v in t["variants"]:
                pub = [f[0] for f in v["f"] if f[2] == "pub"]
                c.ob("states and ciphers have private parts only", f"{t['path']} {tag}", not pub and v["f"], f"public fields {pub}")


def exported(cr, i):
    for a in cr.d["adts"]:
        if cr.types[a["t"]]["path"] == cr.types[i].get("path"):
            return a["exported"]
    return False


def runs_all(c, feat, f, cr):
    """does every successful path of the function complete the whole handshake?"""
    k = f["key"]
    if f["async"]:
        h = k.split("@")
        k = h[0] + "::{closure#0}" + ("@" + h[1] if len(h) > 1 else "")
    E = c.run(feat, k, contract=HS)
    n = 0
    for p in E.paths:
        if p.kind == "ret" and res(p.ret) != "err":
            n += 1
            if not [e for e in events(p, "receive_version") if e.a["res"] == "Complete"]:
                return False
    return n > 0


def last(c, feat, f):
    """the session comes out only after a genuine packet was authenticated"""
    E = c.run(feat, f["key"], contract=CIPHER)
    n = 0
    for p in E.paths:
        if p.kind != "ret" or res(p.ret) == "err" or not find_adt(E, p.ret, "bip324::CipherSession"):
            continue
        if variant(E, p) not in ("Complete", None):
            continue
        n += 1
        ds = [e for e in events(p, "open") if e.a["ok"]]
        c.ob("a session comes only from an authenticated packet", f"{f['name']} [{feat}]", bool(ds), f"{where(p)}: no successful decryption")
        for e in ds[-1:]:
            b = lin(sym(T("elem", e.a["pt"], ZERO), 0, 255))
            c.ob("a session comes only from a genuine packet", f"{f['name']} [{feat}]", both_possible(p.st, b) == ["Genuine"],
                 f"{where(p)}: may be {both_possible(p.st, b)}")
    c.floor(f"paths of {f['name']} that yield a session [{feat}]", n, 1)


def variant(E, p):
    w = find_adt(E, p.ret, "bip324::handshake::VersionResult")
    return variant_name(E, p.st, w[0]) if w else None


# ------------------------------------------------------------------ witnesses
BASE = """#![allow(warnings)]
use bip324::*;
fn init() -> Handshake<Initialized> { Handshake::new([0; 4], Role::Initiator).unwrap() }
fn steps(net: &mut [u8]) -> Result<(), Error> {
    let mut out = [0u8; 9999]; let mut tmp = [0u8; 9999];
    let a = init();
/*1*/
    let b = a.send_key(Some(&[1]), &mut out)?;
/*2*/
    let c = b.receive_key([0; 64])?;
/*3*/
    let d = c.send_version(&mut out, None)?;
/*4*/
    let mut e = match d.receive_garbage(net)? { GarbageResult::FoundGarbage { handshake, .. } => handshake, GarbageResult::NeedMoreData(_) => return Ok(()) };
    let n = e.decrypt_packet_len([0; 3])?;
/*5*/
    let s = match e.receive_version(&mut tmp[..n])? { VersionResult::Complete { cipher } => cipher, VersionResult::Decoy(_) => return Ok(()) };
    let id = *s.id();
/*6*/
    let (mut i, mut o) = s.into_split();
/*7*/
    Ok(())
}
/*8*/
"""


def at(n, text):
    return BASE.replace(f"/*{n}*/", text)


def misuses():
    m = {}
    later = {1: ("a", "Initialized"), 2: ("b", "SentKey"), 3: ("c", "ReceivedKey"), 4: ("d", "SentVersion"), 5: ("e", "ReceivedGarbage"), 6: ("s", None)}
    call = {"send_key": "send_key(None, &mut out)", "receive_key": "receive_key([0; 64])", "send_version": "send_version(&mut out, None)",
            "receive_garbage": "receive_garbage(&[])", "receive_version": "receive_version(&mut tmp)", "decrypt_packet_len": "decrypt_packet_len([0; 3])",
            "id": "id()", "inbound": "inbound()", "outbound": "outbound()", "into_split": "into_split()"}
    own = {"a": {"send_key"}, "b": {"receive_key"}, "c": {"send_version"}, "d": {"receive_garbage"}, "e": {"receive_version", "decrypt_packet_len"},
           "s": {"id", "inbound", "outbound", "into_split"}}
    # skip or reorder: every step called in every state it does not belong to
    for n, (v, st) in later.items():
        for step, text in call.items():
            if step not in own[v]:
                m[f"{step} on {st or 'CipherSession'}"] = at(n, f"    let z = {v}.{text};")
    # repeat or reuse: every state used again after its step
    after = {2: ("a", call["send_key"]), 3: ("b", call["receive_key"]), 4: ("c", call["send_version"]), 5: ("d", call["receive_garbage"]),
             6: ("e", call["receive_version"]), 7: ("s", "into_split()")}
    for n, (v, text) in after.items():
        m[f"{v} used again after its step"] = at(n, f"    let z = {v}.{text};")
        m[f"{v} inspected after its step"] = at(n, f"    let z = &{v};")
    m["the length read after the version was received"] = at(6, "    let z = e.decrypt_packet_len([0; 3]);")
    # duplicate
    for n, (v, st) in later.items():
        if st:
            m[f"{st} cloned"] = at(n, f"    let z: Handshake<_> = {v}.clone(); let y = {v};")
            m[f"{st} copied"] = at(n, f"    let z = {v}; let y = {v};")
            m[f"{st} taken"] = at(n, f"    let mut z = {v}; let y = core::mem::take(&mut z);")
    # forge
    for st in STATES:
        m[f"{st} built"] = at(8, f"fn z() {{ let x = {st} {{ }}; }}")
        m[f"{st} as a unit"] = at(8, f"fn z() {{ let x = {st}; }}")
        m[f"Handshake<{st}> by default"] = at(8, f"fn z() {{ let x: Handshake<{st}> = Default::default(); }}")
        m[f"{st} by default"] = at(8, f"fn z() {{ let x: {st} = Default::default(); }}")
        if st != "Initialized":
            m[f"Handshake<{st}> made new"] = at(8, f"fn z() {{ let x = Handshake::<{st}>::new([0; 4], Role::Initiator); }}")
            m[f"Initialized converted into {st}"] = at(8, f"fn z() {{ let x: Handshake<{st}> = init().into(); }}")
        for fld in ("magic", "role", "state"):
            m[f"Handshake<{st}> field {fld}"] = at(8, f"fn z(x: Handshake<{st}>) {{ let y = x.{fld}; }}")
    m["Handshake built"] = at(8, "fn z(s: Initialized) { let x = Handshake { magic: [0; 4], role: Role::Initiator, state: s }; }")
    m["Handshake rebuilt with another state"] = at(8, "fn z<'a>(h: Handshake<Initialized>, s: SentVersion) { let x = Handshake { state: s, ..h }; }")
    m["a state of the caller's own"] = at(8, "struct Mine; fn z() { let x = Handshake::<Mine>::new([0; 4], Role::Initiator); }")
    m["an own step added to a state"] = at(8, "impl Handshake<Initialized> { pub fn skip(self) {} }")
    # ciphers without a handshake
    for ci in ("InboundCipher", "OutboundCipher", "CipherSession"):
        m[f"{ci} built"] = at(8, f"fn z() {{ let x = {ci} {{ }}; }}")
        m[f"{ci} by default"] = at(8, f"fn z() {{ let x: {ci} = Default::default(); }}")
        m[f"{ci} made new without keys"] = at(8, f"fn z() {{ let x = {ci}::new(); }}")
    m["CipherSession made from key material"] = at(8, "fn z(k: SessionKeyMaterial) { let x = CipherSession::new(k, Role::Initiator); }")
    m["CipherSession converted from key material"] = at(8, "fn z(k: SessionKeyMaterial) { let x: CipherSession = k.into(); }")
    m["key material built"] = at(8, "fn z() { let x = SessionKeyMaterial { session_id: [0; 32] }; }")
    m["key material read"] = at(8, "fn z(k: SessionKeyMaterial) { let x = k.initiator_packet_key; }")
    m["cipher taken out of a state"] = at(5, "    let z = e.state;")
    m["session taken out of the version result early"] = at(4, "    let z: CipherSession = d;")
    m["a cipher module reached"] = at(8, "use bip324::fschacha20poly1305::FSChaCha20;")
    m["the state module reached"] = at(8, "use bip324::handshake::EcdhPoint;")
    m["version result forged"] = at(8, "fn z() { let x = VersionResult::Complete { cipher: unknown() }; fn unknown() -> CipherSession { CipherSession::new() } }")
    m["io connection made of ciphers"] = at(8, "fn z<R: std::io::Read, W: std::io::Write>(reader: bip324::io::ProtocolReader<R>, writer: bip324::io::ProtocolWriter<W>) { let x = bip324::io::Protocol { reader, writer }; }")
    return m


def lifetimes():
    return {"garbage outlives its buffer": at(8, """fn z() -> Result<(), Error> { let mut out = [0u8; 99]; let h = { let g = [1u8; 3]; init().send_key(Some(&g), &mut out)? };
    let k = h.receive_key([0; 64])?; Ok(()) }"""),
            "received garbage outlives its buffer": at(8, """fn z<'a>(h: Handshake<SentVersion>) -> Handshake<ReceivedGarbage<'static>> { let b = [1u8; 3];
    match h.receive_garbage(&b).unwrap() { GarbageResult::FoundGarbage { handshake, .. } => handshake, _ => loop {} } }""")}


def programs(c):
    for feat in ("std", "tokio"):
        jobs = {"base": (feat, BASE)}
        for k, s in {**misuses(), **lifetimes()}.items():
            jobs[k] = (feat, s)
        if feat == "tokio" and c.tier != "thorough":
            jobs = {k: jobs[k] for k in list(jobs)[:1]}
        r = witness.run(jobs)
        ok, codes, msg = r.pop("base")
        c.ob("the correct program is accepted", f"[{feat}]", ok, f"{codes} {msg}")
        for k, (ok, codes, msg) in r.items():
            c.ob("a misuse does not compile", f"{k} [{feat}]", not ok, "the compiler accepts it")
            odd = [x for x in codes if x not in witness.REFUSALS]
            c.ob("a misuse is refused by the type system", f"{k} [{feat}]", ok or not odd, f"{codes} {msg}")
        if feat == "std":
            c.floor("misuses", len(r), 120)


def check(c):
    for feat in ("core", "std", "tokio"):
        c.guard(f"step relation [{feat}]", relation, c, feat)
    c.guard("programs", programs, c)
