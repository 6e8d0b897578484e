"""Query over the crate compiled with every feature set: without features the linked
crates contain neither std nor alloc, directly or through a dependency; every exported
function, type, public field and trait implementation present without a feature is
present unchanged with it (signature with bounds, variants, fields), and its resolved
MIR is the same with and without the feature, so a feature never changes what a core
function does. Compile witness: a no_std program without an allocator walks the whole
handshake as either role and uses both ciphers, every error and every constant."""
import re
import witness

ORDER = ("core", "std", "tokio")


def text(s):
    s = re.sub(r"\b(std|alloc)::", "core::", s)
    return re.sub(r"\{impl#\d+\}", "{impl}", s)


def tname(cr, i):
    t = cr.types[i]
    if t is None:
        return "?"
    if "s" in t:
        if t["k"] == "fndef":
            return text(t["name"] + "<" + ",".join(tname(cr, a) if isinstance(a, int) else text(str(a)) for a in t.get("args", ())) + ">")
        return text(re.sub(r"@[^ }]*", "", t["s"]))
    return t["k"] + str(t.get("n", t.get("w", "")))


def norm(cr, x, key):
    """a body without type indices, source positions and feature-dependent numbering"""
    if isinstance(x, dict):
        if set(x) >= {"t", "v"} and isinstance(x["t"], int):
            return ("k", tname(cr, x["t"]), norm(cr, x["v"], key), text(x.get("d", "")))
        return tuple((k, norm(cr, v, key)) for k, v in sorted(x.items()) if k not in ("sp", "span", "def", "path", "name"))
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            h = x[0]
            if h == "F" and len(x) == 3:
                return ("F", x[1], tname(cr, x[2]))
            if h in ("=", "sd", "intr"):
                x = x[:-1]
            elif h == "cast":
                return ("cast", x[1], norm(cr, x[2], key), tname(cr, x[3]))
            elif h in ("arr", "clo", "cor", "rawptr") and len(x) == 2 and isinstance(x[1], int):
                return (h, tname(cr, x[1]))
            elif h == "adt":
                return ("adt", tname(cr, x[1]), x[2], x[3])
            elif h == "sw":
                x = x[:-1]
            elif h == "prom":
                k = x[1]
                b = cr.d["bodies"].get(k)
                return ("prom", body(cr, b) if b else text(k))
        return tuple(norm(cr, y, key) for y in x)
    if isinstance(x, str):
        return text(x)
    return x


def body(cr, b):
    return (tuple((tname(cr, l[0]),) for l in b["locals"]), norm(cr, b["blocks"], None))


def apis(c, feat):
    cr = c.crate(feat)
    fns, adts, impls = {}, {}, set()
    for f in cr.d["fns"]:
        if f["exported"]:
            fns[text(f["path"])] = f
    for a in cr.d["adts"]:
        if a["exported"]:
            t = cr.types[a["t"]]
            adts[a["path"]] = tuple((v["n"], tuple((n, tname(cr, ty)) for n, ty, vis in v["f"] if vis == "pub")) for v in t["variants"])
    ex = {a["t"] for a in cr.d["adts"] if a["exported"]}
    for i in cr.d["impls"]:
        if i["self"] in ex:
            impls.add((text(i["trait"]), tname(cr, i["self"]), tuple(tname(cr, a) for a in i["args"])))
    return cr, fns, adts, impls


def linked(c):
    cr = c.crate("core")
    names = [n for n, _ in cr.d["extern"]]
    for n, direct in cr.d["extern"]:
        c.ob("neither std nor alloc is linked without features", n, n not in ("std", "alloc", "test", "proc_macro"),
             "linked directly" if direct else "linked by a dependency")
    c.floor("linked crates", len(names), 4)
    bad = [x for x in cr.d["crates"] if x in ("std", "alloc")]
    c.ob("neither std nor alloc is linked without features", "paths", not bad, f"functions of {bad}")


def grows(c, lo, hi):
    A, fa, ta, ia = apis(c, lo)
    B, fb, tb, ib = apis(c, hi)
    tag = f"{lo} -> {hi}"
    same = 0
    for p, f in fa.items():
        g = fb.get(p)
        c.ob("a feature removes or changes no exported function", f"{p} [{tag}]", g is not None and text(f["sig"]) == text(g["sig"]),
             f"{f['sig']} became {g['sig'] if g else 'missing'}")
    for p, v in ta.items():
        c.ob("a feature removes or changes no exported type", f"{p} [{tag}]", tb.get(p) == v, f"{v} became {tb.get(p)}"[:300])
    for i in ia:
        c.ob("a feature removes no implementation", f"{i[0]} for {i[1]} [{tag}]", i in ib, "missing")
    ka = {text(k): b for k, b in A.d["bodies"].items() if b["local"]}
    kb = {text(k): b for k, b in B.d["bodies"].items() if b["local"]}
    for k, b in ka.items():
        if "#p" in k:
            continue
        o = kb.get(k)
        if o is None:
            # private helpers may exist in one configuration only; what is exported was compared above
            continue
        same += 1
        c.ob("a feature changes no function of the configuration below", f"{k.split('@')[0]} [{tag}]", body(A, b) == body(B, o),
             f"{A.d['files'][b['span'][0]]}:{b['span'][1]}: different code")
    c.functions |= set(ka)
    c.floor(f"exported functions [{tag}]", len(fa), 30)
    c.floor(f"exported types [{tag}]", len(ta), 12)
    c.floor(f"bodies compared [{tag}]", same, 55)


W = """#![no_std]
use bip324::*;
pub struct Rng(u8);
impl FillBytes for Rng { fn fill_bytes(&mut self, d: &mut [u8; 32]) { *d = [self.0; 32]; } }
CURVE
pub fn side(role: Role, net: &mut [u8], out: &mut [u8], tmp: &mut [u8]) -> Result<[u8; 32], Error> {
    let hs: Handshake<Initialized> = start(role)?;
    let _: &[u8; 4] = hs.magic();
    let _: Role = hs.role();
    let n: usize = Handshake::<Initialized>::send_key_len(Some(&[1, 2]));
    let hs: Handshake<SentKey> = hs.send_key(Some(&[1, 2]), &mut out[..n])?;
    let mut k = [0u8; 64];
    k.copy_from_slice(&net[..64]);
    let hs: Handshake<ReceivedKey> = hs.receive_key(k)?;
    let decoys: &[&[u8]] = &[&[1], &[]];
    let n: usize = Handshake::<ReceivedKey>::send_version_len(Some(decoys));
    let hs: Handshake<SentVersion> = hs.send_version(&mut out[..n], Some(decoys))?;
    let mut hs = match hs.receive_garbage(&net[64..])? {
        GarbageResult::FoundGarbage { handshake, consumed_bytes } => { let _: usize = consumed_bytes; handshake }
        GarbageResult::NeedMoreData(h) => match h.receive_garbage(&net[64..])? {
            GarbageResult::FoundGarbage { handshake, .. } => handshake,
            GarbageResult::NeedMoreData(_) => return Err(Error::NoGarbageTerminator),
        },
    };
    let mut cs: CipherSession = loop {
        let n: usize = hs.decrypt_packet_len([0; NUM_LENGTH_BYTES])?;
        match hs.receive_version(&mut tmp[..n])? {
            VersionResult::Complete { cipher } => break cipher,
            VersionResult::Decoy(h) => { let h: Handshake<ReceivedGarbage> = h; hs = h; }
        }
    };
    let id: [u8; 32] = *cs.id();
    let _: &mut InboundCipher = cs.inbound();
    let _: &mut OutboundCipher = cs.outbound();
    let (mut i, mut o): (InboundCipher, OutboundCipher) = cs.into_split();
    let n: usize = OutboundCipher::encryption_buffer_len(3);
    o.encrypt(&[1, 2, 3], &mut tmp[..n], PacketType::Genuine, None)?;
    o.encrypt(&[1, 2, 3], &mut tmp[..n], PacketType::Decoy, Some(&[1]))?;
    let n: usize = i.decrypt_packet_len([0; NUM_LENGTH_BYTES]);
    let (t, c): (PacketType, &[u8]) = i.decrypt_in_place(&mut tmp[..n], None)?;
    let _ = (c.len(), t.to_byte() == DECOY_BYTE, PacketType::from_byte(&0), NUM_HEADER_BYTES);
    let n: usize = InboundCipher::decryption_buffer_len(5);
    let _: PacketType = i.decrypt(&net[..5], &mut tmp[..n], Some(&[1, 2]))?;
    Ok(id)
}
pub fn errors(e: Error) -> u8 {
    match e {
        Error::CiphertextTooSmall => 0,
        Error::BufferTooSmall { required_bytes } => required_bytes as u8,
        Error::PacketTooBig => 1,
        Error::TooMuchGarbage => 2,
        Error::NoGarbageTerminator => 3,
        Error::V1Protocol => 4,
        Error::SecretGeneration(_) => 5,
        Error::Decryption(_) => 6,
    }
}
pub fn show(f: &mut core::fmt::Formatter<'_>, e: &Error) -> core::fmt::Result { use core::fmt::Display; e.fmt(f) }
"""


def check(c):
    c.guard("linked crates", linked, c)
    for a, b in zip(ORDER, ORDER[1:]):
        c.guard(f"{a} -> {b}", grows, c, a, b)
    own = "pub fn start(role: Role) -> Result<Handshake<Initialized>, Error> { let ctx = CTX; Handshake::new_with_rng([0; 4], role, &mut Rng(1), &ctx) }"
    # the curve context is the caller's: a no-alloc program passes one over its own buffer
    own = ("pub fn start<C: secp256k1::Signing>(role: Role, ctx: &secp256k1::Secp256k1<C>) -> Result<Handshake<Initialized>, Error>"
           " { Handshake::new_with_rng([0; 4], role, &mut Rng(1), ctx) }")
    src = W.replace("CURVE", own).replace("pub fn side(role: Role,", "pub fn side<C: secp256k1::Signing>(ctx: &secp256k1::Secp256k1<C>, role: Role,").replace("start(role)?", "start(role, ctx)?")
    jobs = {f"handshake and ciphers without std and alloc [{f}]": (f, src) for f in ORDER}
    for k, (ok, codes, msg) in witness.run(jobs).items():
        c.ob("the core is usable", k, ok, f"{' '.join(codes)} {msg}")
