"""Type-level query over every item of both crates in every feature set: no unsafe
block, function, implementation, foreign block or link-level symbol (also inside the
crates' own macros), no static that is mutable, thread local or has interior
mutability, no call into process-wide state, and no way to hand the same shared handle
to two connections: no argument of an exported function holds one. Compile witnesses: the halves of a split connection, their ciphers
and the futures of every asynchronous operation are Send whenever the transports are."""
import re
import witness

SETS = (("core", "bip324"), ("std", "bip324"), ("tokio", "bip324"), ("traffic", "bip324_traffic"), ("traffic-tokio", "bip324_traffic"))
# shared ownership or mutation behind a shared reference
SHARED = re.compile(r"\b(Arc|Rc|Weak|Mutex|RwLock|Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|OnceLock|LazyLock|LazyCell|Once|Condvar|Barrier"
                    r"|Atomic\w+|Semaphore|Notify|LocalKey|Lazy|Exclusive|(?:Unbounded)?Sender|(?:Unbounded)?Receiver|SyncSender)\b")
PROCESS = re.compile(r"^(std::env::(set|remove)_var|std::env::set_|std::panic::(set_hook|take_hook)|std::process|std::fs::|std::net::|std::os::|libc::"
                     r"|std::panicking::(set_hook|take_hook)|std::alloc::set)")


def shared(cr, i, seen=None):
    """a shared handle inside a type, following the fields of every type"""
    seen = seen if seen is not None else set()
    if i is None or i in seen:
        return None
    seen.add(i)
    t = cr.types[i]
    k = t["k"]
    if k == "adt":
        if SHARED.search(t["path"].rsplit("::", 1)[-1]):
            return t["path"]
        for v in t.get("variants") or ():
            for f in v["f"]:
                r = shared(cr, f[1], seen)
                if r:
                    return r
        for a in t.get("args", ()):
            if isinstance(a, int):
                r = shared(cr, a, seen)
                if r:
                    return r
        return None
    for key in ("t", "to", "e", "of"):
        if isinstance(t.get(key), int):
            r = shared(cr, t[key], seen)
            if r:
                return r
    for key in ("up", "f", "elems", "ts"):
        for x in t.get(key, ()) if isinstance(t.get(key), list) else ():
            if isinstance(x, int):
                r = shared(cr, x, seen)
                if r:
                    return r
    return None


def loc(cr, s):
    return f"{cr.d['files'][s[0]].split('/repo/')[-1]}:{s[1]}"


def items(c, feat, name):
    cr = c.crate(feat, name)
    d = cr.d
    tag = f"{name} [{feat}]"
    c.ob("no unsafe block", tag, not d["unsafe"], "; ".join(loc(cr, s) for s in d["unsafe"][:5]))
    c.ob("no foreign block or assembly", tag, not d["foreign"], f"{d['foreign']} blocks")
    for f in d["fns"]:
        c.ob("no unsafe function", f"{f['vpath']} [{feat}]", not f["unsafe"], loc(cr, f["span"]))
        c.ob("no link-level symbol", f"{f['vpath']} [{feat}]", not f["extern"], loc(cr, f["span"]))
    for im in d["impls"]:
        auto = im["trait"].startswith("core::marker::") and not im["derived"] and im["trait"].split("::")[-1] in ("Send", "Sync", "Freeze")
        # a derive may expand to a marker the compiler itself declares unsafe
        c.ob("no unsafe implementation", f"{im['trait']} [{tag}]", not (im["unsafe"] and not im["derived"]) and not auto, loc(cr, im["span"]))
    c.obs.append(("no static with shared mutable state", f"{tag}: {len(d['statics'])} statics", True))
    for path, mut, freeze, ty in d["statics"]:
        c.ob("no static with shared mutable state", f"{path} [{feat}]", not mut and freeze and not SHARED.search(ty), ty)
    for k in d["consts"]:
        t = cr.types[k["t"]]
        c.ob("no static with shared mutable state", f"{k['path']} [{feat}]", not SHARED.search(t.get("path", "") + t.get("s", "")), t.get("s", ""))
    n = 0
    for t in cr.types:
        if t and t["k"] == "fndef":
            n += 1
            if PROCESS.match(t["path"]):
                c.ob("nothing reaches process-wide state", f"{t['path']} [{tag}]", False, "called or taken as a value")
    c.ob("nothing reaches process-wide state", tag, n > 0, f"{n} callees")
    for f in d["fns"]:
        if f["exported"]:
            for j, i in enumerate(f["ins"]):
                t = cr.types[i]
                own = f["selfty"] is not None and j == 0
                if not own and not (t["k"] == "ref"):
                    s = shared(cr, i)
                    c.ob("no argument brings shared state into a connection", f"{f['vpath']} [{feat}]", s is None, f"argument {j} holds {s}")
    c.functions |= {f["vpath"] for f in d["fns"]}
    c.sites += n
    c.floor(f"functions [{tag}]", len(d["fns"]), 20)
    c.floor(f"types [{tag}]", len(d["adts"]), 8)


P = "#![allow(dead_code)]\nfn send<T: Send>() {}\nfn is_send<T: Send>(_: T) {}\nfn stat<T: Send + 'static>() {}\n"
IO = P + "use std::io::{Read, Write};\nuse bip324::io::*;\n"
TIO = P + "use tokio::io::{AsyncRead, AsyncWrite};\nuse bip324::futures::*;\n"
AR, AW = "R: AsyncRead + Unpin + Send", "W: AsyncWrite + Unpin + Send"
SEND = {
    "ciphers": ("std", P + "fn a() { send::<bip324::InboundCipher>(); send::<bip324::OutboundCipher>(); send::<bip324::CipherSession>(); }"),
    "handshake states": ("std", P + "fn a<'a>() { send::<bip324::Handshake<bip324::Initialized>>(); send::<bip324::Handshake<bip324::SentKey<'a>>>();"
                         "send::<bip324::Handshake<bip324::ReceivedKey<'a>>>(); send::<bip324::Handshake<bip324::SentVersion>>();"
                         "send::<bip324::Handshake<bip324::ReceivedGarbage<'a>>>(); }"),
    "io halves": ("std", IO + "fn a<R: Read + Send, W: Write + Send>() { send::<ProtocolReader<R>>(); send::<ProtocolWriter<W>>(); send::<Protocol<R, W>>();"
                  "send::<ProtocolSessionReader<R>>(); send::<Payload>(); send::<ProtocolError>(); }"),
    "io halves on two threads": ("std", IO + "fn a<R: Read + Send + 'static, W: Write + Send + 'static>(p: Protocol<R, W>) { let (mut r, mut w) = p.into_split();"
                                 "std::thread::spawn(move || { let _ = r.read(); }); std::thread::spawn(move || { let _ = w.write(&Payload::genuine(vec![])); }); }"),
    "futures halves": ("tokio", TIO + f"fn a<{AR}, {AW}>() {{ send::<ProtocolReader<R>>(); send::<ProtocolWriter<W>>(); send::<Protocol<R, W>>(); }}"),
    "futures read": ("tokio", TIO + f"fn a<{AR}>(r: &mut ProtocolReader<R>) {{ is_send(r.read()); }}"),
    "futures write": ("tokio", TIO + f"fn a<{AW}>(w: &mut ProtocolWriter<W>, p: &bip324::io::Payload) {{ is_send(w.write(p)); }}"),
    "futures handshake": ("tokio", TIO + f"fn a<{AR}, {AW}>(r: R, mut w: W) {{ is_send(handshake([0; 4], bip324::Role::Initiator, None, None, r, &mut w)); }}"),
    "futures new": ("tokio", TIO + f"fn a<{AR}, {AW}>(r: R, w: W) {{ is_send(Protocol::new([0; 4], bip324::Role::Initiator, None, None, r, w)); }}"),
    "shaped io halves": ("traffic", P + "use std::io::{Read, Write};\nuse bip324_traffic::io::*;\nfn a<R: Read + Send + 'static, W: Write + Send + 'static>(p: ShapedProtocol<R, W>) {"
                         " send::<ShapedProtocolReader<R>>(); send::<ShapedProtocolWriter<W>>(); send::<ShapedProtocol<R, W>>(); let (mut r, mut w) = p.into_split();"
                         "std::thread::spawn(move || { let _ = r.read(); }); std::thread::spawn(move || { let _ = w.write(&bip324::io::Payload::genuine(vec![])); }); }"),
    "shaped futures": ("traffic-tokio", P + "use tokio::io::{AsyncRead, AsyncWrite};\nuse bip324_traffic::futures::*;\n"
                       f"fn a<{AR} + 'static>(r: &mut ShapedProtocolReader<R>, w: &mut ShapedProtocolWriter, p: &bip324::io::Payload) {{"
                       " send::<ShapedProtocolReader<R>>(); stat::<ShapedProtocolWriter>(); send::<ShapedProtocol<R>>(); is_send(r.read()); is_send(w.write(p)); }"),
    "shaped futures new": ("traffic-tokio", P + "use tokio::io::{AsyncRead, AsyncWrite};\nuse bip324_traffic::futures::*;\n"
                           f"fn a<{AR}, {AW} + 'static>(r: R, w: W) {{"
                           " is_send(ShapedProtocol::new([0; 4], bip324::Role::Initiator, bip324_traffic::TrafficConfig::new(), r, w)); }"),
    "statistics": ("traffic", P + "fn sync<T: Sync>() {}\nfn a() { send::<bip324_traffic::AtomicTrafficStats>(); sync::<bip324_traffic::AtomicTrafficStats>();"
                   "send::<bip324_traffic::TrafficConfig>(); }"),
}


def check(c):
    for feat, name in SETS:
        c.guard(f"{name} [{feat}]", items, c, feat, name)
    for k, (ok, codes, msg) in witness.run(SEND).items():
        c.ob("usable from different threads", k, ok, f"{' '.join(codes)} {msg}")
