"""Abstract interpretation of every cipher operation from an arbitrary cipher
state: on each path returning an error the cipher value is unchanged, on each path
returning success exactly one packet operation (and for sending exactly one length
operation) was performed and the counters of exactly that part moved by one
(induction over the packet number as for C05)."""
import props.c05 as c05
from cipherlib import *

RULES = ("one packet operation per call", "no packet operation", "one length operation per call", "no length operation",
         "counters describe the next packet number", "other keys stay", "a successful path exists")


def rejected(c, feat, name, errs):
    k = c.fn(feat, name)
    E = c.run(feat, k)
    n = 0
    for p in E.paths:
        if p.kind == "ret" and res(p.ret) == "err":
            n += 1
            c.ob("a rejected operation leaves the cipher as it was", f"{name} [{feat}]", self_unchanged(E, p.st, k),
                 f"{where(p)}: error path changes the cipher")
    c.floor(f"rejecting paths of {name} [{feat}]", n, errs)


def check(c):
    for feat, names in (("core", (("OutboundCipher::encrypt", 2), ("InboundCipher::decrypt", 2), ("InboundCipher::decrypt_in_place", 2))),
                        ("std", (("InboundCipher::decrypt_to_vec", 2), ("OutboundCipher::encrypt", 2), ("InboundCipher::decrypt", 2),
                                 ("InboundCipher::decrypt_in_place", 2)))):
        for name, errs in names:
            c.guard(f"{name} [{feat}]", rejected, c, feat, name, errs)
    sub = type(c)(c.prop, c.tier)
    for feat in ("core", "std"):
        inits = initial(sub, feat)
        inb, outb, E0, p, role = inits[0]
        c.guard(f"sender [{feat}]", c05.direction, sub, feat, f"outbound [{feat}]", outb, E0, c05.OUT[feat], True)
        c.guard(f"receiver [{feat}]", c05.direction, sub, feat, f"inbound [{feat}]", inb, E0, c05.IN[feat], False)
    bad = {k: d for k, d in sub.viols}
    for rule, target, ok in sub.obs:
        if rule in RULES:
            c.ob(rule, target, ok, bad.get(f"{rule}|{target}", ""))
    c.functions |= sub.functions
    c.paths += sub.paths
    c.sites += sub.sites
    c.entries += sub.entries
