"""What a property check works with: facts, entries, analyses, obligations."""
import collections
import time
import traceback
import contracts
import engine
import extract
import models


class Missing(Exception):
    """an anchor of the rule is not in the program"""


HS = contracts.HS
CIPHER = contracts.CIPHER
BOTH = {**HS, **CIPHER}
_cache = {}


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obs = []
        self.viols = []
        self.functions = set()
        self.paths = 0
        self.sites = 0
        self.entries = []
        self.notes = []
        self.assume = []
        self.t0 = time.time()

    # ------------------------------------------------------------ facts
    def crate(self, feat, name="bip324"):
        return extract.crate(feat, name)

    def fn(self, feat, name, mod=None, crate="bip324"):
        """key of the one function with this public name (module prefix mod)."""
        c = self.crate(feat, crate)
        out = []
        for f in c.d["fns"]:
            if f["name"] == crate + "::" + name and f["key"] in c.d["bodies"]:
                if mod is None or f["vpath"].startswith(f"{crate}::{mod}::"):
                    out.append(f["key"])
        if len(out) != 1:
            raise Missing(f"{crate}::{name} ({mod or '-'}): {len(out)} candidates")
        return out[0]

    def coroutine(self, feat, name, mod=None, crate="bip324"):
        """body of the async fn's coroutine."""
        c = self.crate(feat, crate)
        k = self.fn(feat, name, mod, crate)
        head = k.split("@")[0]
        tail = "@" + k.split("@")[1] if "@" in k else ""
        kk = head + "::{closure#0}" + tail
        if kk not in c.d["bodies"]:
            raise Missing(f"coroutine of {name}: {kk}")
        return kk

    # ------------------------------------------------------------ analysis
    def run(self, feat, key, crate="bip324", contract=None, setup=None, args=None, monitors=(), opts=None, tag=None, quiet=False):
        c = self.crate(feat, crate)
        ck = (feat, crate, key, id(contract) if contract is not None else None, tag)
        if tag is not None or (setup is None and args is None and not monitors and not opts):
            if ck in _cache:
                E = _cache[ck]
                self.account(E, key)
                return E
        E = engine.Engine(c, models.M)
        E.opts["contract"] = contract or {}
        E.opts.update(opts or {})
        E.monitors.extend(monitors)
        E.on_bool.extend(E.opts.get("on_bool", ()))
        E.start(key, args, setup)
        _cache[ck] = E
        self.account(E, key)
        if not E.paths:
            raise Missing(f"no path through {key}")
        return E

    def account(self, E, key):
        self.functions |= set(E.analysed)
        self.paths += len(E.paths)
        self.sites += E.callsites if isinstance(E.callsites, int) else len(E.callsites)
        self.entries.append(key.split("@")[0])

    def then(self, E, path, key, args):
        """continue a finished path with another entry point"""
        st = path.st.fork()
        vals = {}
        for k, v in args.items():
            if callable(v):
                v = v(st)
            vals[k] = v
        ps = E.then(st, key, vals)
        self.paths += len(ps)
        self.entries.append(key.split("@")[0])
        if not ps:
            raise Missing(f"no path through {key}")
        return ps

    # ------------------------------------------------------------ verdicts
    def ob(self, rule, target, ok, detail=""):
        """one obligation; a failing one is a violation keyed without line numbers."""
        self.obs.append((rule, target, bool(ok)))
        if not ok:
            self.viols.append((f"{rule}|{target}", detail))
        return ok

    def floor(self, rule, n, least):
        self.ob("coverage floor", rule, n >= least, f"{rule}: matched {n}, expected at least {least}")

    def guard(self, target, f, *a):
        """fail closed: an analysis that gives up is a failed obligation."""
        try:
            return f(*a)
        except extract.BuildError:
            raise
        except Exception as e:  # noqa: BLE001 - every engine failure means "cannot show"
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob("analysis must succeed", target, False,
                    f"{type(e).__name__}: {str(e)[:300]} [{tb.filename.split('/')[-1]}:{tb.lineno}]")
            return None

    def counts(self):
        r = collections.OrderedDict()
        for rule, t, ok in self.obs:
            a = r.setdefault(rule, [0, 0])
            a[0] += 1
            a[1] += ok
        return {k: {"obligations": a, "discharged": b} for k, (a, b) in r.items()}


_nobj = [0]


def ref(value):
    """argument: a reference to a new object holding value"""
    def mk(st):
        _nobj[0] += 1
        o = ("o", _nobj[0])
        st.mem[o] = value
        return ("R", o, ())
    return mk


def res(v):
    """'ok' / 'err' / None of a Result value (or Poll<Result>)"""
    if isinstance(v, tuple) and v[0] == "A" and len(v) == 4:
        return "ok" if v[2] == 0 else "err"
    return None


def variant_name(E, st, v):
    """variant name of an enum value, None if not determined"""
    if not isinstance(v, tuple):
        return None
    ty = v[1] if v[0] == "A" else v[2] if v[0] == "T" else None
    i = st.variant(v)
    if i is None or ty is None:
        return None
    return E.ty(ty)["variants"][i]["n"]
