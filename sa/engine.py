"""Abstract interpreter over the dumped MIR.

Domain: a product of
  * Herbrand value numbering for opaque data, byte sequences as segment lists,
  * conjunctions of linear integer inequalities (terms.py),
  * enum-variant refinements of opaque values,
partitioned by control point, enum variants and property automaton state.
Calls to repository functions are analysed in context; calls that leave the
repository are contract models (models.py).  Loop heads are joined and widened
to a fixpoint.  Nothing of the program is executed."""
import sys
import time
from collections import namedtuple

from terms import (T, Term, Lin, Sym, sym, lin, mk, entails, consistent, lower_bound, norm, quick_min, prune, support)

sys.setrecursionlimit(20000)

ISIZE_MAX = 2 ** 63 - 1
ZERO = mk(0)
ONE = mk(1)

Ev = namedtuple("Ev", "op a where fn stack")
Frame = namedtuple("Frame", "body uid dest target kont kdata callsite")
PUSHED = object()


class Imprecise(Exception):
    """The engine cannot analyse a construct: no answer (exit 2)."""


DEADLINE = time.time() + 400      # of the whole check: an analysis that does not end has shown nothing
ENTRIES = 1


class Dry(Exception):
    """end of a look-ahead, see Engine.straight"""


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- values
UNIT = ("A", None, 0, ())


def some(v):
    return ("A", None, 1, (v,))


NONE = ("A", None, 0, ())


def ok(v):
    return ("A", None, 0, (v,))


def err(v):
    return ("A", None, 1, (v,))


def ready(v):
    return ("A", None, 0, (v,))


PENDING = ("A", None, 1, ())


def tup(*vs):
    return ("A", None, 0, tuple(vs))


def const_seg(bs):
    return (mk(len(bs)), "c", bytes(bs), None)


def tseg(n, term, off=ZERO):
    return (n, "t", term, off)


def neg(c):
    k = c[0]
    if k == "ge":
        return ("ge", (c[1] * -1) - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "b":
        return ("nb", c[1])
    if k == "nb":
        return ("b", c[1])
    if k == "and":
        return ("or", neg(c[1]), neg(c[2]))
    if k == "or":
        return ("and", neg(c[1]), neg(c[2]))
    raise KeyError(k)


def bnot(v):
    if v is True:
        return False
    if v is False:
        return True
    return ("?", neg(v[1]))


def mkb(c):
    k = c[0]
    if k in ("ge", "eq", "ne") and not c[1].t:
        v = c[1].c
        return v >= 0 if k == "ge" else (v == 0) == (k == "eq")
    return ("?", c)


def seglen(segs):
    n = ZERO
    for s in segs:
        n = n + s[0]
    return n


def is_elem_sym(v):
    return isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].term.op == "elem"


def byte_of(v):
    """(x, k) when v is the k-th byte of the number x"""
    if not isinstance(v, Lin) or v.c or len(v.t) != 1 or v.t[0][1] != 1:
        return None
    t = v.t[0][0].term
    k = 0
    if t.op == "rem" and t.args[1] == 256 and isinstance(t.args[0], Lin):
        x = t.args[0]
        if not x.c and len(x.t) == 1 and x.t[0][1] == 1:
            u = x.t[0][0].term
            if u.op == "div" and u.args[1] in BYTES and isinstance(u.args[0], Lin):
                return u.args[0], BYTES[u.args[1]]
        return x, 0
    if t.op == "div" and t.args[1] in BYTES and isinstance(t.args[0], Lin) and v.t[0][0].hi is not None and v.t[0][0].hi < 256:
        return t.args[0], BYTES[t.args[1]]
    return None


BYTES = {256 ** k: k for k in range(1, 8)}


def number_bytes(vs):
    """single elements, with runs that are the bytes of one number as slices of that number"""
    out = []
    i = 0
    while i < len(vs):
        b = byte_of(vs[i])
        if b is not None:
            x, k = b
            if x.c < 0 or any(f < 0 or s.lo is None or s.lo < 0 for s, f in x.t):
                b = None
        if b is None:
            out.append((ONE, "v", (vs[i],), None))
            i += 1
            continue
        n = 1
        while i + n < len(vs) and byte_of(vs[i + n]) == (x, k + n):
            n += 1
        if n == 1 and k == 0:
            out.append((ONE, "v", (vs[i],), None))
        else:
            out.append((mk(n), "t", T("le", x, 4 if k + n <= 4 else 8), mk(k)))
        i += n
    return out


def norm_segs(segs):
    if any(s[1] == "v" and any(byte_of(v) is not None for v in s[2]) for s in segs):
        run, segs2 = [], []
        for s in segs:
            if s[1] == "v":
                run.extend(s[2])
                continue
            segs2.extend(number_bytes(run))
            run = []
            segs2.append(s)
        segs = segs2 + number_bytes(run)
    out = []
    for s in segs:
        n, k, a, b = s
        if not n.t and n.c == 0:
            continue
        if k == "v":
            # canonicalise constant bytes / single elements of a known sequence
            parts = []
            for v in a:
                if isinstance(v, Lin) and not v.t and 0 <= v.c < 256:
                    parts.append((ONE, "c", bytes([v.c]), None))
                elif is_elem_sym(v):
                    t = v.t[0][0].term
                    parts.append((ONE, "t", t.args[0], t.args[1]))
                else:
                    parts.append((ONE, "v", (v,), None))
        elif k == "f" and not n.t and n.c <= 64 and isinstance(a, Lin) and not a.t and 0 <= a.c < 256:
            parts = [(n, "c", bytes([a.c]) * n.c, None)]
        elif k == "t" and a.op == "B":
            parts = [s]
        else:
            parts = [s]
        for p in parts:
            if out:
                q = out[-1]
                if q[1] == p[1]:
                    if p[1] == "c":
                        out[-1] = (q[0] + p[0], "c", q[2] + p[2], None)
                        continue
                    if p[1] == "f" and q[2] == p[2]:
                        out[-1] = (q[0] + p[0], "f", q[2], None)
                        continue
                    if p[1] == "v":
                        out[-1] = (q[0] + p[0], "v", q[2] + p[2], None)
                        continue
                    if p[1] in ("t", "g") and q[2] == p[2] and (q[3] + q[0]) is p[3]:
                        out[-1] = (q[0] + p[0], p[1], q[2], q[3])
                        continue
            out.append(p)
    return tuple(out)


def valterm(v):
    if isinstance(v, Lin):
        return T("int", v)
    if v is True or v is False:
        return T("bool", v)
    if v is None:
        return T("uninit")
    k = v[0]
    if k == "T":
        return v[1]
    if k == "Y" or k == "V":
        return bterm(v[2])
    if k == "A":
        return T("A", v[2], *[valterm(x) for x in v[3]])
    if k == "R":
        return T("R", v[1], v[2])
    if k == "?":
        return T("cond", v[1])
    if k == "F":
        return T("F", v[1])
    if k == "X":
        if v[1] == "payload":
            return T("mkpayload", v[2][0], bterm(v[2][1][2]))
        return T("X", v[1], *[valterm(x) if not isinstance(x, (int, str, tuple)) or isinstance(x, Lin) or (isinstance(x, tuple) and x and x[0] in ("T", "A", "Y", "V", "R", "X", "?", "F")) else x for x in v[2]])
    raise KeyError(k)


def bterm(segs):
    """canonical term of a byte sequence"""
    segs = norm_segs(segs)
    key = []
    for n, k, a, b in segs:
        if k == "v":
            key.append((n, "v", tuple(valterm(x) for x in a), None))
        elif k == "f":
            key.append((n, "f", valterm(a), None))
        elif k == "g":
            key.append((n, "g", (a[0], valterm(a[1])), b))
        else:
            key.append((n, k, a, b))
    return T("B", tuple(key))


# ------------------------------------------------------- substitution
_fs_cache = {}


def term_syms(t):
    """all Syms occurring (deeply) in a term"""
    s = t._s
    if s is None:
        s = frozenset().union(*[any_syms(a) for a in t.args]) if t.args else frozenset()
        t._s = s
    return s


def lin_syms(l):
    r = _fs_cache.get(l)
    if r is None:
        acc = set()
        for s, _ in l.t:
            acc.add(s)
            acc |= term_syms(s.term)
        r = frozenset(acc)
        _fs_cache[l] = r
    return r


def any_syms(x):
    if isinstance(x, Lin):
        return lin_syms(x)
    if isinstance(x, Term):
        return term_syms(x)
    if isinstance(x, Sym):
        return frozenset([x]) | term_syms(x.term)
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= any_syms(y)
        return r
    return frozenset()


_ln_cache = {}


def components(facts):
    """which symbols are connected through the facts"""
    up = {}

    def find(x):
        while up.get(x, x) is not x:
            x = up[x]
        return x
    for f in facts:
        g = list(support(f))
        for y in g[1:]:
            a, b = find(g[0]), find(y)
            if a is not b:
                up[a] = b
    return find


def unrelated(find, a, b):
    if not a.t or not b.t:
        return False
    x = {find(y) for y in support(a)}
    return x.isdisjoint(find(y) for y in support(b))


def local_names(x):
    """site-generated names (fresh and join variables) occurring in a value"""
    if isinstance(x, Term):
        r = _ln_cache.get(x)
        if r is None:
            r = local_names(x.args)
            if x.op in ("new", "phi"):
                r = r | {x}
            _ln_cache[x] = r
        return r
    if isinstance(x, Lin):
        r = frozenset()
        for y, _ in x.t:
            r |= local_names(y.term)
        return r
    if isinstance(x, Sym):
        return local_names(x.term)
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            if not isinstance(y, (int, str, bytes)):
                r |= local_names(y)
        return r
    return frozenset()


class Subst:
    """simultaneous substitution Sym->Lin and Term->Term"""

    def __init__(self, syms, terms=None):
        self.m = syms
        self.tm = terms or {}
        self.keys = frozenset(syms)
        self.memo = {}
        self.empty = not syms and not self.tm

    def touches(self, x):
        if self.tm:
            return True
        return bool(any_syms(x) & self.keys)

    def lin(self, l):
        if not l.t or not self.touches(l):
            return l
        r = self.memo.get(l)
        if r is None:
            r = mk(l.c)
            for s, k in l.t:
                r = r + self.sym(s) * k
            self.memo[l] = r
        return r

    def sym(self, s):
        v = self.m.get(s)
        if v is not None:
            return v
        t = self.term(s.term)
        if t is s.term:
            return lin(s)
        if t.op == "rem" and isinstance(t.args[1], int):
            return mk_rem(t.args[0], t.args[1])
        if t.op == "div" and isinstance(t.args[1], int):
            return mk_div(t.args[0], t.args[1])
        return lin(sym(t, s.lo, s.hi))

    def term(self, t):
        if t in self.tm:
            return self.tm[t]
        if not self.touches(t):
            return t
        r = self.memo.get(t)
        if r is None:
            r = T(t.op, *[self.any(a) for a in t.args])
            self.memo[t] = r
        return r

    def any(self, x):
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, Term):
            return self.term(x)
        if isinstance(x, Sym):
            l = self.sym(x)
            return l
        if isinstance(x, tuple):
            if not self.touches(x):
                return x
            if x and x[0] in ("Y", "V") and len(x) == 3:
                return (x[0], x[1], norm_segs(tuple(self.any(y) for y in x[2])))
            return tuple(self.any(y) for y in x)
        return x


def mk_div(x, m):
    """x // m for x >= 0 (no state)"""
    if not x.t:
        return mk(x.c // m)
    if m == 1:
        return x
    if not x.c and len(x.t) == 1 and x.t[0][1] == 1:
        t = x.t[0][0].term
        if t.op == "div" and isinstance(t.args[0], Lin) and isinstance(t.args[1], int):
            return mk_div(t.args[0], t.args[1] * m)
    # split off multiples of m
    q = mk(0)
    r = mk(x.c % m)
    q = q + (x.c // m)
    for s, k in x.t:
        d = k // m
        if d:
            q = q + lin(s) * d
        if k - d * m:
            r = r + lin(s) * (k - d * m)
    if not r.t:
        return q + (r.c // m)
    lo = quick_min(r)
    hi = quick_min(r * -1)
    if lo is not None and hi is not None and lo >= 0 and -hi < m:
        return q
    return q + lin(sym(T("div", r, m), None if lo is None else lo // m, None if hi is None else (-hi) // m))


def mk_rem(x, m):
    if not x.t:
        return mk(x.c % m)
    r = mk(x.c % m)
    for s, k in x.t:
        if k % m:
            r = r + lin(s) * (k % m)
    if not r.t:
        return mk(r.c % m)
    lo = quick_min(r)
    hi = quick_min(r * -1)
    if lo is not None and hi is not None and lo >= 0 and -hi < m:
        return r
    return lin(sym(T("rem", r, m), 0, m - 1))


# ---------------------------------------------------------------- state
class St:
    __slots__ = ("E", "mem", "facts", "ne", "var", "nvar", "bt", "tr", "stack", "bb", "cnt", "mon", "steps", "term", "ret")

    def fork(self):
        s = St()
        s.E = self.E
        s.mem = dict(self.mem)
        s.facts = set(self.facts)
        s.ne = set(self.ne)
        s.var = dict(self.var)
        s.nvar = dict(self.nvar)
        s.bt = dict(self.bt)
        s.tr = self.tr
        s.stack = self.stack
        s.bb = self.bb
        s.cnt = dict(self.cnt)
        s.mon = self.mon
        s.steps = self.steps
        s.term = self.term
        s.ret = None
        return s

    # -- numeric facts
    def entails(self, e):
        return entails(self.facts, e)

    def le(self, a, b):
        return entails(self.facts, b - a)

    def eqz(self, e):
        if not e.t:
            return e.c == 0
        return entails(self.facts, e) and entails(self.facts, e * -1)

    def eq(self, a, b):
        return a is b or self.eqz(a - b)

    def _add(self, e):
        e = norm(e)
        if not e.t:
            if e.c < 0:
                raise Infeasible
            return
        if e in self.facts:
            return
        if not consistent(self.facts, e):
            raise Infeasible
        if entails(self.facts, e):
            return
        self.facts.add(e)
        if self.ne:
            for d in list(self.ne):
                if self.entails(d):
                    self.ne.discard(d)
                    self._add(d - 1)
                elif self.entails(d * -1):
                    self.ne.discard(d)
                    self._add((d * -1) - 1)

    def assume(self, c):
        """conjunctive conditions only; raises Infeasible"""
        k = c[0]
        if k == "ge":
            self._add(c[1])
        elif k == "eq":
            e = c[1]
            if len(e.t) == 1 and e.t[0][0].term.op == "disc":
                s, q = e.t[0]
                self.refine_disc(s.term, -e.c * q)
            self._add(e)
            self._add(e * -1)
            self._bool_link(e, True)
        elif k == "ne":
            e = c[1]
            if not e.t:
                if e.c == 0:
                    raise Infeasible
                return
            if self.eqz(e):
                raise Infeasible
            if len(e.t) == 1 and e.t[0][0].term.op == "disc":
                s, q = e.t[0]
                self.refine_ndisc(s.term, -e.c * q)
            if self.entails(e):
                self._add(e - 1)
            elif self.entails(e * -1):
                self._add((e * -1) - 1)
            else:
                self.ne.add(e)
        elif k in ("b", "nb"):
            t = c[1]
            v = k == "b"
            if t.op == "eq" and not v and t.args[0] is t.args[1]:
                raise Infeasible
            old = self.bt.get(t)
            if old is not None and old != v:
                raise Infeasible
            if old is None:
                self.bt[t] = v
                for h in self.E.on_bool:
                    h(self, t, v)
        elif k == "and":
            self.assume(c[1])
            self.assume(c[2])
        else:
            raise KeyError(k)

    def _bool_link(self, e, v):
        pass

    def refine_disc(self, t, val):
        """discriminant value of opaque enum t known"""
        ty = t.args[1]
        for i, v in enumerate(self.E.vdefs(ty)):
            if v == val:
                return self.set_var(t.args[0], i)
        raise Infeasible

    def refine_ndisc(self, t, val):
        ty = t.args[1]
        ds = self.E.vdefs(ty)
        for i, v in enumerate(ds):
            if v == val:
                x = t.args[0]
                if self.var.get(x) == i:
                    raise Infeasible
                n = self.nvar.get(x, frozenset()) | {i}
                self.nvar[x] = n
                left = [j for j in range(len(ds)) if j not in n]
                if not left:
                    raise Infeasible
                if len(left) == 1:
                    self.set_var(x, left[0])

    def set_var(self, x, i):
        o = self.var.get(x)
        if o is not None and o != i:
            raise Infeasible
        if i in self.nvar.get(x, ()):
            raise Infeasible
        self.var[x] = i

    def decide(self, v):
        """True / False / None for a boolean value"""
        if v is True or v is False:
            return v
        c = v[1]
        return self.decidec(c)

    def decidec(self, c):
        k = c[0]
        if k == "ge":
            if self.entails(c[1]):
                return True
            if self.entails((c[1] * -1) - 1):
                return False
            return None
        if k in ("eq", "ne"):
            if self.eqz(c[1]):
                return k == "eq"
            if c[1] in self.ne or (c[1] * -1) in self.ne or self.entails(c[1] - 1) or self.entails((c[1] * -1) - 1):
                return k == "ne"
            return None
        if k in ("b", "nb"):
            v = self.bt.get(c[1])
            if v is None:
                if c[1].op == "eq" and c[1].args[0] is c[1].args[1]:
                    v = True
                else:
                    return None
            return v if k == "b" else not v
        a = self.decidec(c[1])
        b = self.decidec(c[2])
        if k == "and":
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if a or b:
            return True
        if a is False and b is False:
            return False
        return None

    def branch(self, v):
        """[(bool, state)] feasible outcomes; reuses self for one of them"""
        d = self.decide(v)
        if d is not None:
            return [(d, self)]
        out = []
        for s in self.where_(v[1]):
            out.append((True, s))
        for s in self.where_(neg(v[1])):
            out.append((False, s))
        return out

    def where_(self, c):
        """feasible states (forked) in which the condition holds"""
        if c[0] == "or":
            r = self.where_(c[1])
            for s in self.where_(neg(c[1])):
                r += s.where_(c[2])
            return r
        if c[0] == "and" and _has_or(c):
            r = []
            for s in self.where_(c[1]):
                r += s.where_(c[2])
            return r
        s = self.fork()
        try:
            s.assume(c)
        except Infeasible:
            return []
        return [s]

    # -- variants of opaque enums
    def variant(self, v):
        """known variant of an enum value, else None"""
        if v[0] == "A":
            return v[2]
        if v[0] == "T":
            return self.var.get(v[1])
        return None

    # -- events
    def ev(self, op, **a):
        top = self.stack[-1]
        if op in SIZED:
            # sizes are judged where they occur: later path conditions do not count
            a["within"] = tuple(b for b in BOUNDS if self.le(a["n"], mk(b)))
        ev = Ev(op, a, self.E.here(self), top.body.name, tuple(f.body.name for f in self.stack))
        self.tr = (self.tr, ev)
        self.E.nev += 1
        for m in self.E.monitors:
            m(self, ev)
        return ev

    def trace(self):
        out = []
        t = self.tr
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def fresh(self, site, hint):
        k = (site, hint)
        n = self.cnt.get(k, 0)
        self.cnt[k] = n + 1
        return T("new", hint, site, n)


def _has_or(c):
    if c[0] == "or":
        return True
    if c[0] == "and":
        return _has_or(c[1]) or _has_or(c[2])
    return False


class Path:
    __slots__ = ("kind", "st", "why", "where", "ret", "fn", "chain")

    def __init__(self, kind, st, why, where, ret=None):
        self.kind = kind
        self.st = st
        self.why = why
        self.where = where
        self.ret = ret
        self.fn = st.stack[-1].body.name if st.stack else "?"
        self.chain = tuple(f.body.name for f in st.stack)

    def trace(self):
        return self.st.trace()


SIZED = ("alloc", "grow", "receive_garbage")
BOUNDS = (4110, 4111 + 65536, 4000014, 4000031)


def owed(v):
    """dropping the value has an effect we record: a lock guard, an operation under way"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == "X":
        return v[1] in ("guard", "contract_fut", "poison")
    return v[0] == "A" and any(owed(x) for x in v[3])


def then_kont(items, depth, kont, kdata):
    """what a model has pushed continues with kont when it is done"""
    for s, v in items:
        if v is PUSHED:
            fr = s.stack[depth]
            f2 = Frame(fr.body, fr.uid, fr.dest, fr.target, _k_then, (fr.kont, fr.kdata, kont, kdata), fr.callsite)
            s.stack = s.stack[:depth] + (f2,) + s.stack[depth + 1:]


def _k_then(E, st, rv, kd, cs):
    k1, d1, k2, d2 = kd
    depth = len(st.stack)
    items = k1(E, st, rv, d1, cs) if k1 is not None else [(st, rv)]
    then_kont(items, depth, k2, d2)
    out = []
    for s, v in items:
        if v is PUSHED:
            out.append((s, v))
        else:
            out.extend(k2(E, s, v, d2, cs))
    return out


class Engine:
    def __init__(self, crate, models, max_steps=400000, max_paths=20000):
        self.crate = crate
        self.models = models
        self.paths = []
        self.monitors = []
        self.on_bool = []
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.steps = 0
        self.nev = 0
        self.dty = {}          # opaque reference term -> pointee type
        self.heads = {}
        self.entries = {}
        self.dry = None
        self.cancel = None
        self.unknown = {}
        self.analysed = set()
        self.callsites = set()
        self.violations = []
        self.opts = {}
        self._uids = {}
        self.joins = 0

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.crate.types[i]

    def vdefs(self, ty):
        return [v["d"] for v in self.ty(ty)["variants"]]

    def bits(self, ty):
        t = self.ty(ty)
        if t["k"] in ("uint", "int"):
            return t["w"], t["k"] == "int"
        if t["k"] == "char":
            return 32, False
        return None

    def irange(self, ty):
        w, s = self.bits(ty)
        if s:
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return 0, (1 << w) - 1

    def is_vec(self, t):
        return t["k"] == "adt" and t["path"] == "alloc::vec::Vec"

    def mkval(self, term, ty):
        """an unconstrained value of a type, named by a term"""
        if ty is None:
            return ("T", term, None)
        t = self.ty(ty)
        k = t["k"]
        if k in ("uint", "int", "char"):
            lo, hi = self.irange(ty)
            return lin(sym(term, lo, hi))
        if k == "bool":
            return ("?", ("b", term))
        if k == "tuple":
            return ("A", ty, 0, tuple(self.mkval(T("f", term, 0, i), e) for i, e in enumerate(t["e"])))
        if k == "array":
            if isinstance(t["n"], int):
                return ("Y", t["e"], (tseg(mk(t["n"]), term),) if t["n"] else ())
            n = lin(sym(T("len", term), 0, ISIZE_MAX))
            return ("Y", t["e"], (tseg(n, term),))
        if k == "ref" or k == "ptr":
            to = self.ty(t["to"])
            obj = ("d", term)
            self.dty[term] = t["to"]
            if to["k"] in ("slice", "str"):
                return ("R", obj, (("s", ZERO, lin(sym(T("len", term), 0, ISIZE_MAX))),))
            return ("R", obj, ())
        if self.is_vec(t):
            n = lin(sym(T("len", term), 0, ISIZE_MAX))
            return ("V", t["args"][0], (tseg(n, term),))
        if k == "fndef" or (k == "closure" and not t["up"]):
            return ("F", ty) if k == "fndef" else ("A", ty, 0, ())
        if k in ("closure", "coroutine"):
            return ("A", ty, 0, tuple(self.mkval(T("f", term, 0, i), e) for i, e in enumerate(t["up"])))
        if k == "adt" and t["path"] == "core::pin::Pin" and t["variants"]:
            return ("A", ty, 0, (self.mkval(T("f", term, 0, 0), t["variants"][0]["f"][0][1]),))
        return ("T", term, ty)

    def expand(self, v, variant=None, st=None):
        """one level of structure of an opaque adt value"""
        if v[0] != "T" or v[2] is None:
            return v
        t = self.ty(v[2])
        if t["k"] == "adt" and t["variants"]:
            if t["ak"] == "struct":
                variant = 0
            if variant is None and st is not None:
                variant = st.var.get(v[1])
            if variant is None:
                return v
            fs = t["variants"][variant]["f"]
            return ("A", v[2], variant, tuple(self.mkval(T("f", v[1], variant, i), f[1]) for i, f in enumerate(fs)))
        return v

    def deref_init(self, term):
        ty = self.dty.get(term)
        if ty is None:
            raise Imprecise(f"read through a reference of unknown type {term}")
        t = self.ty(ty)
        if t["k"] in ("slice", "str"):
            n = lin(sym(T("len", term), 0, ISIZE_MAX))
            e = t.get("e")
            return ("Y", e, (tseg(n, T("deref", term)),))
        return self.mkval(T("deref", term), ty)

    # ------------------------------------------------------- memory access
    def getobj(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == "d":
                v = self.deref_init(obj[1])
                st.mem[obj] = v
                return v
            if obj[0] == "kv":
                return obj[1]
            if obj[0] == "k":
                return ("Y", None, (const_seg(obj[1]),) if obj[1] else ())
            raise Imprecise(f"read of uninitialised {obj} at {self.here(st)}")
        return v

    def descend(self, st, v, path):
        for n, step in enumerate(path):
            if v is None:
                raise Imprecise(f"read of uninitialised part at {self.here(st)}")
            if isinstance(step, int):
                if v[0] == "T":
                    v2 = self.expand(v, st=st)
                    if v2[0] != "A":
                        t = self.ty(v[2]) if v[2] is not None else None
                        v = ("T", T("f", v[1], st.var.get(v[1], 0), step), None)
                        continue
                    v = v2
                if v[0] == "A":
                    v = v[3][step]
                elif v[0] == "X":
                    v = v[2][step]
                else:
                    raise Imprecise(f"field of {v[0]} at {self.here(st)}")
            elif step[0] == "v":
                if v[0] == "A":
                    if v[2] != step[1]:
                        raise Infeasible
                elif v[0] == "T":
                    st.set_var(v[1], step[1])
                    v = self.expand(v, step[1])
            elif step[0] == "i":
                if v[0] == "T":
                    v = ("T", T("elem", v[1], step[1]), None)
                else:
                    v = self.elem(st, v, step[1])
            elif step[0] == "s":
                if v[0] == "T":
                    return ("Y", None, (tseg(step[2], v[1], step[1]),))
                v = ("Y", v[1], self.sub(st, v[2], step[1], step[2]))
            else:
                raise Imprecise(str(step))
        return v

    def read(self, st, loc):
        return self.descend(st, self.getobj(st, loc[0]), loc[1])

    def update(self, st, v, path, new):
        if not path:
            return new
        step = path[0]
        if isinstance(step, int):
            if v is None:
                raise Imprecise("write into uninitialised aggregate")
            if v[0] == "T":
                v = self.expand(v, st=st)
            if v[0] == "A":
                fs = list(v[3])
                fs[step] = self.update(st, fs[step], path[1:], new)
                return ("A", v[1], v[2], tuple(fs))
            if v[0] == "X":
                fs = list(v[2])
                fs[step] = self.update(st, fs[step], path[1:], new)
                return ("X", v[1], tuple(fs))
            if v[0] == "T":
                return ("T", T("upd", v[1], step, valterm(new) if len(path) == 1 else T("new", "upd", id(new))), v[2])
            raise Imprecise(f"write field of {v[0]} at {self.here(st)}")
        if step[0] == "v":
            if v[0] == "T":
                v = self.expand(v, step[1])
            return self.update(st, v, path[1:], new)
        if step[0] == "i":
            old = self.elem(st, v, step[1]) if len(path) > 1 else None
            el = self.update(st, old, path[1:], new)
            return (v[0], v[1], self.splice(st, v[2], step[1], ONE, ((ONE, "v", (el,), None),)))
        if step[0] == "s":
            if len(path) == 1:
                return (v[0], v[1], self.splice(st, v[2], step[1], step[2], new[2]))
            inner = ("Y", v[1], self.sub(st, v[2], step[1], step[2]))
            inner = self.update(st, inner, path[1:], new)
            return (v[0], v[1], self.splice(st, v[2], step[1], step[2], inner[2]))
        raise Imprecise(str(step))

    def write(self, st, loc, new):
        obj, path = loc
        if "written" in self.opts:
            self.opts["written"](st, obj, path, new)
        if not path:
            st.mem[obj] = new
            return
        v = self.getobj(st, obj)
        st.mem[obj] = self.update(st, v, path, new)

    def sub(self, st, segs, off, ln):
        """the sub-sequence [off, off+ln)"""
        if st.eqz(ln):
            return ()
        out = []
        i = 0
        while i < len(segs):
            n = segs[i][0]
            if st.le(n, off):
                off = off - n
                i += 1
                continue
            break
        need = ln
        first = True
        while True:
            if i == len(segs):
                if st.eqz(need):
                    return self.merge(st, norm_segs(out))
                return self._opaque_sub(segs, off, ln, i)
            seg = segs[i]
            n = seg[0]
            if first and not st.le(off, n):
                break
            o = off if first else ZERO
            first = False
            avail = n - o
            if st.le(need, avail):
                out.append(self.cut(st, seg, o, need))
                return self.merge(st, norm_segs(out))
            if st.le(avail, need):
                out.append(self.cut(st, seg, o, avail))
                need = need - avail
                i += 1
                continue
            break
        return (tseg(ln, T("sub", bterm(segs)), off),)

    def merge(self, st, segs):
        """the same sequence with contiguous runs joined (lengths known only through the facts)"""
        if len(segs) < 2:
            return segs
        out = []
        for p in segs:
            if p[0].t and st.eqz(p[0]):
                continue
            if out and out[-1][1] == p[1]:
                q = out[-1]
                if p[1] == "t" and q[2] is p[2] and st.eq(q[3] + q[0], p[3]):
                    out[-1] = (q[0] + p[0], "t", q[2], q[3])
                    continue
                if p[1] == "f" and q[2] == p[2]:
                    out[-1] = (q[0] + p[0], "f", q[2], None)
                    continue
            out.append(p)
        return tuple(out)

    def _opaque_sub(self, segs, off, ln, i):
        return (tseg(ln, T("sub", bterm(segs)), off),)

    def cut(self, st, seg, o, n):
        l, k, a, b = seg
        if k == "f":
            return (n, k, a, b)
        if k in ("t", "g"):
            return (n, k, a, b + o)
        if o.t or n.t:
            # constants may be pinned by the facts
            o2, n2 = self.pin(st, o), self.pin(st, n)
            if o2 is None or n2 is None:
                if k == "c" and len(set(a)) == 1:
                    return (n, "f", mk(a[0]), None)
                return (n, "t", bterm((seg,)), o)
            o, n = mk(o2), mk(n2)
        return (n, k, a[o.c:o.c + n.c], b)

    def pin(self, st, e):
        if not e.t:
            return e.c
        b = lower_bound(st.facts, e)
        if b is not None and st.entails(b - e):
            return b
        return None

    def splice(self, st, segs, off, ln, new):
        total = seglen(segs)
        if st.eqz(off) and st.eq(ln, total):
            return norm_segs(new)
        a = self.sub(st, segs, ZERO, off)
        tail = total - off - ln
        c = self.sub(st, segs, off + ln, tail)
        return norm_segs(tuple(a) + tuple(new) + tuple(c))

    def elem(self, st, v, i):
        if v[0] not in ("Y", "V"):
            raise Imprecise(f"index of {v[0]}")
        s = self.sub(st, v[2], i, ONE)
        if len(s) != 1:
            raise Imprecise("element lookup")
        n, k, a, b = s[0]
        if k == "c":
            return mk(a[0])
        if k == "f":
            return a
        if k == "v":
            return a[0]
        if k == "g":
            return Subst({a[0]: b}).any(a[1])
        ety = v[1]
        if "elems" in self.opts and ety is not None:
            self.opts["elems"](st, a, b)
        if a.op == "le" and isinstance(a.args[0], Lin) and not b.t:
            x = a.args[0]
            if not x.t:
                return mk((x.c >> (8 * b.c)) & 255)
            if x.c >= 0 and all(f > 0 and y.lo is not None and y.lo >= 0 for y, f in x.t):
                return mk_rem(mk_div(x, 256 ** b.c), 256)
        if ety is None:
            return ("T", T("elem", a, b), None)
        return self.mkval(T("elem", a, b), ety)

    # ------------------------------------------------------------- places
    def loc(self, st, place):
        fr = st.stack[-1]
        obj = ("l", fr.uid, place[0])
        path = ()
        for e in place[1]:
            if e == "D":
                v = self.read(st, (obj, path))
                obj, path = self.deref(st, v)
            elif e == "X":
                continue
            elif e[0] == "F":
                path = path + (e[1],)
            elif e[0] == "V":
                path = path + (("v", e[1]),)
            elif e[0] == "I":
                iv = self.read(st, (("l", fr.uid, e[1]), ()))
                path = self._idx(path, iv)
            elif e[0] == "C":
                off = mk(e[1])
                if e[3]:
                    off = self.length(st, (obj, path)) - e[1]
                path = self._idx(path, off)
            elif e[0] == "S":
                n = self.length(st, (obj, path))
                frm = mk(e[1])
                to = (n - e[2]) if e[3] else mk(e[2])
                path = self._slice(path, frm, to - frm)
            else:
                raise Imprecise(str(e))
        return (obj, path)

    def _idx(self, path, i):
        if path and isinstance(path[-1], tuple) and path[-1][0] == "s":
            return path[:-1] + (("i", path[-1][1] + i),)
        return path + (("i", i),)

    def _slice(self, path, off, ln):
        if path and isinstance(path[-1], tuple) and path[-1][0] == "s":
            return path[:-1] + (("s", path[-1][1] + off, ln),)
        return path + (("s", off, ln),)

    def length(self, st, loc):
        p = loc[1]
        if p and isinstance(p[-1], tuple) and p[-1][0] == "s":
            return p[-1][2]
        v = self.read(st, loc)
        if v[0] in ("Y", "V"):
            return seglen(v[2])
        return lin(sym(T("len", valterm(v)), 0, ISIZE_MAX))

    def deref(self, st, v):
        if v is None:
            raise Imprecise(f"deref of uninitialised at {self.here(st)}")
        if v[0] == "R":
            return v[1], v[2]
        if v[0] == "A" and len(v[3]) == 1:
            return self.deref(st, v[3][0])
        if v[0] == "X" and v[1] == "box":
            if v[2][0][0] == "R":
                return v[2][0][1], v[2][0][2]
            return ("bx", v[2][0]), ()
        if v[0] == "T":
            term = v[1]
            if term not in self.dty:
                t = self.ty(v[2]) if v[2] is not None else None
                if t and t["k"] == "adt" and t["args"]:
                    self.dty[term] = t["args"][0]
                elif t and t["k"] in ("ref", "ptr"):
                    self.dty[term] = t["to"]
                else:
                    st.mem.setdefault(("d", term), ("T", T("deref", term), None))
            return ("d", term), ()
        raise Imprecise(f"deref of {v[0]} {v[1]} at {self.here(st)}")

    def here(self, st):
        fr = st.stack[-1]
        sp = self.cursp if self.cursp else None
        return fr.body.crate.where(sp) if sp else fr.body.crate.where(fr.body.span)

    cursp = None

    # ----------------------------------------------------------- operands
    def operand(self, st, o):
        k = o[0]
        if k == "c":
            return self.read(st, self.loc(st, o[1]))
        if k == "m":
            l = self.loc(st, o[1])
            v = self.read(st, l)
            if not l[1] and l[0][0] == "l":
                st.mem.pop(l[0], None)
            elif owed(v):
                self.write(st, l, ("X", "moved", ()))
            return v
        if k == "k":
            return self.const(o[1]["v"], o[1]["t"], o[1].get("d"))
        return ("T", T("rtcheck"), None) if k != "rc" else False

    def const(self, v, ty, d=None):
        t = self.ty(ty) if ty is not None else None
        if t is not None and t["k"] in ("fndef",):
            return ("F", ty)
        k = v[0]
        if k == "i":
            return mk(int(v[1]))
        if k == "b":
            return bool(v[1])
        if k == "z":
            if t["k"] == "array":
                return ("Y", t["e"], ())
            if t["k"] in ("tuple", "adt", "closure"):
                if t["k"] == "adt" and not t["variants"]:
                    return ("T", T("const", t["path"]), ty)
                return ("A", ty, 0, tuple(self.const(["z"], f[1]) for f in t["variants"][0]["f"]) if t["k"] == "adt" else ())
            return ("T", T("const", "zst", ty), ty)
        if k == "s":
            b = v[1].encode("utf-8", "surrogateescape")
            return ("R", ("k", b), (("s", ZERO, mk(len(b))),))
        if k == "ref":
            to = t["to"] if t is not None and t["k"] in ("ref", "ptr") else None
            inner = self.const(v[1], to)
            obj = ("kv", inner)
            if isinstance(inner, tuple) and inner[0] == "Y" and to is not None and self.ty(to)["k"] in ("slice", "str"):
                return ("R", obj, (("s", ZERO, seglen(inner[2])),))
            return ("R", obj, ())
        if k in ("slice", "arr"):
            e = t.get("e") if t is not None else None
            vals = tuple(self.const(x, e) for x in v[1])
            return ("Y", e, norm_segs(((mk(len(vals)), "v", vals, None),)))
        if k == "agg":
            if t is not None and t["k"] == "adt" and t["path"] == "alloc::vec::Vec":
                return ("V", t["args"][0], ())
            var = v[1] or 0
            fts = None
            if t is not None:
                if t["k"] == "adt" and t["variants"]:
                    fts = [f[1] for f in t["variants"][var]["f"]]
                elif t["k"] == "tuple":
                    fts = t["e"]
                elif t["k"] == "adt":
                    return ("T", T("const", t["path"], repr(v)), ty)
            return ("A", ty, var, tuple(self.const(x, fts[i] if fts else None) for i, x in enumerate(v[2])))
        if k == "prom":
            return ("T", T("const", "prom", str(v[1])), ty)
        term = T("const", d or str(v))
        if ty is None:
            return ("T", term, None)
        return self.mkval(term, ty)

    def optype(self, st, o):
        if o[0] == "k":
            return o[1]["t"]
        return self.placety(st.stack[-1].body, o[1])

    def placety(self, body, place):
        ty = body.locals[place[0]][0]
        var = 0
        for e in place[1]:
            if ty is None:
                return None
            t = self.ty(ty)
            if e == "D":
                ty = t.get("to") if t["k"] in ("ref", "ptr") else (t["args"][0] if t["k"] == "adt" and t["args"] else None)
            elif e == "X":
                pass
            elif e[0] == "F":
                ty = e[2]
            elif e[0] in ("I", "C"):
                ty = t.get("e")
            elif e[0] == "S":
                pass
        return ty

    # ---------------------------------------------------------- arithmetic
    def asint(self, st, v):
        if isinstance(v, Lin):
            return v
        if v is True:
            return ONE
        if v is False:
            return ZERO
        if v[0] == "?":
            return lin(sym(T("b2i", v[1]), 0, 1))
        if v[0] == "T":
            return lin(sym(T("asint", v[1]), None, None))
        raise Imprecise(f"integer expected, got {v[0]} at {self.here(st)}")

    def wrap(self, st, e, ty):
        """e reduced to the range of ty"""
        lo, hi = self.irange(ty)
        if st.entails(e - lo) and st.entails(hi - e):
            return e
        w, s = self.bits(ty)
        return lin(sym(T("trunc", e, w, s), lo, hi))

    def div(self, st, x, m):
        if not m.t and m.c > 0:
            x = self.reduce(st, x)
            q = mk_div(x, m.c)
            return q
        if not x.t and not m.t and m.c:
            return mk(int(x.c / m.c))
        return lin(sym(T("div", x, m), None, None))

    def rem(self, st, x, m):
        if not m.t and m.c > 0:
            x = self.reduce(st, x)
            r = mk_rem(x, m.c)
            # rem(base + k) = rem(base) + k when it provably does not carry
            if len(r.t) == 1 and r.t[0][0].term.op == "rem":
                inner = r.t[0][0].term.args[0]
                if st.entails(inner) and st.entails((m.c - 1) - inner):
                    return inner
            return r
        return lin(sym(T("rem", x, m), 0, None))

    def reduce(self, st, x):
        return x

    def binop(self, st, op, a, b, ta):
        t = self.ty(ta) if ta is not None else {"k": "?"}
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, Lin) and isinstance(b, Lin):
                c = {"Eq": ("eq", a - b), "Ne": ("ne", a - b), "Lt": ("ge", b - a - 1), "Le": ("ge", b - a),
                     "Gt": ("ge", a - b - 1), "Ge": ("ge", a - b)}[op]
                r = mkb(c)
                return r
            if op in ("Eq", "Ne"):
                if isinstance(a, bool) and isinstance(b, bool):
                    return (a == b) == (op == "Eq")
                if isinstance(a, bool) or isinstance(b, bool):
                    x, y = (a, b) if isinstance(b, bool) else (b, a)
                    r = x if y else bnot(x)
                    return r if op == "Eq" else bnot(r)
                if a[0] == "?" and b[0] == "?":
                    c = ("or", ("and", a[1], b[1]), ("and", neg(a[1]), neg(b[1])))
                    return ("?", c if op == "Eq" else neg(c))
                r = self.eqval(st, a, b)
                return r if op == "Eq" else bnot(r)
            return ("?", ("b", T("cmp" + op, valterm(a), valterm(b))))
        if op.endswith("WithOverflow"):
            base = op[:-12]
            r = self.arith(st, base, a, b, ta)
            if r is None:
                return tup(lin(sym(T(base, valterm(a), valterm(b)), *self.irange(ta))), ("?", ("b", T("ovf", base, valterm(a), valterm(b)))))
            lo, hi = self.irange(ta)
            c = ("or", ("ge", r - hi - 1), ("ge", lo - r - 1))
            if st.entails(r - lo):
                c = ("ge", r - hi - 1)
            elif st.entails(hi - r):
                c = ("ge", lo - r - 1)
            return tup(r, mkb(c))
        if t["k"] == "bool" or (isinstance(a, bool) or isinstance(b, bool)) or (isinstance(a, tuple) and a[0] == "?"):
            ca = self.ascond(a)
            cb = self.ascond(b)
            if op == "BitAnd":
                if ca is True:
                    return b
                if cb is True:
                    return a
                if ca is False or cb is False:
                    return False
                return ("?", ("and", ca, cb))
            if op == "BitOr":
                if ca is False:
                    return b
                if cb is False:
                    return a
                if ca is True or cb is True:
                    return True
                return ("?", ("or", ca, cb))
            if op == "BitXor":
                if isinstance(ca, bool):
                    return bnot(b) if ca else b
                if isinstance(cb, bool):
                    return bnot(a) if cb else a
                return ("?", ("or", ("and", ca, neg(cb)), ("and", neg(ca), cb)))
        if t["k"] == "float":
            return ("T", T("f" + op, valterm(a), valterm(b)), ta)
        if t["k"] not in ("uint", "int", "char"):
            return ("T", T(op, valterm(a), valterm(b)), ta)
        base = op.replace("Unchecked", "")
        r = self.arith(st, base, a, b, ta)
        if r is None:
            x, y = valterm(a), valterm(b)
            if base in ("BitOr", "BitXor", "BitAnd") and y.id < x.id:
                x, y = y, x
            return lin(sym(T(base, x, y), *self.irange(ta)))
        return self.wrap(st, r, ta)

    def ascond(self, v):
        if isinstance(v, bool):
            return v
        return v[1]

    def arith(self, st, op, a, b, ta):
        """exact mathematical result, or None"""
        a = self.asint(st, a)
        b = self.asint(st, b)
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            if not b.t:
                return a * b.c
            if not a.t:
                return b * a.c
            pa, pb = self.pin(st, a), self.pin(st, b)
            if pb is not None:
                return a * pb
            if pa is not None:
                return b * pa
            return None
        if op == "Div":
            return self.div(st, a, b)
        if op == "Rem":
            return self.rem(st, a, b)
        w, sg = self.bits(ta)
        if op == "BitAnd":
            for x, m in ((a, b), (b, a)):
                if not m.t:
                    if m.c == 0:
                        return ZERO
                    if m.c & (m.c + 1) == 0 and m.c > 0:
                        return self.rem(st, x, mk(m.c + 1))
                    if not x.t:
                        return mk(x.c & m.c)
            if not b.t and b.c > 0 and (b.c & (b.c - 1)) == 0 and not sg:
                # single bit k: ((a >> k) & 1) << k
                kbit = b.c.bit_length() - 1
                return self.rem(st, self.div(st, a, mk(1 << kbit)), mk(2)) * b.c
            if not a.t and a.c > 0 and (a.c & (a.c - 1)) == 0 and not sg:
                return self.arith(st, op, b, a, ta)
            return None
        if op in ("BitOr", "BitXor"):
            if not a.t and not b.t:
                return mk(a.c | b.c) if op == "BitOr" else mk(a.c ^ b.c)
            if not b.t and b.c == 0:
                return a
            if not a.t and a.c == 0:
                return b
            # disjoint bits: low part below the lowest bit of the high part
            if op == "BitOr":
                for x, y in ((a, b), (b, a)):
                    g = _low_pow(y)
                    if g > 1 and st.entails(x) and st.entails((g - 1) - x):
                        return x + y
            return None
        if op == "Shl":
            if not b.t:
                r = a * (1 << b.c)
                lo, hi = self.irange(ta)
                if st.entails(hi - r):
                    return r
                # bits shifted out
                return self.rem(st, a, mk(1 << max(0, w - b.c))) * (1 << b.c) if not sg else None
            if not a.t and a.c > 0:
                for k in range(1, 8):
                    if a.c << k <= self.irange(ta)[1] and st.entails(mk(k) - b) and st.entails(b):
                        return lin(sym(T("Shl", valterm(a), valterm(b)), a.c, a.c << k))
            return None
        if op == "Shr":
            if not b.t and not sg:
                return self.div(st, a, mk(1 << b.c))
            return None
        return None

    # ------------------------------------------------------------ equality
    def eqval(self, st, a, b):
        """boolean value for a == b (structural)"""
        if isinstance(a, Lin) and isinstance(b, Lin):
            return mkb(("eq", a - b))
        if isinstance(a, bool) or isinstance(b, bool):
            return self.binop(st, "Eq", a, b, None)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == "R" and b[0] == "R":
                return self.eqval(st, self.read(st, (a[1], a[2])), self.read(st, (b[1], b[2])))
            if a[0] == "R":
                return self.eqval(st, self.read(st, (a[1], a[2])), b)
            if b[0] == "R":
                return self.eqval(st, a, self.read(st, (b[1], b[2])))
            if a[0] in ("Y", "V") and b[0] in ("Y", "V"):
                la, lb = seglen(a[2]), seglen(b[2])
                sa, sb = norm_segs(a[2]), norm_segs(b[2])
                ta, tb = bterm(sa), bterm(sb)
                if ta is tb:
                    return True
                if len(sa) == 1 and len(sb) == 1 and sa[0][1] == "c" and sb[0][1] == "c":
                    return sa[0][2] == sb[0][2]
                d = st.decidec(("eq", la - lb))
                if d is False:
                    return False
                x, y = (ta, tb) if ta.id < tb.id else (tb, ta)
                c = ("b", T("eq", x, y))
                if d is None:
                    return ("?", ("and", ("eq", la - lb), c))
                return ("?", c)
            if a[0] == "A" and b[0] == "A":
                if a[2] != b[2] or len(a[3]) != len(b[3]):
                    return False
                r = True
                for x, y in zip(a[3], b[3]):
                    e = self.eqval(st, x, y)
                    if e is False:
                        return False
                    if e is True:
                        continue
                    r = e if r is True else ("?", ("and", r[1], e[1]))
                return r
        ta, tb = valterm(a), valterm(b)
        if ta is tb:
            return True
        x, y = (ta, tb) if ta.id < tb.id else (tb, ta)
        return ("?", ("b", T("eq", x, y)))

    # -------------------------------------------------------------- rvalues
    def rvalue(self, st, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "rep":
            v = self.operand(st, r[1])
            n = r[2]
            n = mk(n) if isinstance(n, int) else lin(sym(T("constn", str(n)), 0, ISIZE_MAX))
            e = self.ty(dty)["e"] if dty is not None and self.ty(dty)["k"] == "array" else None
            return ("Y", e, norm_segs(((n, "f", v, None),)))
        if k == "ref" or k == "raw":
            l = self.loc(st, r[2] if k == "ref" else r[1])
            return ("R", l[0], l[1])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, r[2]), self.optype(st, r[2]), r[3])
        if k == "bin":
            ta = self.optype(st, r[2])
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            return self.binop(st, r[1], a, b, ta)
        if k == "un":
            ta = self.optype(st, r[2])
            a = self.operand(st, r[2])
            if r[1] == "Not":
                if isinstance(a, bool) or (isinstance(a, tuple) and a[0] == "?"):
                    return bnot(a)
                if isinstance(a, Lin):
                    lo, hi = self.irange(ta)
                    return (hi - a) if lo == 0 else ((a * -1) - 1)
            if r[1] == "Neg" and isinstance(a, Lin):
                return a * -1
            if r[1] == "PtrMetadata":
                if a[0] == "R":
                    return self.length(st, (a[1], a[2]))
                return self.mkval(T("meta", valterm(a)), dty)
            return self.mkval(T("un" + r[1], valterm(a)), dty)
        if k == "disc":
            v = self.read(st, self.loc(st, r[1]))
            return self.discr(st, v, self.placety(st.stack[-1].body, r[1]))
        if k == "agg":
            kind = r[1]
            ops = [self.operand(st, o) for o in r[2]]
            if kind[0] == "arr":
                return ("Y", kind[1] if len(kind) > 1 else None, norm_segs(((mk(len(ops)), "v", tuple(ops), None),)))
            if kind[0] == "tup":
                return ("A", dty, 0, tuple(ops))
            if kind[0] == "adt":
                return ("A", kind[1], kind[2] or 0, tuple(ops))
            if kind[0] in ("clo", "cor"):
                return ("A", kind[1], 0, tuple(ops))
            if kind[0] == "rawptr":
                p, meta = ops
                if p[0] == "R" and isinstance(meta, Lin):
                    return ("R", p[1], self._slice(p[2], ZERO, meta))
                return p
        if dty is not None:
            return self.mkval(st.fresh(self.site(st), "rv"), dty)
        return ("T", st.fresh(self.site(st), "rv"), None)

    def discr(self, st, v, ty):
        if isinstance(v, tuple) and v[0] == "A":
            t = self.ty(v[1]) if v[1] is not None else (self.ty(ty) if ty is not None else None)
            if t and t["k"] == "adt" and t["variants"]:
                return mk(int(t["variants"][v[2]]["d"]))
            return mk(v[2])
        if isinstance(v, tuple) and v[0] == "T":
            vt = v[2] if v[2] is not None else ty
            if vt is None:
                raise Imprecise("discriminant of untyped value")
            i = st.var.get(v[1])
            t = self.ty(vt)
            if i is not None:
                return mk(int(t["variants"][i]["d"]))
            if t["k"] == "adt" and t["variants"]:
                ds = [int(x["d"]) for x in t["variants"]]
                return lin(sym(T("disc", v[1], vt), min(ds), max(ds)))
            return lin(sym(T("disc?", v[1]), 0, None))
        raise Imprecise(f"discriminant of {v[0] if isinstance(v, tuple) else v} at {self.here(st)}")

    def cast(self, st, kind, v, tf, tt):
        if kind.startswith("IntToInt"):
            return self.wrap(st, self.asint(st, v), tt)
        if "Unsize" in kind:
            if isinstance(v, tuple) and v[0] == "R":
                t = self.ty(tt)
                if t["k"] in ("ref", "ptr") and self.ty(t["to"])["k"] == "slice":
                    f = self.ty(tf)
                    n = self.ty(f["to"]).get("n") if f["k"] in ("ref", "ptr") else None
                    n = mk(n) if isinstance(n, int) else self.length(st, (v[1], v[2]))
                    return ("R", v[1], v[2] + (("s", ZERO, n),))
            return v
        if kind.startswith("IntToFloat") or kind.startswith("FloatTo") or kind.startswith("IntToFloat"):
            return self.mkval(T("cast", valterm(v), tt), tt)
        if "ClosureFnPointer" in kind or "ReifyFnPointer" in kind:
            return v
        return v

    # --------------------------------------------------------------- running
    def site(self, st):
        fr = st.stack[-1]
        return (fr.uid, st.bb)

    def uid(self, parent, key, bb):
        k = (parent, key, bb)
        u = self._uids.get(k)
        if u is None:
            u = len(self._uids)
            self._uids[k] = u
        return u

    def start(self, key, args=None, setup=None):
        """run an entry point; opaque arguments unless given"""
        body = self.crate.body(key)
        if body is None:
            raise Imprecise(f"no body for {key}")
        st = St()
        st.E = self
        st.mem = {}
        st.facts = set()
        st.ne = set()
        st.var = {}
        st.nvar = {}
        st.bt = {}
        st.tr = None
        st.cnt = {}
        st.mon = ()
        st.steps = 0
        st.term = None
        st.ret = None
        st.stack = (Frame(body, self.uid(0, key, -1), None, None, None, None, None),)
        st.bb = 0
        uid = st.stack[0].uid
        for i in range(1, body.argc + 1):
            ty, name = body.locals[i]
            a = None
            if args is not None:
                a = args.get(i, args.get(name))
            if a is None:
                a = self.mkval(T("arg", i, name or "_"), ty)
            st.mem[("l", uid, i)] = a
        if setup:
            setup(self, st)
        self.resume([st])
        return self.paths

    def then(self, st0, key, args, setup=None):
        """continue from a finished path: call another entry; its paths only"""
        body = self.crate.body(key)
        if body is None:
            raise Imprecise(f"no body for {key}")
        self.nthen = getattr(self, "nthen", 0) + 1
        tag = "then%d" % self.nthen
        st = st0.fork()
        st.ret = None
        st.stack = (Frame(body, self.uid(tag, key, -1), None, None, None, None, None),)
        st.bb = 0
        uid = st.stack[0].uid
        for i in range(1, body.argc + 1):
            ty, name = body.locals[i]
            a = args.get(i, args.get(name))
            if a is None:
                a = self.mkval(T("arg", tag, i, name or "_"), ty)
            st.mem[("l", uid, i)] = a
        if setup:
            setup(self, st)
        old, oc = self.paths, self.cancel
        self.paths = []
        if self.opts.get("cancel"):
            self.cancel = {i: st.mem[("l", uid, i)] for i in range(1, body.argc + 1)}
        try:
            self.resume([st])
            return self.paths
        finally:
            new = self.paths
            self.paths, self.cancel = old, oc
            self.last = new

    def resume(self, work):
        while work:
            st = work.pop()
            try:
                work.extend(self.block(st))
            except Infeasible:
                pass

    def end(self, st, kind, why, ret=None):
        if self.dry is not None:
            raise Dry(False)
        if len(self.paths) >= self.max_paths:
            raise Imprecise("path budget exhausted")
        p = Path(kind, st, why, self.here(st), ret)
        self.paths.append(p)
        for h in self.opts.get("on_end", ()):
            h(p)

    def block(self, st):
        out = []
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Imprecise("step budget exhausted")
            if self.steps % 256 == 0 and time.time() > DEADLINE:
                raise Imprecise("time budget exhausted")
            fr = st.stack[-1]
            body = fr.body
            bb = st.bb
            self.cursp = body.blocks[bb]["sp"]
            if self.dry is not None:
                self.dry[1] += 1
                if self.dry[1] > 1:
                    uids, hb = self.dry[0]
                    now = tuple(f.uid for f in st.stack)
                    if now == uids and bb == hb:
                        raise Dry(True)
                    if now == uids and bb not in body.loops[hb] or len(now) < len(uids):
                        raise Dry("out")
                    if self.dry[1] > 600:
                        raise Dry(False)
            elif bb in body.heads or bb == 0 and len(st.stack) == 1 and self.cancel:
                st2 = self.loop_head(st)
                if st2 is None:
                    self.end(st, "loop", "subsumed at loop head")
                    return out
                st = st2
            blk = body.blocks[bb]
            self.analysed.add(body.key)
            st.cnt["at", fr.uid] = bb
            for s in blk["s"]:
                k = s[0]
                if k == "=":
                    self.cursp = s[3] if len(s) > 3 and s[3] else blk["sp"]
                    dty = self.placety(body, s[1])
                    v = self.rvalue(st, s[2], dty)
                    self.write(st, self.loc(st, s[1]), v)
                elif k == "dead":
                    st.mem.pop(("l", fr.uid, s[1]), None)
                elif k == "sd":
                    l = self.loc(st, s[1])
                    v = self.read(st, l)
                    if v[0] == "A":
                        self.write(st, l, ("A", v[1], s[2], v[3]))
            self.cursp = blk["sp"]
            t = blk["t"]
            k = t[0]
            if k == "goto":
                st.bb = t[1]
                continue
            if k == "sw":
                nx = self.switch(st, t)
            elif k == "ret":
                nx = self.ret(st)
            elif k == "call":
                nx = self.call(st, t)
            elif k == "assert":
                nx = self.assert_(st, t)
            elif k == "drop":
                nx = self.drop(st, t)
            elif k == "yield":
                st.ev("yield")
                if self.dry is not None:
                    raise Dry(False)
                if self.cancel:
                    out.append(self.cancelled(st))
                self.write(st, self.loc(st, t[3]), ("T", T("resume"), None))
                st.bb = t[2]
                continue
            elif k == "unr":
                return out
            elif k == "resume":
                return out
            else:
                raise Imprecise(f"terminator {k}")
            if self.dry is not None and len(nx) != 1:
                # a decision, after which every way leaves the loop
                self.dry[2] += 1
                if self.dry[2] > 16:
                    raise Dry(False)
                for s in nx:
                    try:
                        self.block(s)
                    except Dry as e:
                        if e.args[0] != "out":
                            raise Dry(False)
                    except Infeasible:
                        pass
                    else:
                        raise Dry(False)
                raise Dry("out" if nx else False)
            if not nx:
                return out
            out.extend(nx[1:])
            st = nx[0]

    def cancelled(self, st):
        """the future is dropped at this suspension point and called anew"""
        s = st.fork()
        s.stack = s.stack[:1]
        uid = s.stack[0].uid
        s.mem = {o: v for o, v in s.mem.items() if o[0] not in ("l", "env")}
        for i, v in self.cancel.items():
            s.mem[("l", uid, i)] = v
        s.bb = 0
        s.ev("cancelled")
        return s

    def switch(self, st, t):
        v = self.operand(st, t[1])
        out = []
        if isinstance(v, bool) or (isinstance(v, tuple) and v[0] == "?"):
            # boolean switch: value 0 -> false
            tf = {int(x[0]): x[1] for x in t[2]}
            for b, s in st.branch(v):
                s.bb = tf.get(int(b), t[3])
                out.append(s)
            return out
        v = self.asint(st, v)
        cur = st
        for val, bb in t[2]:
            val = int(val)
            d = cur.decidec(("eq", v - val))
            if d is True:
                cur.bb = bb
                out.append(cur)
                return out
            if d is False:
                continue
            s = cur.fork()
            try:
                s.assume(("eq", v - val))
                s.bb = bb
                out.append(s)
            except Infeasible:
                pass
            try:
                cur.assume(("ne", v - val))
            except Infeasible:
                return out
        cur.bb = t[3]
        out.append(cur)
        return out

    def assert_(self, st, t):
        v = self.operand(st, t[1])
        exp = t[2]
        out = []
        for b, s in st.branch(v):
            if b == exp:
                s.bb = t[5]
                out.append(s)
            else:
                s.ev("assert_fail", kind=t[3], ops=tuple(self.safe_op(s, o) for o in t[4]))
                self.end(s, "panic", t[3])
        return out

    def safe_op(self, st, o):
        try:
            return (self.operand(st, ["c", o[1]] if o[0] == "m" else o), self.optype(st, o))
        except (Imprecise, Infeasible):
            return (None, None)

    def drop(self, st, t):
        try:
            l = self.loc(st, t[1])
        except Imprecise:
            st.bb = t[2]
            return [st]
        v = None
        if l[0] in st.mem:
            try:
                v = self.read(st, l)
            except (Imprecise, Infeasible):
                v = None
        st.bb = t[2]
        if v is not None:
            self.on_drop(st, v, self.placety(st.stack[-1].body, t[1]), l)
            if not l[1] and l[0][0] == "l":
                st.mem.pop(l[0], None)
        return [st]

    def on_drop(self, st, v, ty, loc):
        h = self.models.get("@drop")
        if h:
            h(self, st, v, ty, loc)

    def ret(self, st):
        fr = st.stack[-1]
        rv = st.mem.get(("l", fr.uid, 0), UNIT)
        if len(st.stack) == 1:
            st.ret = rv
            self.end(st, "ret", "return", rv)
            if self.cancel and self.opts.get("cancel") in ("retry", "ok", "all"):
                x = rv
                if x[0] == "A" and (self.opts["cancel"] == "all" or x[2] == ("ok", "retry").index(self.opts["cancel"])):
                    return [self.cancelled(st.fork())]
            return []
        # drop the frame's locals
        for i in range(1, len(fr.body.locals)):
            st.mem.pop(("l", fr.uid, i), None)
        st.mem.pop(("l", fr.uid, 0), None)
        st.stack = st.stack[:-1]
        if fr.kont is not None:
            cs = fr.callsite
            st.bb = cs.bb
            items = fr.kont(self, st, rv, fr.kdata, cs)
            return self.deliver(items, cs)
        self.write(st, self.destloc(st, fr.dest), rv)
        st.bb = fr.target
        return [st]

    def destloc(self, st, dest):
        return self.loc(st, dest)

    def deliver(self, items, cs):
        out = []
        for s, v in items:
            if v is PUSHED:
                out.append(s)
                continue
            if cs.target is None:
                continue
            self.write(s, self.loc(s, cs.dest), v)
            s.bb = cs.target
            out.append(s)
        return out

    # ------------------------------------------------------------------ calls
    def call(self, st, t):
        _, func, args, dest, target = t
        if func[0] == "py":
            argtys = [None] * len(args)
            avs = [self.operand(st, a) for a in args]
            cs = CallSite(dest, target, st.bb, None, argtys)
            return self.deliver(self.models["@py"][func[1]](self, st, avs, cs), cs)
        fv = self.operand(st, func)
        argtys = [self.optype(st, a) for a in args]
        avs = [self.operand(st, a) for a in args]
        cs = CallSite(dest, target, st.bb, self.placety(st.stack[-1].body, dest), argtys)
        return self.deliver(self.call_value(st, fv, avs, cs), cs)

    def call_value(self, st, fv, avs, cs, kont=None, kdata=None):
        """list of (state, value|PUSHED)"""
        def done(items):
            if kont is None:
                return items
            out = []
            for s, v in items:
                if v is PUSHED:
                    out.append((s, v))
                else:
                    out.extend(kont(self, s, v, kdata, cs))
            return out
        if fv[0] == "R":
            fv = self.read(st, (fv[1], fv[2]))
        if fv[0] == "A" and fv[1] is not None and self.ty(fv[1])["k"] == "closure":
            ct = self.ty(fv[1])
            body = self.crate.body(ct["inst"]) if ct.get("inst") else None
            if body is None:
                return done(self.havoc_call(st, "closure", avs, cs))
            env = fv
            if self.ty(body.locals[1][0])["k"] == "ref":
                obj = ("env", self.site(st), ct["inst"])
                st.mem[obj] = fv
                env = ("R", obj, ())
            return self.push(st, body, [env] + list(avs), cs, kont, kdata)
        if fv[0] == "X" and fv[1] == "pyadd":
            v = avs[1]
            while isinstance(v, tuple) and v[0] == "R":
                v = self.read(st, (v[1], v[2]))
            r = avs[0] + v
            if fv[2][0] is not None:
                r = self.wrap(st, r, fv[2][0])
            return done([(st, r)])
        if fv[0] == "X" and fv[1] == "pycount":
            return done([(st, avs[0] + 1)])
        if fv[0] == "X" and fv[1] == "pylast":
            return done([(st, ("A", fv[2][0], 1, (avs[1],)))])
        if fv[0] == "F":
            ft = self.ty(fv[1])
            cs2 = cs
            if kont is not None or cs.ty is None:
                # a nested call made by a model: result type is not the site's
                cs2 = CallSite(cs.dest, cs.target, cs.bb, ft.get("ret"), cs.argtys if len(cs.argtys) == len(avs) else [None] * len(avs))
                cs2.outer = cs
            return self.call_fn(st, fv, ft, avs, cs2, kont, kdata, done)
        return done(self.havoc_call(st, "indirect:" + str(fv[0]), avs, cs))

    def call_fn(self, st, fv, ft, avs, cs, kont, kdata, done):
        name = ft["name"]
        self.callsites.add((st.stack[-1].body.name, st.bb, name))
        cs.fty = fv[1]
        if ft.get("ctor") is not None:
            c = ft["ctor"]
            if isinstance(c, list):
                return done([(st, ("A", c[0], c[1] or 0, tuple(avs)))])
            return done([(st, ("A", cs.ty, c if isinstance(c, int) else 0, tuple(avs)))])
        iname = ft.get("iname")
        body = self.crate.body(ft["inst"]) if ft.get("inst") else None
        m = None
        if body is None or not body.local or body.kind == "coroutine":
            m = self.models.get(iname) or self.models.get(name)
        if m is None and self.opts.get("contract"):
            m = self.opts["contract"].get(name)
        if m is not None:
            depth = len(st.stack)
            r = m(self, st, avs, cs, ft)
            if r is not None:
                r = self.norm_items(st, r)
                if kont is not None:
                    then_kont(r, depth, kont, kdata)
                return done(r)
        if body is not None:
            if sum(1 for f in st.stack if f.body is body) >= 2:
                raise Imprecise(f"recursion in {body.name}")
            o = cs.outer if cs.outer is not None else cs
            if name in ("core::FnOnce::call_once", "core::FnMut::call_mut", "core::Fn::call") and body.kind == "closure" and body.spread is None \
                    and len(avs) == 2 and avs[1][0] == "A":
                if avs[0][0] == "A":
                    return self.call_value(st, avs[0], list(avs[1][3]), cs, kont, kdata)
                return self.push(st, body, [avs[0]] + list(avs[1][3]), o, kont, kdata)
            return self.push(st, body, avs, o, kont, kdata)
        if ft.get("never") or cs.target is None and kont is None:
            st.ev("panic_call", fn=name, args=tuple(avs))
            self.end(st, "panic", name)
            return []
        if self.models.get("@call"):
            r = self.models["@call"](self, st, avs, cs, ft)
            if r is not None:
                return done(self.norm_items(st, r))
        return done(self.havoc_call(st, iname or name, avs, cs))

    def norm_items(self, st, r):
        if isinstance(r, list):
            return r
        return [(st, r)]

    def push(self, st, body, avs, cs, kont=None, kdata=None):
        fr = st.stack[-1]
        uid = self.uid(fr.uid, body.key, st.bb)
        n = body.argc
        avs = list(avs)
        if body.spread is not None:
            # last declared argument is a tuple spread over the actual ones
            sp = body.spread
            head = avs[:sp - 1]
            avs = head + [tup(*avs[sp - 1:])]
        elif len(avs) != n and len(avs) == 2 and isinstance(avs[1], tuple) and avs[1][0] == "A":
            avs = [avs[0]] + list(avs[1][3])
        if len(avs) != n:
            raise Imprecise(f"arity of {body.name}: {len(avs)} vs {n}")
        for i, a in enumerate(avs):
            st.mem[("l", uid, i + 1)] = a
        st.stack = st.stack + (Frame(body, uid, cs.dest, cs.target, kont, kdata, cs),)
        if len(st.stack) > 60:
            raise Imprecise("call depth")
        st.bb = 0
        return [(st, PUSHED)]

    def havoc_call(self, st, name, avs, cs):
        """unknown callee: everything reachable through &mut becomes arbitrary"""
        self.unknown[name] = self.unknown.get(name, 0) + 1
        st.ev("unknown", fn=name, args=tuple(avs))
        for a, ty in zip(avs, cs.argtys):
            self.havoc_arg(st, a, ty, name)
        if cs.ty is not None and self.ty(cs.ty)["k"] == "tuple" and not self.ty(cs.ty)["e"]:
            return [(st, UNIT)]
        return [(st, self.mkval(st.fresh(self.site(st), name), cs.ty))]

    def havoc_arg(self, st, a, ty, name):
        if not (isinstance(a, tuple) and a and a[0] == "R"):
            return
        if ty is None:
            return
        t = self.ty(ty)
        if t["k"] in ("ref", "ptr") and not t["mut"]:
            return
        try:
            old = self.read(st, (a[1], a[2]))
        except (Imprecise, Infeasible):
            return
        self.write(st, (a[1], a[2]), self.havoc_val(st, old, t.get("to"), name))

    def havoc_val(self, st, old, ty, name):
        term = st.fresh(self.site(st), "havoc:" + name)
        if isinstance(old, tuple) and old[0] == "Y":
            return ("Y", old[1], (tseg(seglen(old[2]), term),))
        if isinstance(old, tuple) and old[0] == "X":
            return ("T", term, None)
        if ty is None and isinstance(old, tuple) and old[0] in ("T", "A"):
            ty = old[2] if old[0] == "T" else old[1]
        return self.mkval(term, ty)

    # ------------------------------------------------------------- loop heads
    def gc(self, st):
        """drop locals that are neither live nor reachable from live values"""
        roots = []
        live_objs = set()
        n = len(st.stack)
        for i, fr in enumerate(st.stack):
            if i == n - 1:
                bb = st.bb
                lv = fr.body.live_in[bb]
            else:
                cs = st.stack[i + 1].callsite
                bb = cs.target
                lv = fr.body.live_in[bb] if bb is not None else set()
                extra = {cs.dest[0]}
                lv = set(lv)
                for e in cs.dest[1]:
                    if isinstance(e, list) and e[0] == "I":
                        lv.add(e[1])
                if cs.dest[1]:
                    lv.add(cs.dest[0])
            for l in lv:
                o = ("l", fr.uid, l)
                if o in st.mem:
                    live_objs.add(o)
            if fr.kdata is not None:
                roots.append(fr.kdata)
        for o in st.mem:
            if o[0] not in ("l", "env"):
                live_objs.add(o)
        work = [st.mem[o] for o in live_objs] + roots
        while work:
            v = work.pop()
            if not isinstance(v, tuple):
                continue
            if v and v[0] == "R" and len(v) == 3:
                o = v[1]
                if o in st.mem and o not in live_objs:
                    live_objs.add(o)
                    work.append(st.mem[o])
                continue
            for x in v:
                if isinstance(x, tuple):
                    work.append(x)
        st.mem = {o: v for o, v in st.mem.items() if o in live_objs}

    def signature(self, st):
        sig = []
        for o in sorted(st.mem, key=repr):
            self._sig(st, st.mem[o], (o,), sig, 0)
        return tuple(sig)

    def _sig(self, st, v, at, sig, d):
        if v is True or v is False:
            sig.append((at, v))
        elif isinstance(v, tuple) and v:
            if v[0] == "A":
                t = self.ty(v[1]) if v[1] is not None else None
                if v[2] != 0 or (t is None) or t.get("ak") == "enum":
                    sig.append((at, v[2], len(v[3])))
                if d < 6:
                    for i, x in enumerate(v[3]):
                        self._sig(st, x, at + (i,), sig, d + 1)
            elif v[0] == "X":
                sig.append((at, v[1]))
                if d < 6:
                    for i, x in enumerate(v[2]):
                        self._sig(st, x, at + (i,), sig, d + 1)
            elif v[0] == "T" and v[1] in st.var:
                sig.append((at, "v", st.var[v[1]]))
            elif v[0] == "V" and self.opts.get("lists"):
                # lists of sequences with different numbers of elements are kept apart
                n = sum(len(s[2]) for s in v[2] if s[1] == "v" and s[2] and isinstance(s[2][0], tuple) and s[2][0][0] in ("V", "Y"))
                sig.append((at, min(n, 8)))

    def straight(self, st):
        """does the coming iteration return to this head without any decision, or leave the loop for sure?"""
        if st.bb not in st.stack[-1].body.heads:
            return False
        k = ("straight", tuple(f.uid for f in st.stack), st.bb)
        n = st.cnt.get(k, 0)
        if n >= 70:
            return False
        self.dry = [k[1:], 0, 0]
        sp = self.cursp
        try:
            self.block(st.fork())
            return False
        except Dry as e:
            ok = e.args[0]
        except (Imprecise, Infeasible):
            ok = False
        finally:
            self.dry = None
            self.cursp = sp
        st.cnt[k] = n + 1 if ok else 0
        return ok

    def loop_head(self, st):
        for h in self.opts.get("at_head", ()):
            h(st)
        self.gc(st)
        if self.straight(st):
            # loops with a known number of rounds are followed round by round
            st.tr = (st.tr, Ev("loop", {"head": st.bb}, self.here(st), st.stack[-1].body.name, ()))
            return st
        frames = tuple((f.uid, f.kdata if f.kont else None) for f in st.stack)
        key = (frames, st.bb, self.signature(st), st.mon)
        k = ("entry", frames, st.bb)
        body = st.stack[-1].body
        if st.bb in body.heads:
            # the first ways into a loop are kept apart
            if st.cnt.get(("at", st.stack[-1].uid)) not in body.loops[st.bb]:
                n = self.entries[key] = self.entries.get(key, 0) + 1
                st.cnt[k] = min(n, ENTRIES)
            key += (st.cnt.get(k),)
        if self.opts.get("unroll"):
            # the first passes are kept apart
            k = ("pass", frames, st.bb)
            n = st.cnt[k] = st.cnt.get(k, 0) + 1
            if n <= self.opts["unroll"]:
                st.tr = (st.tr, Ev("loop", {"head": key[1]}, self.here(st), st.stack[-1].body.name, ()))
                return st
        H = self.heads.get(key)
        if H is None:
            self.heads[key] = {"S": self.snapshot(st), "phi": {}, "n": 0}
            st.tr = (st.tr, Ev("loop", {"head": key[1]}, self.here(st), st.stack[-1].body.name, ()))
            return st
        new = self.join(H, st, key)
        if new is None:
            return None
        self.joins += 1
        H["n"] += 1
        if H["n"] > 40:
            raise Imprecise(f"no fixpoint at loop in {st.stack[-1].body.name}")
        H["S"] = self.snapshot(new)
        new.tr = (st.tr, Ev("loop", {"head": key[1]}, self.here(st), st.stack[-1].body.name, ()))
        return new

    def snapshot(self, st):
        return st.fork()

    def join(self, H, A, key, again=0):
        """None if A is covered by the stored state; else the generalised state"""
        S = H["S"]
        hid = H.get("id")
        if hid is None:
            self.nheads = getattr(self, "nheads", 0) + 1
            hid = H["id"] = self.nheads
        phi = H["phi"]        # loc -> ("int", Sym) | ("term", Term, ty)
        ms, mt = {}, {}
        # 1. mapping of existing phis to A's values
        tails = []
        for loc, p in phi.items():
            if p[0] == "tail":
                tails.append((loc, p))
                continue
            v = self.peek(A, loc)
            if p[0] == "int":
                ms[p[1]] = v if isinstance(v, Lin) else lin(p[1])
            else:
                mt[p[1]] = p[1] if v is None else v if isinstance(v, Term) else valterm(v)
        sub = Subst(ms, mt)
        for loc, p in tails:
            mt[p[1]] = self.collapse(S, A, loc, sub) or p[1]
        if tails:
            for loc, p in phi.items():
                if p[0] == "int":
                    v = self.peek(A, loc)
                    ms[p[1]] = v if isinstance(v, Lin) else lin(p[1])
            sub = Subst(ms, mt)
        mism = []
        # lazily created objects hold their initial value where absent
        for o in set(S.mem) ^ set(A.mem):
            if o[0] in ("spos", "gh"):
                (A if o in S.mem else S).mem[o] = ZERO
            elif o[0] == "d" and o[1] in self.dty:
                x = S if o in S.mem else A
                init = self.deref_init(o[1])
                if x.mem[o] != init:
                    (A if x is S else S).mem[o] = init
                else:
                    del x.mem[o]
        allobjs = set(S.mem) & set(A.mem)
        scan = [o for o in (set(S.mem) ^ set(A.mem)) if o[0] == "scan"]
        for o in scan:
            if o in S.mem:
                lo = S.mem[o][3][0]
                A.mem[o] = ("A", None, 0, (sub.lin(lo), sub.lin(lo)))
            else:
                lo = A.mem[o][3][0]
                if any_syms(lo) & set(A.E.fresh_since(S)):
                    continue
                S.mem[o] = ("A", None, 0, (lo, lo))
            allobjs.add(o)
        dropped = set(S.mem) - allobjs
        self._reshaped = False
        for o in sorted(allobjs, key=repr):
            self.cmp(S, A, S.mem[o], A.mem[o], (o,), sub, mism)
        if self._reshaped and again < 3:
            # sequences were split differently: where the phis live has changed
            return self.join(H, A, key, again + 1)
        facts_keep = []
        facts_drop = 0
        lost = []
        for f in S.facts:
            if A.entails(sub.lin(f)):
                facts_keep.append(f)
            else:
                facts_drop += 1
                lost.append(f)
                g = norm(-f)
                if g in S.facts:
                    lost.append(g)
                w = self.weaken(H, f, S, A, sub)
                if w is not None:
                    facts_keep.append(w)
        ne_keep = set()
        for f in S.ne:
            g = sub.lin(f)
            if A.decidec(("ne", g)) is True:
                ne_keep.add(f)
            else:
                facts_drop += 1
        var_keep, bt_keep, nvar_keep = {}, {}, {}
        for t, v in S.var.items():
            if A.var.get(sub.term(t)) == v:
                var_keep[t] = v
            else:
                facts_drop += 1
        for t, v in S.nvar.items():
            w = A.nvar.get(sub.term(t), frozenset()) & v
            av = A.var.get(sub.term(t))
            if av is not None:
                w = frozenset(x for x in v if x != av)
            if w:
                nvar_keep[t] = w
            if w != v:
                facts_drop += 1
        for t, v in S.bt.items():
            if A.bt.get(sub.term(t)) == v:
                bt_keep[t] = v
            else:
                facts_drop += 1
        if not mism and not facts_drop and not dropped:
            return None
        N = S.fork()
        N.facts = set(facts_keep)
        N.ne = ne_keep
        N.var = var_keep
        N.nvar = nvar_keep
        N.bt = bt_keep
        for o in dropped:
            N.mem.pop(o, None)
        # 2. new phis
        share = {}
        newints = []
        for loc, kind, sv, av, ty in mism:
            if kind == "int":
                k2 = (sv, av)
                p = share.get(k2)
                if p is None:
                    p = sym(self.phiname(H, loc), None, None)
                    share[k2] = p
                    newints.append((p, sv, av))
                phi[loc] = ("int", p)
                self.poke(N, loc, lin(p))
            elif kind == "term":
                p = self.phiname(H, loc)
                v = self.phival(N, p, sv, ty)
                phi[loc] = ("term", p, ty)
                self.poke(N, loc, v)
            elif kind == "rterm":
                p = self.phiname(H, loc)
                self.poke(N, loc, p)
                phi[loc] = ("tail" if loc[-1][2] == 2 and isinstance(sv, Term) and sv.op == "tail" else "term", p, None)
            elif kind == "bool":
                p = self.phiname(H, loc)
                self.poke(N, loc, ("?", ("b", p)))
                phi[loc] = ("term", p, ty)
        # 3. constraints relating the new phis
        if newints:
            self.candidates(S, A, N, newints, phi, sub)
            self.extend(S, A, N, newints, lost, sub)
        for par in {m[0][:-1] for m in mism if m[1] == "int" and isinstance(m[0][-1], tuple) and m[0][-1][0] == "seg"}:
            # the total length of a sequence whose parts moved
            xs, xa, xn = self.peek(S, par), self.peek(A, par), self.peek(N, par)
            if all(isinstance(x, tuple) and x[0] in ("Y", "V") for x in (xs, xa, xn)):
                ts, tn = seglen(xs[2]), seglen(xn[2])
                if ts is not tn and A.eq(sub.lin(ts), seglen(xa[2])):
                    N.facts.add(norm(tn - ts))
                    N.facts.add(norm(ts - tn))
        if self.opts.get("trace_join"):
            print("JOIN", self.here(A), A.stack[-1].body.name, "mism", [(m[0], m[1], m[2], m[3]) for m in mism], "drop", facts_drop, dropped, file=sys.stderr)
            print("   facts", sorted(map(str, N.facts)), file=sys.stderr)
        return N

    def collapse(self, S, A, loc, sub):
        """make A's sequence end in one opaque segment where S's does"""
        sv = self.peek(S, loc[:-1])
        av = self.peek(A, loc[:-1])
        if not isinstance(sv, tuple) or not isinstance(av, tuple) or sv[0] not in ("Y", "V") or av[0] not in ("Y", "V"):
            return None
        k = loc[-1][1]
        if len(sv[2]) != k + 1:
            return None
        pre = ZERO
        for seg in sv[2][:k]:
            pre = pre + sub.lin(seg[0])
        total = seglen(av[2])
        if not A.le(pre, total):
            return None
        head = self.sub(A, av[2], ZERO, pre)
        tail = self.sub(A, av[2], pre, total - pre)
        t = T("tail", bterm(tail))
        self._setloc(A, loc[:-1], (av[0], av[1], tuple(head) + (tseg(total - pre, t),)))
        return t

    def phiname(self, H, loc):
        """a name no other place of this loop uses (places can share a variable)"""
        used = {q[1].term if isinstance(q[1], Sym) else q[1] for l, q in H["phi"].items() if l != loc}
        t, k = T("phi", H["id"], loc), 0
        while t in used:
            k += 1
            t = T("phi", H["id"], loc, k)
        return t

    def weaken(self, H, f, S, A, sub):
        """widening: a bound on loop variables that grew is loosened to what holds now,
        a few times before it is given up"""
        own = {p[1] for p in H["phi"].values() if p[0] == "int"}
        if not f.t or any(s not in own for s, _ in f.t) and not (len(f.t) == 1 and f.t[0][0].term.op == "phi"):
            return None
        k = H.setdefault("wide", {})
        g = norm(f - f.c)
        if k.get(g, 0) >= 6:
            return None
        k[g] = k.get(g, 0) + 1
        c = lower_bound(A.facts, sub.lin(g))
        if c is None or abs(c) >= 2 ** 62:
            return None
        c = min(c, -f.c)
        if k[g] > 2 and c < 0:
            up = [t for t in (4110, 2 ** 13, 2 ** 17, 2 ** 25, 2 ** 40) if t >= -c]
            if not up:
                return None
            c = -up[0]
        return norm(g - c)

    def extend(self, S, A, N, newints, lost, sub):
        """a relation that no longer holds may hold of one more variable: what that
        variable has moved by"""
        ds = [(lin(p) - sv, av - sub.lin(sv), sv) for p, sv, av in newints]
        for i, (ei, di, si) in enumerate(ds):
            for ej, dj, sj in ds[:i]:
                if not si.t and not sj.t:
                    continue        # the plain differences cover it
                for sg in (1, -1):
                    d = di - dj * sg
                    if d is ZERO or not d.t and d.c == 0 or A.eq(d, ZERO):
                        e = ei - ej * sg
                        N.facts.add(norm(e))
                        N.facts.add(norm(-e))
        n = 0
        for f in lost:
            if len(f.t) < 2 or not any(s.term.op == "phi" for s, _ in f.t):
                continue
            g = sub.lin(f)
            for p, sv, av in newints:
                d = av - sub.lin(sv)
                for sg in (1, -1):
                    n += 1
                    if n > 400:
                        return
                    if A.entails(norm(g + d * sg)):
                        N.facts.add(norm(f + (lin(p) - sv) * sg))

    def fresh_since(self, S):
        return ()

    def candidates(self, S, A, N, newints, phi, sub):
        done = {p for p, _, _ in newints}
        # reference expressions: zero, other phis, loop-invariant symbols appearing in facts
        refs = [(ZERO, ZERO, ZERO)]
        for p, s, a in newints:
            refs.append((lin(p), s, a))
        for loc, q in phi.items():
            if q[0] == "int" and q[1] not in done:
                v = sub.m.get(q[1])
                if v is not None:
                    refs.append((lin(q[1]), lin(q[1]), v))
        inv = set()
        for _, s, a in newints:
            for st_ in (S, A):
                pass
        pos = set()
        for f in list(S.facts) + list(A.facts):
            for y, _ in f.t:
                pos.add(y)
        for _, s, a in newints:
            for y in list(any_syms(s)) + list(any_syms(a)):
                pos.add(y)
        phis = {q[1] for q in phi.values() if q[0] == "int"}
        n = 0
        for y in sorted(pos, key=lambda z: z.id):
            if y in phis or y in done:
                continue
            if any_syms(y) & (phis | done):
                continue
            if y.term.op in ("new", "elem", "rem", "div") and not self._in_mem(S, y):
                continue
            n += 1
            if n > 24:
                break
            refs.append((lin(y), lin(y), lin(y)))
        seen = set()
        compS, compA = components(S.facts), components(A.facts)
        for p, s, a in newints:
            P = lin(p)
            for R, rs, ra in refs:
                if R is P:
                    continue
                if R.t and (unrelated(compS, s, rs) or unrelated(compA, a, ra)):
                    continue
                for sg in (1, -1):
                    pairs = [(P * sg - R * sg, s * sg - rs * sg, a * sg - ra * sg)]
                    if R.t:
                        pairs.append((P * sg + R * sg, s * sg + rs * sg, a * sg + ra * sg))
                    for E, es, ea in pairs:
                        if E in seen:
                            continue
                        seen.add(E)
                        c1 = lower_bound(S.facts, es)
                        if c1 is None:
                            continue
                        c2 = lower_bound(A.facts, ea)
                        if c2 is None:
                            continue
                        c = min(c1, c2)
                        if c <= -(2 ** 62) or abs(c) >= 2 ** 62:
                            continue
                        f = norm(E - c)
                        N.facts.add(f)
        N.facts = prune(N.facts)
        # equalities between differences of several new phis (a-b constant) are
        # covered by the two inequalities above

    def _in_mem(self, S, y):
        c = getattr(S, "_ms", None)
        return any(y in any_syms(v) for v in S.mem.values())

    def phival(self, st, p, old, ty):
        if isinstance(old, tuple):
            if old[0] in ("Y",):
                return old
            if old[0] == "T":
                return ("T", p, old[2] if old[2] is not None else ty)
            if old[0] == "R" and ty is not None:
                return self.mkval(p, ty)
            if old[0] == "A" and ty is None:
                return ("T", p, old[1])
        return self.mkval(p, ty) if ty is not None else ("T", p, None)

    def peek(self, st, loc):
        v = st.mem.get(loc[0])
        for s in loc[1:]:
            if v is None or isinstance(v, (Lin, bool)):
                return None
            if isinstance(s, int):
                if v[0] == "A" and s < len(v[3]):
                    v = v[3][s]
                elif v[0] == "X" and s < len(v[2]):
                    v = v[2][s]
                else:
                    return None
            elif s[0] == "seg":
                if v[0] not in ("Y", "V") or s[1] >= len(v[2]):
                    return None
                seg = v[2][s[1]]
                v = seg[s[2]]
                if s[2] == 2 and seg[1] == "v":
                    v = seg[2][s[3]]
            elif s[0] == "path":
                if v[0] != "R" or s[1] >= len(v[2]):
                    return None
                v = v[2][s[1]][s[2]]
        return v

    def poke(self, st, loc, new):
        st.mem[loc[0]] = self._poke(st.mem[loc[0]], loc[1:], new)

    def _poke(self, v, path, new):
        if not path:
            return new
        s = path[0]
        if isinstance(s, int):
            i = 3 if v[0] == "A" else 2
            fs = list(v[i])
            fs[s] = self._poke(fs[s], path[1:], new)
            return v[:i] + (tuple(fs),)
        if s[0] == "seg":
            segs = list(v[2])
            seg = list(segs[s[1]])
            if s[2] == 2 and seg[1] == "v":
                vs = list(seg[2])
                vs[s[3]] = self._poke(vs[s[3]], path[1:], new)
                seg[2] = tuple(vs)
            else:
                seg[s[2]] = new
            segs[s[1]] = tuple(seg)
            return (v[0], v[1], tuple(segs))
        if s[0] == "path":
            p = list(v[2])
            q = list(p[s[1]])
            q[s[2]] = new
            p[s[1]] = tuple(q)
            return ("R", v[1], tuple(p))
        raise KeyError(s)

    def cmp(self, S, A, vs, va, loc, sub, out, ty=None):
        """structural comparison; records the places that differ"""
        if vs is va:
            if not sub.touches(vs):
                return
        if vs is None or va is None:
            if vs is None and va is None:
                return
            out.append((loc, "term", vs if vs is not None else va, va, ty))
            return
        if isinstance(vs, Lin) and isinstance(va, Lin):
            e = sub.lin(vs)
            if e is va or A.eq(e, va):
                return
            out.append((loc, "int", vs, va, ty))
            return
        if isinstance(vs, bool) or isinstance(va, bool) or isinstance(vs, Lin) or isinstance(va, Lin):
            if vs == va:
                return
            out.append((loc, "bool" if not isinstance(vs, Lin) and not isinstance(va, Lin) else "term", vs, va, ty))
            return
        ks, ka = vs[0], va[0]
        if ks == "?" or ka == "?":
            if sub.any(vs) == va:
                return
            out.append((loc, "bool", vs, va, ty))
            return
        if ks == ka:
            if ks == "A":
                if vs[2] == va[2] and len(vs[3]) == len(va[3]):
                    for i, (x, y) in enumerate(zip(vs[3], va[3])):
                        self.cmp(S, A, x, y, loc + (i,), sub, out)
                    return
                out.append((loc, "term", vs, va, vs[1] if vs[1] is not None else va[1]))
                return
            if ks == "X":
                if vs[1] == va[1] and len(vs[2]) == len(va[2]):
                    for i, (x, y) in enumerate(zip(vs[2], va[2])):
                        if isinstance(x, (Lin, tuple)) or isinstance(y, (Lin, tuple)):
                            self.cmp(S, A, x, y, loc + (i,), sub, out)
                        elif isinstance(x, Term):
                            if sub.term(x) is not y:
                                out.append((loc + (i,), "term", x, y, None))
                        elif x != y:
                            out.append((loc, "term", vs, va, None))
                    return
                out.append((loc, "term", vs, va, None))
                return
            if ks == "T":
                if sub.term(vs[1]) is va[1]:
                    return
                out.append((loc, "term", vs, va, vs[2]))
                return
            if ks == "R":
                if sub.any(vs[1]) == va[1] and len(vs[2]) == len(va[2]):
                    okk = True
                    pend = []
                    for i, (x, y) in enumerate(zip(vs[2], va[2])):
                        if isinstance(x, int) or isinstance(y, int) or x[0] != y[0]:
                            okk = okk and x == y
                            continue
                        for j in range(1, len(x)):
                            if isinstance(x[j], Lin):
                                e = sub.lin(x[j])
                                if not (e is y[j] or A.eq(e, y[j])):
                                    pend.append((loc + (("path", i, j),), "int", x[j], y[j], None))
                            elif x[j] != y[j]:
                                okk = False
                    if okk:
                        out.extend(pend)
                        return
                out.append((loc, "term", vs, va, self.refty(S, vs)))
                return
            if ks in ("Y", "V"):
                if sub.any(vs)[2] == va[2]:
                    return
                m = self.merge(A, va[2])
                if m != va[2]:
                    va = (va[0], va[1], m)
                    self._setloc(A, loc, va)
                    self._reshaped = True
                a, b = vs[2], va[2]
                if len(a) == len(b) and all(self._segcompat(x, y, sub) for x, y in zip(a, b)):
                    for i, (x, y) in enumerate(zip(a, b)):
                        e = sub.lin(x[0])
                        if not (e is y[0] or A.eq(e, y[0])):
                            out.append((loc + (("seg", i, 0),), "int", x[0], y[0], None))
                        if x[1] == "t" and not (sub.lin(x[3]) is y[3]):
                            if not A.eq(sub.lin(x[3]), y[3]):
                                out.append((loc + (("seg", i, 3),), "int", x[3], y[3], None))
                        if x[1] == "v":
                            for j, (p, q) in enumerate(zip(x[2], y[2])):
                                self.cmp(S, A, p, q, loc + (("seg", i, 2, j),), sub, out)
                    return
                al = self.align_gap(S, A, a, b, sub)
                if al is not None:
                    S2, A2 = (vs[0], vs[1], al[0]), (va[0], va[1], al[1])
                    if S2 != vs or A2 != va:
                        self._reshaped = True
                    self._setloc(S, loc, S2)
                    self._setloc(A, loc, A2)
                    for i, (x, y) in enumerate(zip(*al)):
                        if not A.eq(sub.lin(x[0]), y[0]):
                            out.append((loc + (("seg", i, 0),), "int", x[0], y[0], None))
                        if x[1] == "t" and not A.eq(sub.lin(x[3]), y[3]):
                            out.append((loc + (("seg", i, 3),), "int", x[3], y[3], None))
                    return
                # common prefix kept, the rest becomes an opaque tail
                S2, A2 = self.align(S, A, vs, va, sub)
                if S2 is not None:
                    # rewrite both states' values in place and compare again
                    self._setloc(S, loc, S2)
                    self._setloc(A, loc, A2)
                    x, y = S2[2], A2[2]
                    for i, (p, q) in enumerate(zip(x, y)):
                        e = sub.lin(p[0])
                        if not (e is q[0] or A.eq(e, q[0])):
                            out.append((loc + (("seg", i, 0),), "int", p[0], q[0], None))
                        if p[1] == "t" and (sub.term(p[2]) is not q[2] or sub.lin(p[3]) is not q[3]):
                            out.append((loc + (("seg", i, 2),), "rawterm", p[2], q[2], None))
                    self._fix_rawterms(S, loc, out)
                    return
                out.append((loc, "term", vs, va, ty))
                return
            if sub.any(vs) == va:
                return
        out.append((loc, "term", vs, va, ty))

    def _segcompat(self, x, y, sub):
        if x[1] != y[1]:
            return False
        if x[1] == "c":
            return x[2] == y[2]
        if x[1] == "v":
            return len(x[2]) == len(y[2])
        if x[1] == "t":
            return sub.term(x[2]) is y[2]
        return sub.any(x[2]) == y[2]

    def align_gap(self, S, A, a, b, sub):
        """match two segment lists, a segment of one being empty in the other"""
        def uni(x):
            """value of a uniform run of bytes"""
            if x[1] == "c" and len(set(x[2])) == 1:
                return mk(x[2][0])
            if x[1] == "f" and isinstance(x[2], Lin) and x[2].is_const():
                return x[2]
            return None

        def at_stream(X, x, Y, pad):
            """bytes that end at a stream's position in one state: an empty piece of them
            in the other is at the position there"""
            if x[1] == "t" and x[2].op == "strm":
                o = ("spos", x[2].args[0])
                if o in X.mem and o in Y.mem and X.eq(x[3] + x[0], X.mem[o]):
                    return pad[:3] + (Y.mem[o],)
            return pad

        def compat(x, y):
            if uni(x) is not None and uni(x) is uni(y):
                return True
            return x[1] != "v" and self._segcompat(x, y, sub)
        n, m = len(a), len(b)
        if n > 4 or m > 4:
            return None
        best = {}

        def go(i, j):
            if (i, j) in best:
                return best[i, j]
            if i == n or j == m:
                r = (0, ())
            else:
                r = max(go(i + 1, j), go(i, j + 1), key=lambda z: z[0])
                if compat(a[i], b[j]):
                    g = go(i + 1, j + 1)
                    if g[0] + 1 > r[0]:
                        r = (g[0] + 1, ((i, j),) + g[1])
            best[i, j] = r
            return r
        k, pairs = go(0, 0)
        if k == 0 or n + m - k > 4:
            return None
        ra, rb = [], []
        i = j = 0
        for pi, pj in pairs + ((n, m),):
            for x in a[i:pi]:
                if x[1] not in ("t", "c", "f") or (x[1] == "c" and uni(x) is None):
                    return None
                y = (ZERO, "f", uni(x), None) if uni(x) is not None else at_stream(S, x, A, (ZERO,) + tuple(sub.any(x[1:])))
                ra.append((x[0], "f", uni(x), None) if uni(x) is not None else x)
                rb.append(y)
            for y in b[j:pj]:
                if y[1] not in ("t", "c", "f") or (y[1] == "c" and uni(y) is None):
                    return None
                if y[1] == "t" and not (local_names(y[2]) | local_names(y[3])) <= local_names(tuple(S.mem.values())):
                    return None
                if uni(y) is not None:
                    y = (y[0], "f", uni(y), None)
                ra.append(at_stream(A, y, S, (ZERO,) + tuple(y[1:])))
                rb.append(y)
            if pi < n:
                x, y = a[pi], b[pj]
                if uni(x) is not None:
                    x, y = (x[0], "f", uni(x), None), (y[0], "f", uni(y), None)
                ra.append(x)
                rb.append(y)
            i, j = pi + 1, pj + 1
        return tuple(ra), tuple(rb)

    def align(self, S, A, vs, va, sub):
        """generalise two differing sequences: keep the common prefix of equal
        segments; everything after it is one opaque segment"""
        a, b = list(vs[2]), list(va[2])
        pre = 0
        while pre < len(a) and pre < len(b) and self._segcompat(a[pre], b[pre], sub) and \
                (sub.lin(a[pre][0]) is b[pre][0]) and (a[pre][1] not in ("t", "g") or sub.lin(a[pre][3]) is b[pre][3]) and a[pre][1] != "v":
            pre += 1
        ra, rb = a[pre:], b[pre:]
        la, lb = seglen(ra), seglen(rb)
        ta = T("tail", bterm(ra))
        tb = T("tail", bterm(rb))
        na = (vs[0], vs[1], tuple(a[:pre]) + (tseg(la, ta),))
        nb = (va[0], va[1], tuple(b[:pre]) + (tseg(lb, tb),))
        return na, nb

    def _setloc(self, st, loc, v):
        st.mem[loc[0]] = self._poke(st.mem[loc[0]], loc[1:], v)

    def _fix_rawterms(self, S, loc, out):
        for i, m in enumerate(out):
            if m[1] == "rawterm":
                out[i] = (m[0], "rterm", m[2], m[3], None)

    def refty(self, S, v):
        return None


class CallSite:
    __slots__ = ("dest", "target", "bb", "ty", "argtys", "outer", "fty")

    def __init__(self, dest, target, bb, ty, argtys):
        self.dest = dest
        self.target = target
        self.bb = bb
        self.ty = ty
        self.argtys = argtys
        self.outer = None
        self.fty = None


def _low_pow(l):
    """largest power of two dividing every coefficient"""
    g = 0
    from math import gcd
    for _, k in l.t:
        g = gcd(g, k)
    g = gcd(g, l.c)
    if g == 0:
        return 0
    return g & -g
