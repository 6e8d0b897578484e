"""Numeric domain: hash-consed terms, linear integer expressions, and a
conjunction-of-linear-inequalities domain (entailment by Fourier-Motzkin
projection with integer tightening).  No external solver is involved."""
from math import gcd

_terms = {}


class Term:
    """Hash-consed Herbrand term (value-numbering domain)."""
    __slots__ = ("op", "args", "id", "_s")

    def __repr__(self):
        return self.show()

    def show(self, d=4):
        if not self.args:
            return str(self.op)
        if d <= 0:
            return f"{self.op}(..)"
        return f"{self.op}({', '.join(_show(a, d - 1) for a in self.args)})"

    def __lt__(self, o):
        return self.id < o.id


def _show(a, d):
    if isinstance(a, Term):
        return a.show(d)
    if isinstance(a, tuple):
        if d <= 0:
            return "(..)"
        return "(" + ",".join(_show(x, d) for x in a) + ")"
    return str(a)


def T(op, *args):
    k = (op, args)
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_terms)
        t._s = None
        _terms[k] = t
    return t


_syms = {}


class Sym:
    """An integer-valued symbol, identified by the term that defines it."""
    __slots__ = ("term", "lo", "hi", "id")

    def __repr__(self):
        return self.term.show(3)

    def __lt__(self, o):
        return self.id < o.id


def sym(term, lo=None, hi=None):
    s = _syms.get(term)
    if s is None:
        s = Sym()
        s.term = term
        s.lo = lo
        s.hi = hi
        s.id = len(_syms)
        _syms[term] = s
    return s


_lins = {}


class Lin:
    """c + sum coef*sym, hash-consed."""
    __slots__ = ("c", "t", "id")

    def __repr__(self):
        if not self.t:
            return str(self.c)
        p = []
        for s, k in self.t:
            p.append(f"{'' if k == 1 else '-' if k == -1 else str(k) + '*'}{s}")
        if self.c:
            p.append(str(self.c))
        return "+".join(p).replace("+-", "-")

    def __add__(self, o):
        if isinstance(o, int):
            return mk(self.c + o, self.t)
        if not o.t:
            return mk(self.c + o.c, self.t)
        if not self.t:
            return mk(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            n = d.get(s, 0) + k
            if n:
                d[s] = n
            else:
                d.pop(s, None)
        return mk(self.c + o.c, tuple(sorted(d.items(), key=lambda x: x[0].id)))

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        if isinstance(o, int):
            return mk(self.c - o, self.t)
        return self + (o * -1)

    def __rsub__(self, o):
        return (self * -1) + o

    def __mul__(self, k):
        if k == 1:
            return self
        if k == 0:
            return mk(0, ())
        return mk(self.c * k, tuple((s, c * k) for s, c in self.t))

    __rmul__ = __mul__

    def is_const(self):
        return not self.t

    def subst(self, m):
        """m: dict Sym -> Lin"""
        r = mk(self.c, ())
        for s, k in self.t:
            r = r + (m[s] * k if s in m else mk(0, ((s, k),)))
        return r


def mk(c, t=()):
    k = (c, t)
    l = _lins.get(k)
    if l is None:
        l = Lin()
        l.c = c
        l.t = t
        l.id = len(_lins)
        _lins[k] = l
    return l


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return mk(x)
    if isinstance(x, Sym):
        return mk(0, ((x, 1),))
    raise TypeError(x)


def norm(e):
    """tighten e >= 0 by the gcd of the coefficients."""
    if not e.t:
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
    if g > 1:
        return mk(e.c // g, tuple((s, k // g) for s, k in e.t))
    return e


_defs_cache = {}


def sym_defs(s):
    """constraints implied by the definition of a symbol (lists of e >= 0)."""
    r = _defs_cache.get(s)
    if r is not None:
        return r
    r = []
    if s.lo is not None:
        r.append(lin(s) - s.lo)
    if s.hi is not None:
        r.append(s.hi - lin(s))
    t = s.term
    if t.op == "div" and isinstance(t.args[0], Lin) and isinstance(t.args[1], int):
        x, m = t.args
        r.append(x - lin(s) * m)
        r.append(lin(s) * m + (m - 1) - x)
    elif t.op == "rem" and isinstance(t.args[1], int):
        x, m = t.args
        q = sym(T("div", x, m), 0, None)
        # x = m*q + r
        r.append(x - lin(q) * m - lin(s))
        r.append(lin(q) * m + lin(s) - x)
    r = tuple(r)
    _defs_cache[s] = r
    return r


_unsat_cache = {}
FM_LIMIT = 260


def quick_min(e):
    """lower bound of e from the inherent symbol bounds; None = unbounded."""
    v = e.c
    for s, k in e.t:
        if k > 0:
            if s.lo is None:
                return None
            v += k * s.lo
        else:
            if s.hi is None:
                return None
            v += k * s.hi
    return v


_supp = {}


def support(f):
    """symbols of a constraint, including those its symbols are defined from"""
    r = _supp.get(f)
    if r is None:
        seen = set()
        work = [s for s, _ in f.t]
        while work:
            s = work.pop()
            if s in seen:
                continue
            seen.add(s)
            for d in sym_defs(s):
                for s2, _ in d.t:
                    if s2 not in seen:
                        work.append(s2)
        r = _supp[f] = frozenset(seen)
    return r


def relevant(facts, e):
    """constraints of facts sharing variables (transitively) with e."""
    need = {s for s, _ in e.t}
    todo = list(facts)
    out = []
    seen = set()
    changed = True
    while changed:
        changed = False
        for s in list(need):
            if s in seen:
                continue
            seen.add(s)
            changed = True
            for d in sym_defs(s):
                out.append(d)
                for s2, _ in d.t:
                    need.add(s2)
        rest = []
        for f in todo:
            if not need.isdisjoint(support(f)):
                out.append(f)
                for s, _ in f.t:
                    if s not in need:
                        need.add(s)
                        changed = True
            else:
                rest.append(f)
        todo = rest
    return out


def unsat(cons):
    """True if the conjunction of c >= 0 is provably unsatisfiable over Z."""
    cs = set()
    for c in cons:
        c = norm(c)
        if not c.t:
            if c.c < 0:
                return True
            continue
        cs.add(c)
    key = frozenset(cs)
    r = _unsat_cache.get(key)
    if r is None:
        r = _fm(cs, None)
        _unsat_cache[key] = r
    return r


def _dedupe(cs):
    best = {}
    for c in cs:
        if not c.t:
            if c.c < 0:
                return None
            continue
        b = best.get(c.t)
        if b is None or c.c < b:
            best[c.t] = c.c
    return {mk(c, t) for t, c in best.items()}


def _fm(cs, keep):
    """eliminate all variables except keep. Returns True (unsat), or, with
    keep, the set of remaining constraints."""
    cs = _dedupe(cs)
    if cs is None:
        return True
    while True:
        # equalities first
        neg = {}
        eqdone = False
        for c in cs:
            m = (c * -1)
            if m in cs:
                # c == 0; find unit coefficient var
                for s, k in c.t:
                    if abs(k) == 1 and s is not keep:
                        rest = mk(c.c, tuple(x for x in c.t if x[0] is not s))
                        val = rest * (-1 if k == 1 else 1)
                        new = set()
                        for d in cs:
                            if d is c or d is m:
                                continue
                            new.add(norm(d.subst({s: val})) if any(x[0] is s for x in d.t) else d)
                        new = _dedupe(new)
                        if new is None:
                            return True
                        cs = new
                        eqdone = True
                        break
            if eqdone:
                break
        if eqdone:
            continue
        pos = {}
        for c in cs:
            for s, k in c.t:
                if s is keep:
                    continue
                p = pos.setdefault(s, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not pos:
            break
        s = min(pos, key=lambda x: (pos[x][0] * pos[x][1] - pos[x][0] - pos[x][1], x.id))
        P, N, R = [], [], []
        for c in cs:
            k = 0
            for s2, k2 in c.t:
                if s2 is s:
                    k = k2
                    break
            (P if k > 0 else N if k < 0 else R).append((c, k))
        new = {c for c, _ in R}
        if len(P) * len(N) + len(new) > FM_LIMIT * 4:
            # give up on this variable's combination: drop (sound for unsat)
            pass
        else:
            for c, k in P:
                for d, m in N:
                    new.add(norm(c * (-m) + d * k))
        new = _dedupe(new)
        if new is None:
            return True
        if len(new) > FM_LIMIT:
            new = set(sorted(new, key=lambda c: (len(c.t), c.id))[:FM_LIMIT])
        cs = new
    if keep is not None:
        return cs
    return False


def entails(facts, e):
    """facts |= e >= 0"""
    if not e.t:
        return e.c >= 0
    m = quick_min(e)
    if m is not None and m >= 0:
        return True
    e = norm(e)
    if e in facts:
        return True
    neg = (e * -1) - 1
    cons = relevant(facts, neg)
    cons.append(neg)
    return unsat(cons)


def consistent(facts, e):
    """may facts and e >= 0 hold together?"""
    if not e.t:
        return e.c >= 0
    cons = relevant(facts, e)
    cons.append(e)
    return not unsat(cons)


def var_bounds(facts):
    b = {}
    for f in facts:
        if len(f.t) == 1:
            s, k = f.t[0]
            lo, hi = b.get(s, (None, None))
            if k > 0:
                v = -(f.c // k)
                lo = v if lo is None or v > lo else lo
            else:
                v = f.c // -k
                hi = v if hi is None or v < hi else hi
            b[s] = (lo, hi)
    return b


def box_min(b, e):
    r = e.c
    for s, k in e.t:
        lo, hi = b.get(s, (None, None))
        v = lo if k > 0 else hi
        if v is None:
            return None
        r += k * v
    return r


def prune(facts):
    """facts without those implied by single-variable bounds alone"""
    b = var_bounds(facts)
    out = set()
    for f in facts:
        if len(f.t) > 1:
            m = box_min(b, f)
            if m is not None and m >= 0:
                continue
        out.add(f)
    return out


_keepsym = None


def lower_bound(facts, e):
    """greatest provable integer lower bound of e, or None."""
    if not e.t:
        return e.c
    global _keepsym
    if _keepsym is None:
        _keepsym = sym(T("__obj"))
    k = _keepsym
    cons = relevant(facts, e)
    d = lin(k) - e
    cons = set(norm(c) for c in cons)
    cons.add(d)
    cons.add(d * -1)
    r = _fm(cons, k)
    if r is True:
        return None
    best = None
    for c in r:
        if len(c.t) == 1 and c.t[0][0] is k and c.t[0][1] > 0:
            b = -(c.c // c.t[0][1])
            # k*coef + c >= 0 -> k >= ceil(-c/coef)
            b = -((c.c) // c.t[0][1])
            if best is None or b > best:
                best = b
    m = quick_min(e)
    if m is not None and (best is None or m > best):
        best = m
    return best
