"""Contract models of everything that is called but not part of the repository
(core/alloc collections and iterators, the cipher and curve crates, I/O traits,
tokio, threads).  A model states what the callee guarantees, as effects on
abstract values; nothing is executed."""
from terms import T, Lin, lin, mk, sym
from engine import (UNIT, NONE, PUSHED, ZERO, ONE, ISIZE_MAX, Imprecise, Infeasible, Frame, CallSite, bterm, const_seg,
                    mkb, neg, norm_segs, ok, err, ready, PENDING, seglen, some, tseg, tup, valterm, bnot, any_syms, Subst)

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


# ------------------------------------------------------------------ helpers
def alloc_limit(E, st, n, what):
    st.ev("alloc", n=n, what=what)


def ret_ty(E, cs):
    return cs.ty


def targ(E, cs, i=0):
    """i-th type argument of the result type"""
    if cs.ty is None:
        return None
    t = E.ty(cs.ty)
    a = t.get("args") or t.get("e")
    return a[i] if isinstance(a, list) and len(a) > i else None


def A(E, cs, variant, *fields):
    return ("A", cs.ty if cs.ty is not None and E.ty(cs.ty)["k"] == "adt" else None, variant, tuple(fields))


def chk(E, st, v, why, **info):
    """states in which the boolean value holds; the others end in a panic"""
    out = []
    for b, s in st.branch(v):
        if b:
            out.append(s)
        else:
            s.ev("panic", why=why, **info)
            E.end(s, "panic", why)
    return out


def fork(E, st, v):
    """[(bool, state)]"""
    return st.branch(v)


def auto(E, st, v):
    """location of the object a (possibly nested) reference designates"""
    n = 0
    while True:
        obj, path = E.deref(st, v)
        x = E.read(st, (obj, path))
        if x is not None and isinstance(x, tuple) and x[0] == "R" and n < 4 and not (path and isinstance(path[-1], tuple) and path[-1][0] == "s"):
            v = x
            n += 1
            continue
        return obj, path


def seqloc(E, st, v):
    """(loc, length) of the sequence designated by a slice/array/Vec ref"""
    if v[0] in ("Y", "V"):
        o = ("kv", v)
        return (o, ()), seglen(v[2])
    if v[0] == "X" and v[1] == "siter":
        r, lo, hi = v[2]
        return (r[1], E._slice(r[2], lo, hi - lo)), hi - lo
    if v[0] == "X" and v[1] in ("arc", "guard"):
        return seqloc(E, st, v[2][0])
    loc = auto(E, st, v)
    return loc, E.length(st, loc)


def segs_of(E, st, v):
    loc, n = seqloc(E, st, v)
    x = E.read(st, loc)
    if x[0] in ("Y", "V"):
        return x[2]
    if x[0] == "T":
        return (tseg(n, x[1]),)
    raise Imprecise(f"sequence expected, got {x[0]}")


def slice_ref(E, loc, off, n):
    return ("R", loc[0], E._slice(loc[1], off, n))


def whole(E, st, v):
    """slice reference covering the designated sequence"""
    loc, n = seqloc(E, st, v)
    if loc[1] and isinstance(loc[1][-1], tuple) and loc[1][-1][0] == "s":
        return ("R", loc[0], loc[1])
    return ("R", loc[0], loc[1] + (("s", ZERO, n),))


def ety_of(E, st, v):
    try:
        x = E.read(st, seqloc(E, st, v)[0])
        return x[1] if x[0] in ("Y", "V") else None
    except (Imprecise, Infeasible):
        return None


def write_seq(E, st, v, segs):
    loc, n = seqloc(E, st, v)
    x = E.read(st, loc)
    E.write(st, loc, (x[0] if x[0] in ("Y", "V") else "Y", x[1] if x[0] in ("Y", "V") else None, norm_segs(segs)))


def content(E, st, v):
    return bterm(segs_of(E, st, v))


def fresh_bytes(E, st, n, hint):
    t = st.fresh(E.site(st), hint)
    return (tseg(n, t),), t


def optval(E, st, v):
    """(variant, payload) of an Option/Result, forking when unknown:
    [(variant, payload|None, state)]"""
    out = []
    if v[0] == "A":
        return [(v[2], v[3][0] if v[3] else None, st)]
    if v[0] == "T":
        i = st.var.get(v[1])
        cands = [i] if i is not None else range(len(E.vdefs(v[2])))
        for j in cands:
            s = st.fork()
            try:
                s.set_var(v[1], j)
            except Infeasible:
                continue
            x = E.expand(v, j)
            out.append((j, x[3][0] if x[3] else None, s))
        return out
    raise Imprecise("enum expected")


def ioerr(E, st, cs, ty=None, hint="ioerr"):
    t = st.fresh(E.site(st), hint)
    return ("T", t, ty)


def errty(E, cs):
    """error type of a Result-returning call"""
    return targ(E, cs, 1)


# ------------------------------------------------------------ sequences
@model("alloc::Vec::len", "core::slice::len", "core::str::len", "alloc::VecDeque::len", "alloc::String::len", "core::array::len")
def m_len(E, st, avs, cs, ft):
    return seqloc(E, st, avs[0])[1]


@model("alloc::Vec::is_empty", "core::slice::is_empty", "core::str::is_empty")
def m_is_empty(E, st, avs, cs, ft):
    return mkb(("eq", seqloc(E, st, avs[0])[1]))


@model("alloc::Vec::capacity")
def m_capacity(E, st, avs, cs, ft):
    n = seqloc(E, st, avs[0])[1]
    c = lin(sym(st.fresh(E.site(st), "cap"), 0, ISIZE_MAX))
    st.assume(("ge", c - n))
    return c


@model("alloc::vec::from_elem")
def m_from_elem(E, st, avs, cs, ft):
    n = E.asint(st, avs[1])
    alloc_limit(E, st, n, "vec![x; n]")
    return ("V", targ(E, cs), norm_segs(((n, "f", avs[0], None),)))


@model("core::slice::repeat", "alloc::slice::repeat", "alloc::str::repeat")
def m_repeat(E, st, avs, cs, ft):
    segs = segs_of(E, st, avs[0])
    n = E.asint(st, avs[1])
    k = seglen(segs)
    if k.t or k.c not in (0, 1):
        raise Imprecise("repetition of more than one element")
    alloc_limit(E, st, n * k.c, "repeat")
    if k.c == 0:
        return ("V", targ(E, cs), ())
    return ("V", targ(E, cs), norm_segs(((n, "f", E.elem(st, ("Y", None, segs), ZERO), None),)))


@model("alloc::Vec::new")
def m_vec_new(E, st, avs, cs, ft):
    return ("V", targ(E, cs), ())


@model("alloc::Vec::with_capacity")
def m_vec_cap(E, st, avs, cs, ft):
    alloc_limit(E, st, E.asint(st, avs[0]), "Vec::with_capacity")
    return ("V", targ(E, cs), ())


@model("alloc::Vec::reserve", "alloc::Vec::reserve_exact")
def m_reserve(E, st, avs, cs, ft):
    n = seqloc(E, st, avs[0])[1]
    alloc_limit(E, st, n + E.asint(st, avs[1]), "Vec::reserve")
    return UNIT


@model("alloc::Vec::shrink_to_fit", "alloc::Vec::shrink_to")
def m_shrink(E, st, avs, cs, ft):
    return UNIT


def grow(E, st, vec, segs, what):
    loc, n = seqloc(E, st, vec)
    x = E.read(st, loc)
    if x[0] == "T":
        x = ("V", None, (tseg(n, x[1]),))
    new = norm_segs(tuple(x[2]) + tuple(segs))
    m = seglen(new)
    refs = x[1] is not None and E.ty(x[1])["k"] == "ref" or any(y[1] == "v" and isinstance(y[2][0], tuple) and y[2][0][0] == "R" for y in segs)
    st.ev("grow", n=m, what=what, refs=refs)
    E.write(st, loc, (x[0], x[1], new))


@model("alloc::Vec::extend_from_slice")
def m_extend(E, st, avs, cs, ft):
    grow(E, st, avs[0], segs_of(E, st, avs[1]), "extend_from_slice")
    return UNIT


@model("alloc::Vec::append")
def m_append(E, st, avs, cs, ft):
    s = segs_of(E, st, avs[1])
    grow(E, st, avs[0], s, "append")
    write_seq(E, st, avs[1], ())
    return UNIT


@model("alloc::Vec::push")
def m_push(E, st, avs, cs, ft):
    grow(E, st, avs[0], ((ONE, "v", (avs[1],), None),), "push")
    return UNIT


def iter_segs(E, st, it):
    """the items of an iterator that merely passes on parts of sequences, else None"""
    if not isinstance(it, tuple) or it[0] != "X":
        return None
    k, f = it[1], it[2]
    if k == "viter":
        return tuple(E.sub(st, f[0][2], f[1], f[2] - f[1]))
    if k == "copied" and f[0][0] == "X" and f[0][1] == "siter":
        r, lo, hi = f[0][2]
        s = E.read(st, (r[1], r[2]))
        if s[0] in ("Y", "V"):
            return tuple(E.sub(st, s[2], lo, hi - lo))
    if k == "copied" and f[0][0] == "X" and f[0][1] == "chain":
        a, b = f[0][2]
        f = (("X", "copied", (a,)) if a != UNIT else UNIT, ("X", "copied", (b,)))
        k = "chain"
    if k == "chain":
        a = () if f[0] == UNIT else iter_segs(E, st, f[0])
        b = iter_segs(E, st, f[1])
        if a is not None and b is not None:
            return a + b
    if k == "take":
        a = repeated(E, st, it)
        if a is None:
            a = iter_segs(E, st, f[0])
            if a is None:
                return None
            n = seglen(a)
            if st.le(f[1], n):
                return tuple(E.sub(st, a, ZERO, f[1]))
            if st.le(n, f[1]):
                return a
            return None
        return a
    if k == "skip":
        a = iter_segs(E, st, f[0])
        if a is not None and st.le(f[1], seglen(a)):
            return tuple(E.sub(st, a, f[1], seglen(a) - f[1]))
    return None


@model("core::Extend::extend")
def m_extend_iter(E, st, avs, cs, ft):
    s = iter_segs(E, st, to_iter(E, st, avs[1])) if avs[1][0] == "X" else None
    if s is not None:
        grow(E, st, avs[0], s, "extend")
        return UNIT
    r = repeated(E, st, avs[1])
    if r is not None:
        grow(E, st, avs[0], r, "extend")
        return UNIT
    try:
        s = segs_of(E, st, avs[1])
        grow(E, st, avs[0], s, "extend")
        return UNIT
    except (Imprecise, Infeasible, KeyError, TypeError, IndexError):
        pass
    it = to_iter(E, st, avs[1])
    return run_synth(E, st, "extend", [avs[0], it], cs)


@model("alloc::Vec::resize")
def m_resize(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    m = E.asint(st, avs[1])
    out = []
    for b, s in fork(E, st, mkb(("ge", m - n))):
        x = E.read(s, loc)
        if b:
            s.ev("grow", n=m, what="resize")
            new = norm_segs(tuple(x[2]) + ((m - n, "f", avs[2], None),))
        else:
            new = E.sub(s, x[2], ZERO, m)
        E.write(s, loc, (x[0], x[1], new))
        out.append((s, UNIT))
    return out


@model("alloc::Vec::truncate")
def m_truncate(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    m = E.asint(st, avs[1])
    out = []
    for b, s in fork(E, st, mkb(("ge", m - n))):
        if not b:
            x = E.read(s, loc)
            E.write(s, loc, (x[0], x[1], E.sub(s, x[2], ZERO, m)))
        out.append((s, UNIT))
    return out


@model("alloc::Vec::clear")
def m_clear(E, st, avs, cs, ft):
    write_seq(E, st, avs[0], ())
    return UNIT


@model("alloc::Vec::pop")
def m_pop(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    out = []
    for b, s in fork(E, st, mkb(("ge", n - 1))):
        if not b:
            out.append((s, A(E, cs, 0)))
            continue
        x = E.read(s, loc)
        e = E.elem(s, x, n - 1)
        E.write(s, loc, (x[0], x[1], E.sub(s, x[2], ZERO, n - 1)))
        out.append((s, A(E, cs, 1, e)))
    return out


@model("alloc::Vec::split_off")
def m_split_off(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    k = E.asint(st, avs[1])
    out = []
    for s in chk(E, st, mkb(("ge", n - k)), "split_off index"):
        x = E.read(s, loc)
        tail = E.sub(s, x[2], k, n - k)
        E.write(s, loc, (x[0], x[1], E.sub(s, x[2], ZERO, k)))
        out.append((s, ("V", x[1], tail)))
    return out


@model("alloc::Vec::remove")
def m_remove(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    k = E.asint(st, avs[1])
    out = []
    for s in chk(E, st, mkb(("ge", n - k - 1)), "remove index"):
        x = E.read(s, loc)
        e = E.elem(s, x, k)
        E.write(s, loc, (x[0], x[1], E.splice(s, x[2], k, ONE, ())))
        out.append((s, e))
    return out


@model("alloc::Vec::drain")
def m_drain(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    out = []
    for s, off, ln in range_items(E, st, avs[1], cs.argtys[1], n, "drain"):
        x = E.read(s, loc)
        piece = E.sub(s, x[2], off, ln)
        E.write(s, loc, (x[0], x[1], E.splice(s, x[2], off, ln, ())))
        out.append((s, vec_into_iter(E, s, ("V", x[1], piece))))
    return out


@model("core::slice::to_vec", "alloc::slice::to_vec", "core::slice::to_owned", "alloc::ToOwned::to_owned", "alloc::slice::into_vec", "alloc::Vec::into_boxed_slice")
def m_to_vec(E, st, avs, cs, ft):
    if ft["name"] == "alloc::ToOwned::to_owned" and ft.get("args"):
        t = E.ty(ft["args"][0])
        if t["k"] not in ("slice", "str"):
            # the blanket implementation clones
            for f in E.crate.d["fns"]:
                if f["name"].endswith(" as Clone>::clone") and f["key"] in E.crate.d["bodies"]:
                    b = E.crate.body(f["key"])
                    if b.local and b.locals[0][0] == ft["args"][0]:
                        return E.push(st, b, avs, cs)
            h = (E.opts.get("contract") or {}).get("core::Clone::clone")
            return h(E, st, avs, cs, ft) if h else m_clone(E, st, avs, cs, ft)
    s = segs_of(E, st, avs[0])
    return ("V", ety_of(E, st, avs[0]), s)


@model("alloc::Vec::as_slice", "alloc::Vec::as_mut_slice", "core::array::as_slice", "core::array::as_mut_slice",
       "core::str::as_bytes", "core::slice::as_ref", "alloc::String::as_bytes", "alloc::<Vec as Deref>::deref", "alloc::<Vec as DerefMut>::deref_mut",
       "alloc::<String as Deref>::deref")
def m_as_slice(E, st, avs, cs, ft):
    return whole(E, st, avs[0])


@model("core::Deref::deref", "core::DerefMut::deref_mut")
def m_deref(E, st, avs, cs, ft):
    v = avs[0]
    loc = E.deref(st, v)
    x = E.read(st, loc)
    if x is not None and x[0] == "V":
        return whole(E, st, v)
    if x[0] == "X" and x[1] in ("arc", "guard", "box", "cow"):
        return x[2][0]
    if x[0] == "R":
        return x
    if x[0] == "A" and x[3] and x[3][0] is not None and x[3][0][0] == "R":
        return x[3][0]
    t = E.ty(cs.ty) if cs.ty is not None else None
    if t is not None and t["k"] == "ref":
        return E.mkval(T("derefof", valterm(x)), cs.ty)
    return ("R",) + loc


@model("core::AsRef::as_ref", "core::AsMut::as_mut", "core::Borrow::borrow", "core::BorrowMut::borrow_mut")
def m_asref(E, st, avs, cs, ft):
    v = avs[0]
    x = E.read(st, E.deref(st, v))
    n = 0
    while x[0] == "R" and n < 4:
        v = x
        x = E.read(st, E.deref(st, v))
        n += 1
    t = E.ty(cs.ty) if cs.ty is not None else None
    if x[0] in ("Y", "V"):
        if t is not None and t["k"] == "ref" and E.ty(t["to"])["k"] in ("slice", "str"):
            return whole(E, st, v)
        return v
    if x[0] == "X" and x[1] in ("arc", "box", "guard"):
        return x[2][0]
    if x[0] == "T" and t is not None and t["k"] == "ref" and x[2] != t["to"]:
        vt = E.ty(x[2]) if x[2] is not None else None
        if vt is None or vt["k"] == "param" or vt["k"] == "alias" or (vt["k"] == "adt" and not vt["variants"]):
            return E.mkval(T("asref", x[1]), cs.ty)
    return v


@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def m_copy_from(E, st, avs, cs, ft):
    dl, dn = seqloc(E, st, avs[0])
    sl, sn = seqloc(E, st, avs[1])
    out = []
    for s in chk(E, st, mkb(("eq", dn - sn)), "copy_from_slice length mismatch"):
        write_seq(E, s, avs[0], segs_of(E, s, avs[1]))
        out.append((s, UNIT))
    return out


@model("core::slice::fill")
def m_fill(E, st, avs, cs, ft):
    n = seqloc(E, st, avs[0])[1]
    write_seq(E, st, avs[0], ((n, "f", avs[1], None),))
    return UNIT


@model("core::slice::copy_within")
def m_copy_within(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    d = E.asint(st, avs[2])
    out = []
    for s, off, ln in range_items(E, st, avs[1], cs.argtys[1], n, "copy_within"):
        for s2 in chk(E, s, mkb(("ge", n - ln - d)), "copy_within dest"):
            src = E.sub(s2, segs_of(E, s2, avs[0]), off, ln)
            write_seq(E, s2, slice_ref(E, loc, d, ln), src)
            out.append((s2, UNIT))
    return out


def range_items(E, st, rv, rty, n, what):
    """feasible (state, offset, length) of indexing a sequence of length n"""
    inc = False
    if isinstance(rv, tuple) and rv[0] == "X" and rv[1] == "rinc":
        lo, hi = rv[2][0], rv[2][1] + 1
    elif isinstance(rv, tuple) and rv[0] == "T" and rv[2] is not None and E.ty(rv[2])["k"] == "adt" and E.ty(rv[2])["path"].endswith("RangeFull"):
        return [(st, ZERO, n)]
    elif isinstance(rv, tuple) and rv[0] in ("A", "T"):
        ty = rty if rty is not None else rv[1]
        p = E.ty(ty)["path"] if ty is not None else ""
        if rv[0] == "T":
            rv = E.expand(rv)
        f = rv[3]
        if p.endswith("RangeFull"):
            return [(st, ZERO, n)]
        if p.endswith("RangeTo"):
            lo, hi = ZERO, f[0]
        elif p.endswith("RangeFrom"):
            lo, hi = f[0], n
        elif p.endswith("RangeToInclusive"):
            lo, hi = ZERO, f[0] + 1
        elif p.endswith("RangeInclusive"):
            lo, hi = f[0], f[1] + 1
        elif p.endswith("Range"):
            lo, hi = f[0], f[1]
        else:
            raise Imprecise(f"index by {p} at {E.here(st)}")
    else:
        raise Imprecise(f"index by {rv} at {E.here(st)}")
    out = []
    for s in chk(E, st, mkb(("ge", n - hi)), f"{what}: end out of range", idx=hi, len=n):
        for s2 in chk(E, s, mkb(("ge", hi - lo)), f"{what}: start > end", idx=lo, len=hi):
            out.append((s2, lo, hi - lo))
    return out


@model("core::Index::index", "core::IndexMut::index_mut")
def m_index(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    i = avs[1]
    if isinstance(i, Lin):
        return [(s, ("R", loc[0], E._idx(loc[1], i))) for s in chk(E, st, mkb(("ge", n - i - 1)), "index out of bounds", idx=i, len=n)]
    return [(s, slice_ref(E, loc, o, l)) for s, o, l in range_items(E, st, i, cs.argtys[1], n, "slice index")]


@model("core::slice::get", "core::slice::get_mut")
def m_get(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    i = avs[1]
    out = []
    if isinstance(i, Lin):
        for b, s in fork(E, st, mkb(("ge", n - i - 1))):
            out.append((s, A(E, cs, 1, ("R", loc[0], E._idx(loc[1], i))) if b else A(E, cs, 0)))
        return out
    mark = len(E.paths)
    good = range_items(E, st.fork(), i, cs.argtys[1], n, "get")
    bad = E.paths[mark:]
    del E.paths[mark:]
    for s, o, l in good:
        out.append((s, A(E, cs, 1, slice_ref(E, loc, o, l))))
    for p in bad:
        s = p.st
        s.tr = s.tr[0]
        out.append((s, A(E, cs, 0)))
    return out


@model("core::slice::first", "core::slice::first_mut")
def m_first(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    return [(s, A(E, cs, 1, ("R", loc[0], E._idx(loc[1], ZERO))) if b else A(E, cs, 0)) for b, s in fork(E, st, mkb(("ge", n - 1)))]


@model("core::slice::last", "core::slice::last_mut")
def m_last(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    return [(s, A(E, cs, 1, ("R", loc[0], E._idx(loc[1], n - 1))) if b else A(E, cs, 0)) for b, s in fork(E, st, mkb(("ge", n - 1)))]


@model("core::slice::split_at", "core::slice::split_at_mut")
def m_split_at(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    k = E.asint(st, avs[1])
    return [(s, ("A", cs.ty, 0, (slice_ref(E, loc, ZERO, k), slice_ref(E, loc, k, n - k))))
            for s in chk(E, st, mkb(("ge", n - k)), "split_at out of range", idx=k, len=n)]


@model("core::slice::split_at_checked", "core::slice::split_at_mut_checked")
def m_split_at_c(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    k = E.asint(st, avs[1])
    return [(s, A(E, cs, 1, tup(slice_ref(E, loc, ZERO, k), slice_ref(E, loc, k, n - k))) if b else A(E, cs, 0))
            for b, s in fork(E, st, mkb(("ge", n - k)))]


@model("core::slice::split_first", "core::slice::split_first_mut")
def m_split_first(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    return [(s, A(E, cs, 1, tup(("R", loc[0], E._idx(loc[1], ZERO)), slice_ref(E, loc, ONE, n - 1))) if b else A(E, cs, 0))
            for b, s in fork(E, st, mkb(("ge", n - 1)))]


@model("core::slice::split_last", "core::slice::split_last_mut")
def m_split_last(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    return [(s, A(E, cs, 1, tup(("R", loc[0], E._idx(loc[1], n - 1)), slice_ref(E, loc, ZERO, n - 1))) if b else A(E, cs, 0))
            for b, s in fork(E, st, mkb(("ge", n - 1)))]


def chunk_n(E, cs, ft):
    """constant N of first_chunk::<N> & co, taken from the result type"""
    t = E.ty(cs.ty)

    def find(i, d=0):
        t = E.ty(i)
        if t["k"] == "array":
            return t["n"]
        for k in ("to",):
            if k in t:
                return find(t[k], d + 1)
        for j in (t.get("args") or t.get("e") or []) if isinstance(t.get("args") or t.get("e") or [], list) else []:
            r = find(j, d + 1)
            if r is not None:
                return r
        return None
    return find(cs.ty)


@model("core::slice::first_chunk", "core::slice::first_chunk_mut", "core::slice::as_array")
def m_first_chunk(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    k = chunk_n(E, cs, ft)
    return [(s, A(E, cs, 1, slice_ref(E, loc, ZERO, mk(k))) if b else A(E, cs, 0)) for b, s in fork(E, st, mkb(("ge", n - k)))]


@model("core::slice::last_chunk", "core::slice::last_chunk_mut")
def m_last_chunk(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    k = chunk_n(E, cs, ft)
    return [(s, A(E, cs, 1, slice_ref(E, loc, n - k, mk(k))) if b else A(E, cs, 0)) for b, s in fork(E, st, mkb(("ge", n - k)))]


@model("core::slice::split_first_chunk", "core::slice::split_first_chunk_mut")
def m_split_first_chunk(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    k = chunk_n(E, cs, ft)
    return [(s, A(E, cs, 1, tup(slice_ref(E, loc, ZERO, mk(k)), slice_ref(E, loc, mk(k), n - k))) if b else A(E, cs, 0)) for b, s in fork(E, st, mkb(("ge", n - k)))]


@model("core::slice::split_last_chunk", "core::slice::split_last_chunk_mut")
def m_split_last_chunk(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    k = chunk_n(E, cs, ft)
    return [(s, A(E, cs, 1, tup(slice_ref(E, loc, ZERO, n - k), slice_ref(E, loc, n - k, mk(k)))) if b else A(E, cs, 0)) for b, s in fork(E, st, mkb(("ge", n - k)))]


@model("core::slice::starts_with")
def m_starts_with(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    l2, k = seqloc(E, st, avs[1])
    out = []
    for b, s in fork(E, st, mkb(("ge", n - k))):
        if not b:
            out.append((s, False))
        else:
            out.append((s, E.eqval(s, ("Y", None, E.sub(s, segs_of(E, s, avs[0]), ZERO, k)), ("Y", None, segs_of(E, s, avs[1])))))
    return out


@model("core::slice::contains")
def m_contains(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    x = deref_all(E, st, avs[1])
    if n.t or n.c > 32:
        raise Imprecise("contains on a sequence of unknown length")
    out = []
    todo = [st]
    for i in range(n.c):
        nxt = []
        for s in todo:
            y = E.read(s, (loc[0], E._idx(loc[1], mk(i))))
            r = enum_eq(E, s, x, y)
            if r is None:
                if not (isinstance(x, Lin) and isinstance(y, Lin)):
                    raise Imprecise("contains of neither numbers nor plain enums")
                r = mkb(("eq", x - y))
            for b, s2 in fork(E, s, r):
                (out if b else nxt).append((s2, True) if b else s2)
        todo = nxt
    return out + [(s, False) for s in todo]


@model("core::slice::ends_with")
def m_ends_with(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[0])
    l2, k = seqloc(E, st, avs[1])
    out = []
    for b, s in fork(E, st, mkb(("ge", n - k))):
        if not b:
            out.append((s, False))
        else:
            out.append((s, E.eqval(s, ("Y", None, E.sub(s, segs_of(E, s, avs[0]), n - k, k)), ("Y", None, segs_of(E, s, avs[1])))))
    return out


@model("core::slice::concat", "alloc::slice::concat", "alloc::Join::join", "alloc::Concat::concat")
def m_concat(E, st, avs, cs, ft):
    x = E.read(st, seqloc(E, st, avs[0])[0])
    segs = ()
    for n, k, a, b in x[2]:
        if k != "v":
            raise Imprecise("concat of an unknown number of parts")
        for v in a:
            segs += tuple(segs_of(E, st, v))
    alloc_limit(E, st, seglen(segs), "concat")
    return ("V", targ(E, cs), norm_segs(segs))


# ----------------------------------------------------------------- clone etc.
@model("core::Clone::clone", "core::Option::cloned", "core::Option::copied", "alloc::Cow::into_owned")
def m_clone(E, st, avs, cs, ft):
    if ft["name"].startswith("core::Option"):
        out = []
        for var, p, s in optval(E, st, avs[0]):
            out.append((s, A(E, cs, 0) if var == 0 else A(E, cs, 1, E.read(s, E.deref(s, p)))))
        return out
    v = E.read(st, E.deref(st, avs[0]))
    return v


@model("core::Clone::clone_from")
def m_clone_from(E, st, avs, cs, ft):
    E.write(st, E.deref(st, avs[0]), E.read(st, E.deref(st, avs[1])))
    return UNIT


def default_of(E, st, ty):
    t = E.ty(ty)
    k = t["k"]
    if k in ("uint", "int"):
        return ZERO
    if k == "bool":
        return False
    if k == "tuple":
        return ("A", ty, 0, tuple(default_of(E, st, e) for e in t["e"]))
    if k == "array" and isinstance(t["n"], int):
        d = default_of(E, st, t["e"])
        return ("Y", t["e"], norm_segs(((mk(t["n"]), "f", d, None),)))
    if k == "ref" and E.ty(t["to"])["k"] in ("slice", "str"):
        return ("R", ("k", b""), (("s", ZERO, ZERO),))
    if E.is_vec(t):
        return ("V", t["args"][0], ())
    if k == "adt" and t["path"].startswith("core::option"):
        return ("A", ty, 0, ())
    if k == "adt" and t["path"].endswith("Atomic"):
        return ("X", "atomic", (ZERO,))
    return ("T", T("default", t["s"] if "s" in t else k), ty)


@model("core::Default::default", "core::Option::unwrap_or_default")
def m_default(E, st, avs, cs, ft):
    if ft["name"] == "core::Option::unwrap_or_default":
        return [(s, p if var == 1 else default_of(E, s, cs.ty)) for var, p, s in optval(E, st, avs[0])]
    if cs.ty is None:
        raise Imprecise("default of unknown type")
    return default_of(E, st, cs.ty)


@model("core::mem::replace", "core::replace")
def m_replace(E, st, avs, cs, ft):
    loc = E.deref(st, avs[0])
    old = E.read(st, loc)
    E.write(st, loc, avs[1])
    return old


@model("core::mem::take", "core::take")
def m_take(E, st, avs, cs, ft):
    loc = E.deref(st, avs[0])
    old = E.read(st, loc)
    E.write(st, loc, default_of(E, st, cs.ty))
    return old


@model("core::mem::swap", "core::swap")
def m_swap(E, st, avs, cs, ft):
    a, b = E.deref(st, avs[0]), E.deref(st, avs[1])
    x, y = E.read(st, a), E.read(st, b)
    E.write(st, a, y)
    E.write(st, b, x)
    return UNIT


@model("core::mem::drop", "core::drop", "core::mem::forget", "core::forget")
def m_drop(E, st, avs, cs, ft):
    if "drop" in ft["name"]:
        E.on_drop(st, avs[0], cs.argtys[0], None)
    return UNIT


@model("core::mem::size_of_val", "core::size_of_val")
def m_sizeofval(E, st, avs, cs, ft):
    return E.length(st, E.deref(st, avs[0]))


@model("core::hint::black_box", "core::black_box", "core::convert::identity", "core::identity", "core::From::from")
def m_ident(E, st, avs, cs, ft):
    if ft["name"] == "core::From::from":
        return m_into(E, st, avs, cs, ft)
    return avs[0]


@model("core::Into::into")
def m_into(E, st, avs, cs, ft):
    v = avs[0]
    t = E.ty(cs.ty) if cs.ty is not None else None
    if t is None:
        return ("T", T("into", valterm(v)), None)
    if isinstance(v, Lin) and t["k"] in ("uint", "int"):
        return v
    if E.is_vec(t):
        if v[0] == "V":
            return v
        if v[0] == "Y":
            return ("V", v[1], v[2])
        if v[0] == "R":
            try:
                return ("V", t["args"][0], segs_of(E, st, v))
            except Imprecise:
                pass
    if v[0] == "T" and v[2] == cs.ty or v[0] == "A" and v[1] == cs.ty:
        return v
    src = cs.argtys[0] if cs.argtys else None
    if len(ft.get("args") or ()) == 2:
        # also when called through a function value
        src = ft["args"][0 if ft["name"] == "core::Into::into" else 1]
    b = from_impl(E, src, cs.ty)
    if b is not None:
        return E.push(st, b, avs, cs)
    if t["k"] == "adt" and t["path"].startswith("core::option::Option"):
        return ("A", cs.ty, 1, (v,))
    return E.mkval(T("into", valterm(v)), cs.ty)


def from_impl(E, src, dst):
    """body of the crate's own `impl From<src> for dst`"""
    for f in E.crate.d["fns"]:
        if f["name"].endswith(" as From>::from") and f["key"] in E.crate.d["bodies"]:
            b = E.crate.body(f["key"])
            if b.local and b.argc == 1 and b.locals[1][0] == src and b.locals[0][0] == dst:
                return b
    return None


@model("core::TryFrom::try_from", "core::TryInto::try_into")
def m_try_from(E, st, avs, cs, ft):
    okty = targ(E, cs, 0)
    v = avs[0]
    t = E.ty(okty) if okty is not None else None
    if t is None:
        raise Imprecise("try_from of unknown type")
    ety = errty(E, cs)
    if t["k"] in ("array",) or t["k"] == "ref" and E.ty(t["to"])["k"] == "array":
        n = (t if t["k"] == "array" else E.ty(t["to"]))["n"]
        loc, ln = seqloc(E, st, v)
        out = []
        for b, s in fork(E, st, mkb(("eq", ln - n))):
            if b:
                r = ("Y", t["e"], segs_of(E, s, v)) if t["k"] == "array" else v
                if t["k"] == "array" and isinstance(n, int):
                    # the length is the constant
                    r = ("Y", t["e"], E.sub(s, r[2], ZERO, mk(n)))
                out.append((s, A(E, cs, 0, r)))
            else:
                out.append((s, A(E, cs, 1, ("T", T("TryFromSliceError"), ety))))
        return out
    if t["k"] in ("uint", "int") and isinstance(v, Lin):
        lo, hi = E.irange(okty)
        out = []
        for b, s in fork(E, st, ("?", ("and", ("ge", v - lo), ("ge", hi - v)))):
            out.append((s, A(E, cs, 0, v) if b else A(E, cs, 1, ("T", T("TryFromIntError"), ety))))
        return out
    raise Imprecise(f"try_from at {E.here(st)}")


# -------------------------------------------------------------- comparisons
def deref_all(E, st, v):
    n = 0
    while isinstance(v, tuple) and v and v[0] == "R" and n < 5:
        v = E.read(st, (v[1], v[2]))
        n += 1
    return v


def enum_eq(E, st, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "A" and not x[3] and x[1] is not None and y[0] in ("T", "A") and E.ty(x[1]).get("ak") == "enum":
            d1 = E.discr(st, x, x[1])
            d2 = E.discr(st, y, x[1])
            return mkb(("eq", d1 - d2))
    return None


@model("core::PartialEq::eq", "core::PartialEq::ne")
def m_eq(E, st, avs, cs, ft):
    a, b = deref_all(E, st, avs[0]), deref_all(E, st, avs[1])
    r = enum_eq(E, st, a, b)
    if r is None:
        r = E.eqval(st, a, b)
    return r if ft["name"].endswith("::eq") else bnot(r)


@model("core::PartialOrd::lt", "core::PartialOrd::le", "core::PartialOrd::gt", "core::PartialOrd::ge")
def m_ord(E, st, avs, cs, ft):
    a, b = deref_all(E, st, avs[0]), deref_all(E, st, avs[1])
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[ft["name"].rsplit("::", 1)[1]]
    return E.binop(st, op, a, b, None)


@model("core::Ord::cmp", "core::PartialOrd::partial_cmp")
def m_cmp(E, st, avs, cs, ft):
    a, b = deref_all(E, st, avs[0]), deref_all(E, st, avs[1])
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        raise Imprecise("cmp of non-integers")
    out = []
    part = ft["name"].endswith("partial_cmp")
    ty = cs.ty if not part else targ(E, cs)
    for c, i in ((("ge", b - a - 1), 0), (("eq", a - b), 1), (("ge", a - b - 1), 2)):
        for s in st.where_(c):
            r = ("A", ty, i, ())
            out.append((s, A(E, cs, 1, r) if part else r))
    return out


@model("core::cmp::min", "core::Ord::min", "core::cmp::max", "core::Ord::max", "core::min", "core::max")
def m_min(E, st, avs, cs, ft):
    a, b = avs
    mn = "min" in ft["name"].rsplit("::", 1)[1]
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        return E.mkval(T("minmax", mn, valterm(a), valterm(b)), cs.ty)
    out = []
    for g, s in fork(E, st, mkb(("ge", b - a))):
        out.append((s, a if g == mn else b))
    return out


@model("core::Ord::clamp")
def m_clamp(E, st, avs, cs, ft):
    x, lo, hi = avs
    out = []
    for b, s in fork(E, st, mkb(("ge", lo - x))):
        if b:
            out.append((s, lo))
            continue
        for b2, s2 in fork(E, s, mkb(("ge", x - hi))):
            out.append((s2, hi if b2 else x))
    return out


_OPS = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr",
        "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}


def op_trait(E, st, avs, cs, ft):
    """operator traits on integers behind references (the by-value ones are MIR operators)"""
    m = ft["name"].rsplit("::", 1)[1]
    asg = m.endswith("_assign")
    op = _OPS[m[:-7] if asg else m]
    if asg:
        loc = auto(E, st, avs[0])
        a = E.read(st, loc)
    else:
        a = deref_all(E, st, avs[0])
    b = deref_all(E, st, avs[1])
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)) and op.startswith("Bit"):
            r = E.binop(st, op, a, b, cs.ty)
            if asg:
                E.write(st, loc, r)
                return UNIT
            return r
        return None
    ty = cs.ty
    if asg or ty is None:
        t = cs.argtys[0] if cs.argtys else None
        while t is not None and E.ty(t)["k"] in ("ref", "ptr"):
            t = E.ty(t)["to"]
        ty = t
    if ty is None:
        return None
    out = []
    states = [st]
    if op in ("Div", "Rem"):
        states = chk(E, st, mkb(("ne", b)), "division by zero")
    for s in states:
        if op in ("Add", "Sub", "Mul"):
            e = E.arith(s, op, a, b, ty)
            if e is not None:
                lo, hi = E.irange(ty)
                for s2 in chk(E, s, mkb(("and", ("ge", e - lo), ("ge", mk(hi) - e))), "Overflow(%s)" % op):
                    out.append((s2, e))
                continue
        out.append((s, E.binop(s, op, a, b, ty)))
    if asg:
        for s, r in out:
            E.write(s, loc, r)
        return [(s, UNIT) for s, r in out]
    return out


for _k, _v in _OPS.items():
    for _p in ("core", "core::ops"):
        M[f"{_p}::{_v}::{_k}"] = op_trait
        M[f"{_p}::{_v}Assign::{_k}_assign"] = op_trait


@model("core::Not::not", "core::ops::Not::not")
def m_not(E, st, avs, cs, ft):
    a = deref_all(E, st, avs[0])
    if isinstance(a, Lin) and cs.ty is not None and E.ty(cs.ty)["k"] == "uint":
        return mk(E.irange(cs.ty)[1]) - a
    if a is True or a is False or (isinstance(a, tuple) and a[0] == "?"):
        return bnot(a)
    return None


# --------------------------------------------------------------- integers
def intname(ft):
    p = ft["name"].split("::")
    return p[-1]


def int_model(E, st, avs, cs, ft):
    op = intname(ft)
    ty = cs.argtys[0] if cs.argtys else None
    if op.startswith("checked_") or op.startswith("saturating_") or op.startswith("wrapping_") or op.startswith("overflowing_"):
        kind, o = op.split("_", 1)
        o = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr"}.get(o)
        if o is None or ty is None:
            return None
        a, b = E.asint(st, avs[0]), E.asint(st, avs[1])
        lo, hi = E.irange(ty)
        if o in ("Div", "Rem"):
            out = []
            for z, s in fork(E, st, mkb(("eq", b))):
                if z:
                    if kind == "checked":
                        out.append((s, A(E, cs, 0)))
                    else:
                        s.ev("panic", why="division by zero")
                        E.end(s, "panic", "division by zero")
                    continue
                r = E.arith(s, o, a, b, ty)
                out.append((s, A(E, cs, 1, r) if kind == "checked" else r))
            return out
        r = E.arith(st, o, a, b, ty)
        if r is None:
            r = lin(sym(T("m" + o, a, b), 0 if lo == 0 else None, None))
        if kind == "wrapping":
            return E.wrap(st, r, ty)
        out = []
        for b2, s in fork(E, st, ("?", ("and", ("ge", r - lo), ("ge", hi - r)))):
            if kind == "checked":
                out.append((s, A(E, cs, 1, r) if b2 else A(E, cs, 0)))
            elif kind == "overflowing":
                out.append((s, tup(r if b2 else E.wrap(s, r, ty), not b2)))
            elif b2:
                out.append((s, r))
            else:
                for b3, s2 in fork(E, s, mkb(("ge", r - hi - 1))):
                    out.append((s2, mk(hi) if b3 else mk(lo)))
        return out
    if op in ("to_le_bytes", "to_ne_bytes", "to_be_bytes"):
        w, sg = E.bits(ty)
        n = w // 8
        x = avs[0]
        be = op == "to_be_bytes"
        t = E.ty(cs.ty)
        ety = t["e"]
        if not x.t:
            v = x.c & ((1 << w) - 1)
            return ("Y", ety, (const_seg(v.to_bytes(n, "big" if be else "little")),))
        return ("Y", ety, (tseg(mk(n), T("be" if be else "le", x, n)),))
    if op in ("from_le_bytes", "from_ne_bytes", "from_be_bytes"):
        be = op == "from_be_bytes"
        w, sg = E.bits(cs.ty)
        n = w // 8
        v = avs[0]
        s = norm_segs(v[2])
        if len(s) == 1 and s[0][1] == "t" and s[0][2].op == ("be" if be else "le") and not s[0][3].t and s[0][3].c == 0 and s[0][2].args[1] == n:
            return E.wrap(st, s[0][2].args[0], cs.ty)
        r = mk(0)
        for i in range(n):
            e = E.elem(st, ("Y", v[1], s), mk(i))
            if not isinstance(e, Lin):
                e = lin(sym(T("elem", bterm(s), mk(i)), 0, 255))
            r = r + e * (1 << (8 * ((n - 1 - i) if be else i)))
        return E.wrap(st, r, cs.ty) if sg else r
    if op == "abs_diff":
        a, b = avs
        return [(s, a - b if g else b - a) for g, s in fork(E, st, mkb(("ge", a - b)))]
    if op == "div_ceil" or op == "next_multiple_of":
        a, b = avs
        if not b.t and b.c > 0:
            q = E.div(st, a + (b.c - 1), b)
            return q if op == "div_ceil" else q * b.c
    if op == "is_multiple_of":
        a, b = avs
        if not b.t and b.c > 0:
            return mkb(("eq", E.rem(st, a, b)))
    if op in ("pow",):
        a, b = avs
        if not a.t and not b.t:
            return E.wrap(st, mk(a.c ** b.c), ty)
    if op in ("min_value",):
        return mk(E.irange(cs.ty)[0])
    if op in ("max_value",):
        return mk(E.irange(cs.ty)[1])
    if op in ("rem_euclid", "div_euclid"):
        a, b = avs
        if not b.t and b.c > 0 and E.irange(ty)[0] == 0:
            return E.rem(st, a, b) if op == "rem_euclid" else E.div(st, a, b)
    if op == "rotate_left" or op == "count_ones" or op == "leading_zeros" or op == "trailing_zeros" or op == "swap_bytes":
        return E.mkval(T(op, *[valterm(a) for a in avs]), cs.ty)
    return None


INT_PREFIX = tuple(f"core::{p}{w}::" for p in "ui" for w in (8, 16, 32, 64, 128)) + ("core::usize::", "core::isize::") + \
    tuple(f"core::num::{p}{w}::" for p in "ui" for w in (8, 16, 32, 64, 128)) + ("core::num::usize::",)


# -------------------------------------------------------------- iterators
def vec_into_iter(E, st, v):
    """owning iterator over a Vec / array value"""
    return ("X", "viter", (v, ZERO, seglen(v[2])))


def to_iter(E, st, v):
    """IntoIterator::into_iter"""
    if v[0] == "X" and v[1] in ITERS:
        return v
    if v[0] in ("V", "Y"):
        return vec_into_iter(E, st, v)
    if v[0] == "R":
        x = E.read(st, (v[1], v[2]))
        if x[0] in ("Y", "V"):
            w = whole(E, st, v)
            n = seqloc(E, st, v)[1]
            return ("X", "siter", (w, ZERO, n))
        if x[0] == "R":
            return to_iter(E, st, x)
        if x[0] == "X":
            return ("X", "byref", (v,))
    if v[0] == "A" and v[1] is not None and E.ty(v[1])["k"] == "adt":
        p = E.ty(v[1])["path"]
        if p.startswith("core::ops::range::Range"):
            return v
        if p.startswith("core::option::Option"):
            return ("X", "oiter", (v,))
    if v[0] == "T" and v[2] is not None:
        t = E.ty(v[2])
        if t["k"] == "adt" and t["path"].startswith("core::option::Option"):
            return ("X", "oiter", (v,))
        if t["k"] == "ref":
            return to_iter(E, st, ("R",) + E.deref(st, v))
    return v


ITERS = {"siter", "viter", "map", "enumerate", "zip", "take", "skip", "rev", "chain", "copied", "windows", "chunks", "rinc", "byref", "oiter",
         "filter", "filter_map", "skip_while", "map_while", "flat", "stepby", "inspect", "peekable", "takewhile", "cycle", "fnch", "chunkse", "once", "repeat"}


@model("core::IntoIterator::into_iter")
def m_into_iter(E, st, avs, cs, ft):
    return to_iter(E, st, avs[0])


@model("core::slice::iter", "core::slice::iter_mut", "alloc::Vec::iter")
def m_iter(E, st, avs, cs, ft):
    w = whole(E, st, avs[0])
    return ("X", "siter", (w, ZERO, seqloc(E, st, avs[0])[1]))


@model("core::slice::windows")
def m_windows(E, st, avs, cs, ft):
    w = whole(E, st, avs[0])
    n = seqloc(E, st, avs[0])[1]
    k = E.asint(st, avs[1])
    return [(s, ("X", "windows", (w, k, ZERO, n))) for s in chk(E, st, mkb(("ge", k - 1)), "window size zero")]


@model("core::slice::chunks", "core::slice::chunks_mut", "core::slice::chunks_exact", "core::slice::chunks_exact_mut")
def m_chunks(E, st, avs, cs, ft):
    w = whole(E, st, avs[0])
    n = seqloc(E, st, avs[0])[1]
    k = E.asint(st, avs[1])
    kind = "chunkse" if "exact" in ft["name"] else "chunks"
    return [(s, ("X", kind, (w, k, ZERO, n))) for s in chk(E, st, mkb(("ge", k - 1)), "chunk size zero")]


def adapter(kind):
    def f(E, st, avs, cs, ft):
        return ("X", kind, tuple(avs))
    return f


for _n, _k in (("map", "map"), ("zip", "zip"), ("take", "take"), ("skip", "skip"), ("rev", "rev"), ("chain", "chain"), ("copied", "copied"),
               ("cloned", "copied"), ("filter", "filter"), ("inspect", "inspect"), ("step_by", "stepby"), ("take_while", "takewhile"),
               ("filter_map", "filter_map"), ("skip_while", "skip_while"), ("map_while", "map_while")):
    def _mk(k):
        def f(E, st, avs, cs, ft):
            v = list(avs)
            if k in ("zip", "chain"):
                v[1] = to_iter(E, st, v[1])
            return ("X", k, tuple(v))
        return f
    M["core::Iterator::" + _n] = _mk(_k)
M["core::Iterator::fuse"] = lambda E, st, avs, cs, ft: avs[0]
M["core::Iterator::by_ref"] = lambda E, st, avs, cs, ft: avs[0]


@model("core::Iterator::enumerate")
def m_enumerate(E, st, avs, cs, ft):
    return ("X", "enumerate", (avs[0], ZERO))


@model("core::Iterator::peekable")
def m_peekable(E, st, avs, cs, ft):
    return avs[0]


@model("core::RangeInclusive::new", "core::ops::RangeInclusive::new")
def m_rinc(E, st, avs, cs, ft):
    return ("X", "rinc", (avs[0], avs[1], False))


def is_range(E, v):
    return v[0] == "A" and v[1] is not None and E.ty(v[1])["k"] == "adt" and E.ty(v[1])["path"].startswith("core::ops::range::Range")


def inext(E, st, it, cs, K, kd, back=False):
    """advance an iterator value; continuation K(E, st, it', item|None, kd, cs)"""
    if is_range(E, it):
        p = E.ty(it[1])["path"]
        f = it[3]
        if p.endswith("RangeFrom"):
            return K(E, st, ("A", it[1], 0, (f[0] + 1,)), f[0], kd, cs)
        out = []
        for b, s in fork(E, st, mkb(("ge", f[1] - f[0] - 1))):
            if not b:
                out += K(E, s, it, None, kd, cs)
            elif back:
                out += K(E, s, ("A", it[1], 0, (f[0], f[1] - 1)), f[1] - 1, kd, cs)
            else:
                out += K(E, s, ("A", it[1], 0, (f[0] + 1, f[1])), f[0], kd, cs)
        return out
    if it[0] != "X":
        raise Imprecise(f"next() on {it[0]} at {E.here(st)}")
    k = it[1]
    f = it[2]
    out = []
    if k == "rinc":
        for b, s in fork(E, st, mkb(("ge", f[1] - f[0]))):
            if not b:
                out += K(E, s, it, None, kd, cs)
            elif back:
                out += K(E, s, ("X", "rinc", (f[0], f[1] - 1, False)), f[1], kd, cs)
            else:
                out += K(E, s, ("X", "rinc", (f[0] + 1, f[1], False)), f[0], kd, cs)
        return out
    if k in ("siter", "viter"):
        r, lo, hi = f
        for b, s in fork(E, st, mkb(("ge", hi - lo - 1))):
            if not b:
                out += K(E, s, it, None, kd, cs)
                continue
            i = hi - 1 if back else lo
            n = (r, lo, hi - 1) if back else (r, lo + 1, hi)
            if k == "siter":
                item = ("R", r[1], E._idx(r[2], i))
            else:
                item = E.elem(s, r, i)
            out += K(E, s, ("X", k, n), item, kd, cs)
        return out
    if k == "windows":
        r, w, lo, hi = f
        for b, s in fork(E, st, mkb(("ge", hi - lo - w))):
            if not b:
                out += K(E, s, it, None, kd, cs)
            elif back:
                out += K(E, s, ("X", k, (r, w, lo, hi - 1)), slice_ref(E, (r[1], r[2]), hi - w, w), kd, cs)
            else:
                out += K(E, s, ("X", k, (r, w, lo + 1, hi)), slice_ref(E, (r[1], r[2]), lo, w), kd, cs)
        return out
    if k in ("chunks", "chunkse"):
        r, w, lo, hi = f
        for b, s in fork(E, st, mkb(("ge", hi - lo - w))):
            if b:
                out += K(E, s, ("X", k, (r, w, lo + w, hi)), slice_ref(E, (r[1], r[2]), lo, w), kd, cs)
            elif k == "chunkse":
                out += K(E, s, it, None, kd, cs)
            else:
                for b2, s2 in fork(E, s, mkb(("ge", hi - lo - 1))):
                    if b2:
                        out += K(E, s2, ("X", k, (r, w, hi, hi)), slice_ref(E, (r[1], r[2]), lo, hi - lo), kd, cs)
                    else:
                        out += K(E, s2, it, None, kd, cs)
        return out
    if k == "oiter":
        for var, p, s in optval(E, st, f[0]):
            if var == 0:
                out += K(E, s, it, None, kd, cs)
            else:
                out += K(E, s, ("X", k, (("A", f[0][1] if f[0][0] == "A" else f[0][2], 0, ()),)), p, kd, cs)
        return out
    if k == "byref":
        loc = E.deref(st, f[0])
        return inext(E, st, E.read(st, loc), cs, _k_byref, (f[0], it, K, kd), back)
    if k == "map":
        return inext(E, st, f[0], cs, _k_map, (f[1], K, kd), back)
    if k == "inspect":
        return inext(E, st, f[0], cs, _k_wrap1, ("inspect", f[1], K, kd), back)
    if k in ("filter", "filter_map", "skip_while") and not back:
        return E.push(st, synth(E, "next_" + k), [f[0], f[1]], cs, _k_gen, (k, f[1], K, kd))
    if k == "flat" and not back:
        return E.push(st, synth(E, "next_flat"), list(f), cs, _k_gen, (k, f[2], K, kd))
    if k == "map_while" and not back:
        return inext(E, st, f[0], cs, _k_mw, (f[1], K, kd))
    if k == "stepby" and not back and is_range(E, f[0]) and len(f[0][3]) == 2:
        lo, hi = f[0][3]
        for b, s in fork(E, st, mkb(("ge", hi - lo - 1))):
            if b:
                out += K(E, s, ("X", k, (("A", f[0][1], 0, (lo + f[1], hi)), f[1])), lo, kd, cs)
            else:
                out += K(E, s, it, None, kd, cs)
        return out
    if k == "copied":
        return inext(E, st, f[0], cs, _k_copied, (K, kd), back)
    if k == "enumerate":
        if back:
            raise Imprecise("rev of enumerate")
        return inext(E, st, f[0], cs, _k_enum, (f[1], K, kd))
    if k == "rev":
        return inext(E, st, f[0], cs, _k_rev, (K, kd), not back)
    if k == "repeat":
        return K(E, st, it, f[0], kd, cs)
    if k == "take":
        for b, s in fork(E, st, mkb(("ge", f[1] - 1))):
            if b:
                out += inext(E, s, f[0], cs, _k_take, (f[1], K, kd), back)
            else:
                out += K(E, s, it, None, kd, cs)
        return out
    if k == "skip":
        base = f[0]
        # positional iterators: skipping moves the start
        if base[0] == "X" and base[1] in ("siter", "viter"):
            r, lo, hi = base[2]
            for b, s in fork(E, st, mkb(("ge", hi - lo - f[1]))):
                nb = ("X", base[1], (r, lo + f[1] if b else hi, hi))
                out += inext(E, s, nb, cs, K, kd, back)
            return out
        if is_range(E, base):
            lo, hi = base[3]
            for b, s in fork(E, st, mkb(("ge", hi - lo - f[1]))):
                out += inext(E, s, ("A", base[1], 0, (lo + f[1] if b else hi, hi)), cs, K, kd, back)
            return out
        raise Imprecise("skip")
    if k == "takewhile" and not back:
        if f[0] == UNIT:
            return K(E, st, it, None, kd, cs)
        return inext(E, st, f[0], cs, _k_tw, (f[1], K, kd))
    if k == "zip":
        return inext(E, st, f[0], cs, _k_zip1, (f[1], it, K, kd), back)
    if k == "chain":
        if f[0] == UNIT:
            return inext(E, st, f[1], cs, _k_chain2, (K, kd))
        return inext(E, st, f[0], cs, _k_chain1, (f[1], K, kd))
    raise Imprecise(f"iterator {k}")


def _k_byref(E, st, it, item, kd, cs):
    r, orig, K, k2 = kd
    E.write(st, E.deref(st, r), it)
    return K(E, st, orig, item, k2, cs)


def _k_map(E, st, it, item, kd, cs):
    f, K, k2 = kd
    new = ("X", "map", (it, f))
    if item is None:
        return K(E, st, new, None, k2, cs)
    return E.call_value(st, f, [item], cs, kont=_k_map_ret, kdata=(new, K, k2))


def _k_map_ret(E, st, rv, kd, cs):
    new, K, k2 = kd
    # a mutable closure environment lives in its own object
    return K(E, st, new, rv, k2, cs)


def _k_tw(E, st, it, item, kd, cs):
    f, K, k2 = kd
    if item is None:
        return K(E, st, ("X", "takewhile", (it, f)), None, k2, cs)
    o = ("tw", st.fresh(E.site(st), "tw").id)
    st.mem[o] = item
    return E.call_value(st, f, [("R", o, ())], cs, kont=_k_tw_ret, kdata=(it, f, item, K, k2))


def _k_tw_ret(E, st, rv, kd, cs):
    it, f, item, K, k2 = kd
    out = []
    for b, s in fork(E, st, rv):
        if b:
            out += K(E, s, ("X", "takewhile", (it, f)), item, k2, cs)
        else:
            out += K(E, s, ("X", "takewhile", (UNIT, f)), None, k2, cs)
    return out


def _k_gen(E, st, rv, kd, cs):
    k, f, K, k2 = kd
    it, cur, item = rv[3]
    if k == "flat":
        new = ("X", k, (it, cur, f))
    elif k == "skip_while":
        new = it
    else:
        new = ("X", k, (it, f))
    return K(E, st, new, None if item[2] == 0 else item[3][0], k2, cs)


def _k_mw(E, st, it, item, kd, cs):
    f, K, k2 = kd
    if item is None:
        return K(E, st, ("X", "map_while", (it, f)), None, k2, cs)
    return E.call_value(st, f, [item], cs, kont=_k_mw_ret, kdata=(it, f, K, k2))


def _k_mw_ret(E, st, rv, kd, cs):
    it, f, K, k2 = kd
    out = []
    for var, p, s in optval(E, st, rv):
        out += K(E, s, ("X", "map_while", (it, f)), p if var else None, k2, cs)
    return out


def _k_wrap1(E, st, it, item, kd, cs):
    kind, f, K, k2 = kd
    return K(E, st, ("X", kind, (it, f)), item, k2, cs)


def _k_copied(E, st, it, item, kd, cs):
    K, k2 = kd
    new = ("X", "copied", (it,))
    if item is None:
        return K(E, st, new, None, k2, cs)
    return K(E, st, new, E.read(st, E.deref(st, item)), k2, cs)


def _k_enum(E, st, it, item, kd, cs):
    c, K, k2 = kd
    if item is None:
        return K(E, st, ("X", "enumerate", (it, c)), None, k2, cs)
    return K(E, st, ("X", "enumerate", (it, c + 1)), tup(c, item), k2, cs)


def _k_rev(E, st, it, item, kd, cs):
    K, k2 = kd
    return K(E, st, ("X", "rev", (it,)), item, k2, cs)


def _k_take(E, st, it, item, kd, cs):
    n, K, k2 = kd
    return K(E, st, ("X", "take", (it, n - 1 if item is not None else n)), item, k2, cs)


def _k_zip1(E, st, it, item, kd, cs):
    b, orig, K, k2 = kd
    if item is None:
        return K(E, st, ("X", "zip", (it, b)), None, k2, cs)
    return inext(E, st, b, cs, _k_zip2, (it, item, K, k2))


def _k_zip2(E, st, itb, item, kd, cs):
    ita, ia, K, k2 = kd
    new = ("X", "zip", (ita, itb))
    return K(E, st, new, None if item is None else tup(ia, item), k2, cs)


def _k_chain1(E, st, it, item, kd, cs):
    b, K, k2 = kd
    if item is None:
        return inext(E, st, b, cs, _k_chain2, (K, k2))
    return K(E, st, ("X", "chain", (it, b)), item, k2, cs)


def _k_chain2(E, st, it, item, kd, cs):
    K, k2 = kd
    return K(E, st, ("X", "chain", (UNIT, it)), item, k2, cs)


def _k_next(E, st, it, item, kd, cs):
    E.write(st, kd, it)
    return [(st, A(E, cs, 0) if item is None else A(E, cs, 1, item))]


@model("core::Iterator::next", "core::DoubleEndedIterator::next_back")
def m_next(E, st, avs, cs, ft):
    loc = E.deref(st, avs[0])
    it = E.read(st, loc)
    n = 0
    while it[0] == "R" and n < 3:
        loc = E.deref(st, it)
        it = E.read(st, loc)
        n += 1
    if it[0] == "T":
        it = to_iter(E, st, it)
        if it[0] == "T":
            return None
    return inext(E, st, it, cs, _k_next, loc, back=ft["name"].endswith("next_back"))


@model("core::Iterator::flat_map")
def m_flat_map(E, st, avs, cs, ft):
    return ("X", "flat", (to_iter(E, st, avs[0]), UNIT, avs[1]))


@model("core::Iterator::flatten")
def m_flatten(E, st, avs, cs, ft):
    return ("X", "flat", (to_iter(E, st, avs[0]), UNIT, UNIT))


def of_list(vs):
    """an iterator over these values"""
    return ("X", "viter", (("Y", None, ((mk(len(vs)), "v", tuple(vs), None),) if vs else ()), ZERO, mk(len(vs))))


@model("core::once::once", "core::iter::once", "core::once")
def m_once(E, st, avs, cs, ft):
    return of_list(avs[:1])


@model("core::empty::empty", "core::iter::empty", "core::empty")
def m_empty(E, st, avs, cs, ft):
    return of_list([])


@model("core::zip::zip", "core::iter::zip")
def m_zip(E, st, avs, cs, ft):
    return ("X", "zip", (to_iter(E, st, avs[0]), to_iter(E, st, avs[1])))


@model("core::Option::iter", "core::Option::iter_mut")
def m_oiter(E, st, avs, cs, ft):
    loc = E.deref(st, avs[0])
    out = []
    for var, p, s in optval(E, st, E.read(st, loc)):
        out.append((s, of_list([("R", loc[0], loc[1] + (("v", 1), 0))] if var else [])))
    return out


def _k_item(E, st, it, item, kd, cs):
    return [(st, A(E, cs, 0) if item is None else A(E, cs, 1, item))]


@model("core::Iterator::find_map")
def m_find_map(E, st, avs, cs, ft):
    it = avs[0] if avs[0][0] != "R" else ("X", "byref", (avs[0],))
    return inext(E, st, ("X", "filter_map", (it, avs[1])), cs, _k_item, None)


@model("core::Iterator::nth")
def m_nth(E, st, avs, cs, ft):
    loc = E.deref(st, avs[0])
    it = E.read(st, loc)
    return inext(E, st, ("X", "skip", (it, E.asint(st, avs[1]))), cs, _k_next, loc)


@model("core::Iterator::last")
def m_last(E, st, avs, cs, ft):
    return run_synth(E, st, "fold", [to_iter(E, st, avs[0]), A(E, cs, 0), ("X", "pylast", (cs.ty,))], cs)


@model("core::Iterator::try_fold", "core::Iterator::try_for_each")
def m_try_fold(E, st, avs, cs, ft):
    t = E.ty(cs.ty)
    if t["k"] != "adt" or t["path"] not in ("core::result::Result", "core::option::Option", "core::ops::control_flow::ControlFlow"):
        raise Imprecise("try_fold into " + str(t.get("path")))
    good = 1 if t["path"].endswith("Option") else 0
    it = avs[0] if avs[0][0] != "R" else ("X", "byref", (avs[0],))
    fold = ft["name"].endswith("try_fold")
    return E.push(st, synth(E, f"{'try_fold' if fold else 'try_each'}{good}"), [it, avs[1] if fold else UNIT, avs[-1]], cs, _k_typed, (cs.ty,))


def _k_typed(E, st, rv, kd, cs):
    return [(st, ("A", kd[0], rv[2], rv[3]) if rv[0] == "A" and rv[1] is None else rv)]


def ilen(E, st, it):
    """length of an iterator of known extent, else None"""
    if is_range(E, it) and len(it[3]) == 2:
        return it[3][1] - it[3][0]
    if it[0] != "X":
        return None
    k, f = it[1], it[2]
    if k in ("siter", "viter"):
        return f[2] - f[1]
    if k == "windows":
        return f[3] - f[2] - f[1] + 1
    if k in ("map", "copied", "rev", "enumerate", "inspect"):
        return ilen(E, st, f[0])
    return None


@model("core::repeat::repeat", "core::iter::repeat", "core::repeat")
def m_repeat(E, st, avs, cs, ft):
    return ("X", "repeat", (avs[0],))


@model("core::repeat_n::repeat_n", "core::iter::repeat_n", "core::repeat_n")
def m_repeat_n(E, st, avs, cs, ft):
    return ("X", "take", (("X", "repeat", (avs[0],)), E.asint(st, avs[1])))


def repeated(E, st, it):
    """segments of the first n of an endless repetition of a number"""
    if it[0] == "X" and it[1] == "take" and it[2][0][0] == "X" and it[2][0][1] == "repeat" and isinstance(it[2][0][2][0], Lin):
        return ((it[2][1], "f", it[2][0][2][0], None),)
    return None


@model("core::ExactSizeIterator::len")
def m_ilen(E, st, avs, cs, ft):
    it = E.read(st, E.deref(st, avs[0]))
    n = ilen(E, st, it)
    if n is None:
        raise Imprecise("iterator length")
    return n


def ielem(E, st, it, i):
    """i-th item for pure positional iterators, else None"""
    if is_range(E, it):
        return it[3][0] + i
    if it[0] != "X":
        return None
    k, f = it[1], it[2]
    if k == "siter":
        return ("R", f[0][1], E._idx(f[0][2], f[1] + i))
    if k == "viter":
        return E.elem(st, f[0], f[1] + i)
    if k == "windows":
        return slice_ref(E, (f[0][1], f[0][2]), f[2] + i, f[1])
    if k == "copied":
        e = ielem(E, st, f[0], i)
        return None if e is None else E.read(st, E.deref(st, e))
    if k == "enumerate":
        e = ielem(E, st, f[0], i)
        return None if e is None else tup(f[1] + i, e)
    return None


# --- whole-iterator consumers, expressed as loops over next()
SYNTH = {}


class SynthBody:
    """a small loop written directly in the engine's block form"""
    local = True

    def __init__(self, name, argc, nlocals, blocks, heads, live):
        self.key = "synth::" + name
        self.kind = "fn"
        self.name = "synth::" + name
        self.path = self.name
        self.argc = argc
        self.spread = None
        self.span = None
        self.locals = [[None, None]] * nlocals
        self.blocks = blocks
        self.heads = heads
        self.live_in = live
        self.crate = None
        self.succs = None


def run_synth(E, st, name, args, cs):
    """push a consumer loop: _1 = state/accumulator args, see table"""
    return E.push(st, synth(E, name), args, cs)


def synth(E, name):
    from facts import Body
    key = (id(E.crate), name)
    b = SYNTH.get(key)
    if b is None:
        b = Body("synth::" + name, synth_body(name), E.crate)
        SYNTH[key] = b
    return b


def _blk(s, t):
    return {"s": s, "t": t, "sp": None, "cl": False}


def synth_body(name):
    """locals: _0 ret, _1.. args; calls use ['py', fn] operands"""
    def C(l):
        return ["c", [l, []]]

    def MV(l):
        return ["m", [l, []]]

    def call(fn, args, dest, target):
        return ["call", ["py", fn], args, [dest, []], target]
    if name == "fold":        # it, acc, f
        blocks = [
            _blk([], ["goto", 1]),
            _blk([["=", [4, []], ["ref", "mut", [1, []]], None]], call("next", [MV(4)], 5, 2)),
            _blk([["=", [6, []], ["disc", [5, []]], None]], ["sw", C(6), [["0", 4]], 3]),
            _blk([["=", [7, []], ["use", C2(5, 1, 0)], None]], call("call2", [C(3), MV(2), MV(7)], 2, 1)),
            _blk([["=", [0, []], ["use", MV(2)], None]], ["ret"]),
        ]
        return dict(kind="fn", name="synth::fold", path="synth::fold", local=True, argc=3, spread=None, span=None, locals=[[None, None]] * 8, blocks=blocks)
    if name == "for_each":    # it, f
        blocks = [
            _blk([], ["goto", 1]),
            _blk([["=", [4, []], ["ref", "mut", [1, []]], None]], call("next", [MV(4)], 5, 2)),
            _blk([["=", [6, []], ["disc", [5, []]], None]], ["sw", C(6), [["0", 4]], 3]),
            _blk([["=", [7, []], ["use", C2(5, 1, 0)], None]], call("call1", [C(2), MV(7)], 3, 1)),
            _blk([], call("unit", [], 0, 5)),
            _blk([], ["ret"]),
        ]
        return dict(kind="fn", name="synth::for_each", path="synth::for_each", local=True, argc=2, spread=None, span=None, locals=[[None, None]] * 8, blocks=blocks)
    if name == "extend":      # vec ref, it
        blocks = [
            _blk([], ["goto", 1]),
            _blk([["=", [4, []], ["ref", "mut", [2, []]], None]], call("next", [MV(4)], 5, 2)),
            _blk([["=", [6, []], ["disc", [5, []]], None]], ["sw", C(6), [["0", 4]], 3]),
            _blk([["=", [7, []], ["use", C2(5, 1, 0)], None]], call("push", [C(1), MV(7)], 3, 1)),
            _blk([], call("unit", [], 0, 5)),
            _blk([], ["ret"]),
        ]
        return dict(kind="fn", name="synth::extend", path="synth::extend", local=True, argc=2, spread=None, span=None, locals=[[None, None]] * 8, blocks=blocks)
    if name == "collect":     # it, empty vec
        blocks = [
            _blk([], ["goto", 1]),
            _blk([["=", [4, []], ["ref", "mut", [1, []]], None]], call("next", [MV(4)], 5, 2)),
            _blk([["=", [6, []], ["disc", [5, []]], None]], ["sw", C(6), [["0", 4]], 3]),
            _blk([["=", [7, []], ["use", C2(5, 1, 0)], None], ["=", [8, []], ["ref", "mut", [2, []]], None]], call("push", [MV(8), MV(7)], 3, 1)),
            _blk([["=", [0, []], ["use", MV(2)], None]], ["ret"]),
        ]
        return dict(kind="fn", name="synth::collect", path="synth::collect", local=True, argc=2, spread=None, span=None, locals=[[None, None]] * 9, blocks=blocks)
    def body(n, args, blocks):
        return dict(kind="fn", name="synth::" + name, path="synth::" + name, local=True, argc=args, spread=None, span=None, locals=[[None, None]] * n,
                    blocks=blocks)
    if name in ("next_filter", "next_skip_while"):      # it, f -> (it, unit, item)
        yes, no = (6, 1) if name == "next_filter" else (1, 6)
        return body(10, 2, [
            _blk([], ["goto", 1]),
            _blk([["=", [4, []], ["ref", "mut", [1, []]], None]], call("next", [MV(4)], 5, 2)),
            _blk([["=", [6, []], ["disc", [5, []]], None]], ["sw", C(6), [["0", 5]], 3]),
            _blk([["=", [7, []], ["use", C2(5, 1, 0)], None], ["=", [8, []], ["ref", "shared", [7, []]], None]], call("call1", [C(2), C(8)], 9, 4)),
            _blk([], ["sw", C(9), [["0", no]], yes]),
            _blk([], call("triple", [MV(1)], 0, 7)),
            _blk([], call("triple", [MV(1), MV(7)], 0, 7)),
            _blk([], ["ret"]),
        ])
    if name == "next_filter_map":
        return body(11, 2, [
            _blk([], ["goto", 1]),
            _blk([["=", [4, []], ["ref", "mut", [1, []]], None]], call("next", [MV(4)], 5, 2)),
            _blk([["=", [6, []], ["disc", [5, []]], None]], ["sw", C(6), [["0", 5]], 3]),
            _blk([["=", [7, []], ["use", C2(5, 1, 0)], None]], call("call1", [C(2), MV(7)], 9, 4)),
            _blk([["=", [10, []], ["disc", [9, []]], None]], ["sw", C(10), [["0", 1]], 6]),
            _blk([], call("triple", [MV(1)], 0, 7)),
            _blk([["=", [7, []], ["use", C2(9, 1, 0)], None]], call("triple", [MV(1), MV(7)], 0, 7)),
            _blk([], ["ret"]),
        ])
    if name == "next_flat":      # it, current, f
        return body(12, 3, [
            _blk([], ["goto", 1]),
            _blk([["=", [4, []], ["ref", "mut", [2, []]], None]], call("curnext", [MV(4)], 5, 2)),
            _blk([["=", [6, []], ["disc", [5, []]], None]], ["sw", C(6), [["0", 3]], 7]),
            _blk([["=", [4, []], ["ref", "mut", [1, []]], None]], call("next", [MV(4)], 8, 4)),
            _blk([["=", [6, []], ["disc", [8, []]], None]], ["sw", C(6), [["0", 8]], 5]),
            _blk([["=", [9, []], ["use", C2(8, 1, 0)], None]], call("flat1", [C(3), MV(9)], 10, 6)),
            _blk([], call("toiter", [MV(10)], 2, 1)),
            _blk([["=", [7, []], ["use", C2(5, 1, 0)], None]], call("triple2", [MV(1), MV(2), MV(7)], 0, 9)),
            _blk([], call("triple2", [MV(1), MV(2)], 0, 9)),
            _blk([], ["ret"]),
        ])
    if name[:-1] in ("try_fold", "try_each"):      # it, acc, f
        good = int(name[-1])
        args = [C(3), MV(2), MV(7)] if name[:-1] == "try_fold" else [C(3), MV(7)]
        return body(11, 3, [
            _blk([], ["goto", 1]),
            _blk([["=", [4, []], ["ref", "mut", [1, []]], None]], call("next", [MV(4)], 5, 2)),
            _blk([["=", [6, []], ["disc", [5, []]], None]], ["sw", C(6), [["0", 6]], 3]),
            _blk([["=", [7, []], ["use", C2(5, 1, 0)], None]], call("call2" if name[:-1] == "try_fold" else "call1", args, 8, 4)),
            _blk([["=", [6, []], ["disc", [8, []]], None]], ["sw", C(6), [[str(good), 5]], 7]),
            _blk([["=", [2, []], ["use", C2(8, good, 0)], None]], ["goto", 1]),
            _blk([], call(f"variant{good}", [MV(2)], 0, 8)),
            _blk([["=", [0, []], ["use", MV(8)], None]], ["goto", 8]),
            _blk([], ["ret"]),
        ])
    if name in ("collect_res0", "collect_res1"):      # it, vec
        good = int(name[-1])
        return body(11, 2, [
            _blk([], ["goto", 1]),
            _blk([["=", [4, []], ["ref", "mut", [1, []]], None]], call("next", [MV(4)], 5, 2)),
            _blk([["=", [6, []], ["disc", [5, []]], None]], ["sw", C(6), [["0", 6]], 3]),
            _blk([["=", [7, []], ["use", C2(5, 1, 0)], None], ["=", [6, []], ["disc", [7, []]], None]], ["sw", C(6), [[str(good), 4]], 5]),
            _blk([["=", [8, []], ["use", C2(7, good, 0)], None], ["=", [9, []], ["ref", "mut", [2, []]], None]], call("push", [MV(9), MV(8)], 3, 1)),
            _blk([], call(f"untyped{1 - good}", [MV(7)], 0, 7)),
            _blk([], call(f"variant{good}", [MV(2)], 0, 7)),
            _blk([], ["ret"]),
        ])
    if name in ("any", "all", "position", "find"):     # it, f, idx
        # loop: next -> None: no ; Some(x): f(x) true -> yes
        item = 7
        blocks = [
            _blk([], ["goto", 1]),
            _blk([["=", [4, []], ["ref", "mut", [1, []]], None]], call("next", [MV(4)], 5, 2)),
            _blk([["=", [6, []], ["disc", [5, []]], None]], ["sw", C(6), [["0", 4]], 3]),
            _blk([["=", [7, []], ["use", C2(5, 1, 0)], None], ["=", [9, []], ["ref", "shared", [7, []]], None]],
                 call("call1", [C(2), C(9) if name == "find" else C(7)], 8, 5)),
            _blk([], call("no_" + name, [], 0, 8)),
            _blk([], ["sw", C(8), [["0", 6 if name != "all" else 7]], 7 if name != "all" else 6]),
            _blk([], call("inc", [MV(3)], 3, 1)),
            _blk([], call("yes_" + name, [C(3), C(7)], 0, 8)),
            _blk([], ["ret"]),
        ]
        return dict(kind="fn", name="synth::" + name, path="synth::" + name, local=True, argc=3, spread=None, span=None, locals=[[None, None]] * 10, blocks=blocks)
    raise KeyError(name)


def C2(l, v, f):
    return ["c", [l, [["V", v], ["F", f, None]]]]


PY = {}


def py(name):
    def d(f):
        PY[name] = f
        return f
    return d


@py("next")
def _p_next(E, st, avs, cs):
    loc = E.deref(st, avs[0])
    return inext(E, st, E.read(st, loc), cs, _k_next, loc)


@py("call1")
def _p_call1(E, st, avs, cs):
    return E.call_value(st, avs[0], [avs[1]], cs)


@py("call2")
def _p_call2(E, st, avs, cs):
    return E.call_value(st, avs[0], [avs[1], avs[2]], cs)


@py("unit")
def _p_unit(E, st, avs, cs):
    return [(st, UNIT)]


@py("push")
def _p_push(E, st, avs, cs):
    grow(E, st, avs[0], ((ONE, "v", (avs[1],), None),), "push")
    return [(st, UNIT)]


PY["triple"] = lambda E, st, avs, cs: [(st, tup(avs[0], UNIT, some(avs[1]) if len(avs) > 1 else NONE))]
PY["triple2"] = lambda E, st, avs, cs: [(st, tup(avs[0], avs[1], some(avs[2]) if len(avs) > 2 else NONE))]
PY["variant0"] = lambda E, st, avs, cs: [(st, ("A", None, 0, (avs[0],)))]
PY["variant1"] = lambda E, st, avs, cs: [(st, ("A", None, 1, (avs[0],)))]
PY["toiter"] = lambda E, st, avs, cs: [(st, to_iter(E, st, avs[0]))]


@py("untyped1")
def _p_untyped1(E, st, avs, cs):
    v = E.expand(avs[0], 1, st)
    return [(st, ("A", None, 1, v[3]))]


@py("untyped0")
def _p_untyped0(E, st, avs, cs):
    return [(st, ("A", None, 0, ()))]


@py("curnext")
def _p_curnext(E, st, avs, cs):
    loc = E.deref(st, avs[0])
    it = E.read(st, loc)
    if it == UNIT:
        return [(st, NONE)]
    return inext(E, st, it, cs, _k_next, loc)


@py("flat1")
def _p_flat1(E, st, avs, cs):
    if avs[0] == UNIT:
        return [(st, avs[1])]
    return E.call_value(st, avs[0], [avs[1]], cs)


@py("inc")
def _p_inc(E, st, avs, cs):
    return [(st, avs[0] + 1)]


for _n, _v in (("any", False), ("all", True), ("position", NONE), ("find", NONE)):
    PY["no_" + _n] = (lambda v: lambda E, st, avs, cs: [(st, v)])(_v)
PY["yes_any"] = lambda E, st, avs, cs: [(st, True)]
PY["yes_all"] = lambda E, st, avs, cs: [(st, False)]
PY["yes_position"] = lambda E, st, avs, cs: [(st, some(avs[0]))]
PY["yes_find"] = lambda E, st, avs, cs: [(st, some(avs[1]))]


class PyAdd:
    pass


@model("core::Iterator::fold")
def m_fold(E, st, avs, cs, ft):
    return run_synth(E, st, "fold", [to_iter(E, st, avs[0]), avs[1], avs[2]], cs)


@model("core::Iterator::sum")
def m_sum(E, st, avs, cs, ft):
    return run_synth(E, st, "fold", [to_iter(E, st, avs[0]), ZERO, ("X", "pyadd", (cs.ty,))], cs)


@model("core::Iterator::count")
def m_count(E, st, avs, cs, ft):
    it = to_iter(E, st, avs[0])
    n = ilen(E, st, it)
    if n is not None:
        return n
    return run_synth(E, st, "fold", [it, ZERO, ("X", "pycount", ())], cs)


@model("core::Iterator::for_each")
def m_for_each(E, st, avs, cs, ft):
    return run_synth(E, st, "for_each", [to_iter(E, st, avs[0]), avs[1]], cs)


@model("core::Iterator::any", "core::Iterator::all", "core::Iterator::position", "core::Iterator::find")
def m_any(E, st, avs, cs, ft):
    it = avs[0]
    if it[0] == "R":
        it = E.read(st, E.deref(st, it))
    return run_synth(E, st, ft["name"].rsplit("::", 1)[1], [it, avs[1], ZERO], cs)


@model("core::Iterator::collect", "core::FromIterator::from_iter")
def m_collect(E, st, avs, cs, ft):
    it = to_iter(E, st, avs[0])
    ety = targ(E, cs)
    t = E.ty(cs.ty) if cs.ty is not None else None
    if t is not None and not E.is_vec(t):
        if t["k"] == "adt" and t["path"] in ("core::result::Result", "core::option::Option") and E.is_vec(E.ty(t["args"][0])):
            vt = E.ty(t["args"][0])
            return E.push(st, synth(E, "collect_res%d" % (t["path"].endswith("Option"))), [it, ("V", vt["args"][0], ())], cs, _k_typed, (cs.ty,))
        raise Imprecise("collect into a non-Vec")
    r = repeated(E, st, it)
    if r is not None:
        alloc_limit(E, st, r[0][0], "collect")
        return ("V", ety, r)
    # straight copies
    s = iter_segs(E, st, it)
    if s is not None:
        if it[1] == "chain":
            alloc_limit(E, st, seglen(s), "collect")
        return ("V", ety, s)
    if it[0] == "X":
        k, f = it[1], it[2]
        if k == "map" and ilen(E, st, f[0]) is not None:
            r = collect_template(E, st, it, cs, ety)
            if r is not None:
                return r
    n = ilen(E, st, it)
    if n is not None:
        alloc_limit(E, st, n, "collect")
    return run_synth(E, st, "collect", [it, ("V", ety, ())], cs)


def collect_template(E, st, it, cs, ety):
    """map(f) over a positional iterator, f a single-path pure function"""
    n = ilen(E, st, it[2][0])
    i = sym(T("phi", "tmpl", E.site(st)), 0, ISIZE_MAX)
    s = st.fork()
    s.bt = dict(st.bt)
    item = ielem(E, s, it[2][0], lin(i))
    if item is None:
        return None
    # run the closure to completion in a scratch engine state
    mark = len(E.paths)
    saved = E.steps
    s.stack = s.stack[-1:]
    depth = len(s.stack)
    res = []

    def fin(E2, s2, rv, kd, cs2):
        res.append((s2, rv))
        return []
    nev = s.tr
    try:
        items = E.call_value(s, it[2][1], [item], cs, kont=fin, kdata=())
        work = [x for x, v in items if v is PUSHED]
        E.resume(work)
    except Imprecise:
        return None
    if len(E.paths) != mark:
        del E.paths[mark:]
        return None
    if len(res) != 1 or res[0][0].tr is not nev:
        return None
    v = res[0][1]
    # slice lengths etc. are part of the template
    return ("V", ety, ((n, "g", (i, v), ZERO),)) if n is not None else None


# ------------------------------------------------------------------ calls
@model("core::FnOnce::call_once", "core::FnMut::call_mut", "core::Fn::call")
def m_call_once(E, st, avs, cs, ft):
    f = avs[0]
    a = avs[1]
    args = list(a[3]) if a[0] == "A" else [a]
    while f[0] == "R":
        x = E.read(st, (f[1], f[2]))
        if x[0] == "A" and E.ty(x[1])["k"] == "closure":
            break
        f = x
    return E.call_value(st, f, args, cs)


# --------------------------------------------------------------- fmt etc.
for _n in ("core::Argument::new_display", "core::Argument::new_debug", "core::Argument::new_lower_hex", "core::Arguments::new", "core::Arguments::from_str",
           "core::Arguments::from_str_nonconst", "core::Arguments::new_const", "alloc::fmt::format", "alloc::format"):
    def _m(E, st, avs, cs, ft):
        return ("T", T("fmt", E.here(st)), cs.ty)
    M[_n] = _m


@model("core::Formatter::write_str", "core::Formatter::write_fmt", "core::Formatter::debug_tuple_field1_finish", "core::Formatter::debug_tuple_field2_finish",
       "core::Formatter::debug_struct_field1_finish", "core::Formatter::debug_struct_field2_finish", "core::Formatter::debug_struct_field5_finish")
def m_fmt(E, st, avs, cs, ft):
    st.ev("fmt", fn=ft["name"], args=tuple(avs))
    return E.mkval(st.fresh(E.site(st), "fmt"), cs.ty)


@model("core::intrinsics::discriminant_value")
def m_discv(E, st, avs, cs, ft):
    loc = E.deref(st, avs[0])
    v = E.read(st, loc)
    ty = cs.argtys[0]
    ty = E.ty(ty)["to"] if ty is not None and E.ty(ty)["k"] == "ref" else ty
    return E.discr(st, v, ty)


# ------------------------------------------------------------ cryptography
def crypto_fail(E, st, why):
    raise Imprecise(why)


@model("chacha20_poly1305::Key::new", "chacha20_poly1305::Nonce::new")
def m_key_new(E, st, avs, cs, ft):
    return ("T", T("key" if "Key" in ft["name"] else "nonce", bterm(avs[0][2])), cs.ty)


@model("chacha20_poly1305::ChaCha20Poly1305::new")
def m_aead_new(E, st, avs, cs, ft):
    return ("X", "aead", (avs[0], avs[1]))


def opt_bytes(E, st, v):
    """[(bytes term, state)] of an Option<&[u8]>"""
    out = []
    for var, p, s in optval(E, st, v):
        out.append((bterm(()) if var == 0 else content(E, s, p), s))
    return out


@model("chacha20_poly1305::ChaCha20Poly1305::encrypt")
def m_aead_enc(E, st, avs, cs, ft):
    out = []
    for aad, s in opt_bytes(E, st, avs[2]):
        c = deref_all(E, s, avs[0])
        k, n = c[2]
        kt, nt = valterm(k), valterm(n)
        pt = content(E, s, avs[1])
        ln = seqloc(E, s, avs[1])[1]
        ct = T("ct", kt, nt, pt)
        tag = T("tag", kt, nt, pt, aad)
        s.ev("aead_enc", key=kt, nonce=nt, pt=pt, aad=aad, len=ln, ct=ct, tag=tag, segs=segs_of(E, s, avs[1]))
        write_seq(E, s, avs[1], (tseg(ln, ct),))
        t = E.ty(cs.ty)
        out.append((s, ("Y", t.get("e"), (tseg(mk(16), tag),))))
    return out


@model("chacha20_poly1305::ChaCha20Poly1305::decrypt")
def m_aead_dec(E, st, avs, cs, ft):
    out = []
    for aad, s in opt_bytes(E, st, avs[3]):
        c = deref_all(E, s, avs[0])
        k, n = c[2]
        kt, nt = valterm(k), valterm(n)
        ct = content(E, s, avs[1])
        ln = seqloc(E, s, avs[1])[1]
        tag = bterm(avs[2][2])
        auth = T("auth", kt, nt, ct, tag, aad)
        pt = T("pt", kt, nt, ct)
        for b, s2 in fork(E, s, ("?", ("b", auth))):
            s2.ev("aead_dec", key=kt, nonce=nt, ct=ct, tag=tag, aad=aad, ok=b, pt=pt, len=ln, auth=auth, segs=segs_of(E, s2, avs[1]))
            if b:
                write_seq(E, s2, avs[1], (tseg(ln, pt),))
                out.append((s2, A(E, cs, 0, UNIT)))
            else:
                out.append((s2, A(E, cs, 1, E.mkval(s2.fresh(E.site(s2), "decerr"), errty(E, cs)) if errty(E, cs) is not None else ("T", T("decerr"), None))))
    return out


@model("chacha20_poly1305::ChaCha20::new", "chacha20_poly1305::ChaCha20::new_from_block")
def m_cc_new(E, st, avs, cs, ft):
    return ("X", "cc20", (avs[0], avs[1], E.asint(st, avs[2]) * (64 if ft["name"].endswith("block") else 1)))


@model("chacha20_poly1305::ChaCha20::seek", "chacha20_poly1305::ChaCha20::block")
def m_cc_seek(E, st, avs, cs, ft):
    loc = E.deref(st, avs[0])
    v = E.read(st, loc)
    p = E.asint(st, avs[1])
    if ft["name"].endswith("block"):
        p = p * 64
    E.write(st, loc, ("X", "cc20", (v[2][0], v[2][1], p)))
    return UNIT


@model("chacha20_poly1305::ChaCha20::apply_keystream")
def m_cc_apply(E, st, avs, cs, ft):
    loc = E.deref(st, avs[0])
    v = E.read(st, loc)
    k, n, p = v[2]
    ln = seqloc(E, st, avs[1])[1]
    segs = segs_of(E, st, avs[1])
    kt, nt = valterm(k), valterm(n)
    zero = all(s[1] == "c" and not any(s[2]) or s[1] == "f" and isinstance(s[2], Lin) and not s[2].t and s[2].c == 0 for s in segs)
    if zero:
        out = T("ks", kt, nt, p)
    else:
        out = T("xor", kt, nt, p, bterm(segs))
    st.ev("keystream", key=kt, nonce=nt, pos=p, len=ln, input=bterm(segs), out=out, raw=zero)
    write_seq(E, st, avs[1], (tseg(ln, out),))
    E.write(st, loc, ("X", "cc20", (k, n, p + ln)))
    return UNIT


@model("bitcoin_hashes::Hkdf::new")
def m_hkdf_new(E, st, avs, cs, ft):
    salt, ikm = content(E, st, avs[0]), content(E, st, avs[1])
    prk = T("prk", salt, ikm)
    st.ev("hkdf", salt=salt, ikm=ikm, prk=prk)
    return ("T", prk, cs.ty)


@model("bitcoin_hashes::Hkdf::expand")
def m_hkdf_exp(E, st, avs, cs, ft):
    prk = valterm(deref_all(E, st, avs[0]))
    info = content(E, st, avs[1])
    n = seqloc(E, st, avs[2])[1]
    okm = T("okm", prk, info, n)
    out = []
    for b, s in fork(E, st, ("?", ("b", T("hkdf_ok", n)))) if not (not n.t and n.c <= 8160) else [(True, st)]:
        s.ev("expand", prk=prk, info=info, len=n, okm=okm, ok=b)
        if b:
            write_seq(E, s, avs[2], (tseg(n, okm),))
            out.append((s, A(E, cs, 0, UNIT)))
        else:
            out.append((s, A(E, cs, 1, E.mkval(s.fresh(E.site(s), "maxlen"), errty(E, cs)))))
    return out


@model("secp256k1::ElligatorSwift::from_array")
def m_es_from(E, st, avs, cs, ft):
    return ("T", T("ellswift", bterm(avs[0][2])), cs.ty)


@model("secp256k1::ElligatorSwift::to_array")
def m_es_to(E, st, avs, cs, ft):
    t = valterm(deref_all(E, st, avs[0]))
    return ("Y", E.ty(cs.ty)["e"], (tseg(mk(64), T("es_bytes", t)),))


@model("secp256k1::ElligatorSwift::from_pubkey")
def m_es_pub(E, st, avs, cs, ft):
    return ("T", T("es_of", valterm(avs[0])), cs.ty)


@model("secp256k1::ElligatorSwift::from_seckey", "secp256k1::ElligatorSwift::new")
def m_es_sec(E, st, avs, cs, ft):
    return ("T", T("es_of", T("pubkey", valterm(avs[-2]))), cs.ty)


@model("secp256k1::PublicKey::from_secret_key")
def m_pub(E, st, avs, cs, ft):
    return ("T", T("pubkey", valterm(deref_all(E, st, avs[1]))), cs.ty)


@model("secp256k1::Secp256k1::signing_only", "secp256k1::Secp256k1::new")
def m_ctx(E, st, avs, cs, ft):
    return ("T", T("secp"), cs.ty)


@model("secp256k1::SecretKey::from_slice", "secp256k1::SecretKey::from_byte_array")
def m_sk(E, st, avs, cs, ft):
    b = content(E, st, avs[0])
    st.ev("secret_key", src=b)
    out = []
    for g, s in fork(E, st, ("?", ("b", T("valid_sk", b)))):
        out.append((s, A(E, cs, 0, ("T", T("sk", b), targ(E, cs, 0))) if g else A(E, cs, 1, E.mkval(s.fresh(E.site(s), "skerr"), errty(E, cs)))))
    return out


@model("secp256k1::ElligatorSwift::shared_secret")
def m_ecdh(E, st, avs, cs, ft):
    out = []
    for data, s in opt_bytes(E, st, avs[4]):
        party = avs[3]
        for pv, s2 in party_variants(E, s, party):
            t = T("ecdh", valterm(avs[0]), valterm(avs[1]), valterm(avs[2]), pv, data)
            s2.ev("ecdh", a=valterm(avs[0]), b=valterm(avs[1]), sk=valterm(avs[2]), party=pv, data=data, out=t)
            out.append((s2, ("T", t, cs.ty)))
    return out


def party_variants(E, st, p):
    if p[0] == "A":
        return [(p[2], st)]
    i = st.var.get(p[1])
    return [(("p", p[1]) if i is None else i, st)]


@model("secp256k1::ElligatorSwiftSharedSecret::as_secret_bytes", "secp256k1::ElligatorSwiftSharedSecret::to_secret_bytes")
def m_ss_bytes(E, st, avs, cs, ft):
    t = valterm(deref_all(E, st, avs[0]))
    return E.mkval(T("ssref", t), cs.ty)


# ------------------------------------------------------------- randomness
def m_fill_bytes(E, st, avs, cs, ft):
    loc, n = seqloc(E, st, avs[1])
    t = st.fresh(E.site(st), "rand")
    src = deref_all(E, st, avs[0])
    st.ev("rng_fill", n=n, out=t, src=valterm(src) if src is not None else None, rty=src[2] if src is not None and src[0] == "T" else None, dst=("R",) + loc)
    write_seq(E, st, avs[1], (tseg(n, t),))
    return UNIT


for _n in ("rand_core::RngCore::fill_bytes", "bip324::FillBytes::fill_bytes", "rand::Rng::fill", "rand::RngCore::fill_bytes"):
    M[_n] = m_fill_bytes


@model("rand_core::RngCore::try_fill_bytes", "rand::Rng::try_fill")
def m_try_fill(E, st, avs, cs, ft):
    t = st.fresh(E.site(st), "rngerr")
    out = []
    for b, s in fork(E, st, ("?", ("b", t))):
        if b:
            m_fill_bytes(E, s, avs, cs, ft)
            out.append((s, A(E, cs, 0, UNIT)))
        else:
            out.append((s, A(E, cs, 1, ("T", T("rngerr", t), errty(E, cs)))))
    return out


@model("rand_core::RngCore::next_u32", "rand_core::RngCore::next_u64", "rand::Rng::gen", "rand::Rng::gen_bool", "rand::Rng::gen_ratio", "rand::Rng::r#gen", "rand::random", "rand::Rng::sample")
def m_next_u(E, st, avs, cs, ft):
    t = st.fresh(E.site(st), "rnd")
    st.ev("rng", out=t)
    return E.mkval(t, cs.ty)


@model("rand::Rng::gen_range")
def m_gen_range(E, st, avs, cs, ft):
    r = avs[1]
    if r[0] == "X" and r[1] == "rinc":
        lo, hi = r[2][0], r[2][1]
    elif r[0] == "A":
        lo, hi = r[3][0], r[3][1] - 1
    else:
        raise Imprecise("gen_range argument")
    out = []
    for s in chk(E, st, mkb(("ge", hi - lo)), "gen_range: empty range"):
        t = s.fresh(E.site(s), "rnd")
        x = E.mkval(t, cs.ty)
        if isinstance(x, Lin) and isinstance(lo, Lin):
            s.assume(("ge", x - lo))
            s.assume(("ge", hi - x))
        s.ev("rng_range", lo=lo, hi=hi, out=x)
        out.append((s, x))
    return out


@model("rand::thread::thread_rng", "rand::rngs::thread::thread_rng", "rand::thread_rng", "rand_core::SeedableRng::from_entropy", "rand_core::SeedableRng::seed_from_u64", "rand_core::SeedableRng::from_seed", "rand_core::SeedableRng::from_rng")
def m_rng_new(E, st, avs, cs, ft):
    n = ft["name"].rsplit("::", 1)[1]
    t = T("rng", n, st.fresh(E.site(st), "rng"))
    st.ev("rng_new", kind=n, out=t, ty=cs.ty)
    if n == "from_rng":
        return A(E, cs, 0, ("T", t, targ(E, cs, 0)))
    return ("T", t, cs.ty)


# --------------------------------------------------------------------- I/O
def rkey(E, st, loc):
    """stream identity of the reader stored at a location"""
    v = E.read(st, loc)
    n = 0
    while v[0] == "R" and n < 4:
        loc = (v[1], v[2])
        v = E.read(st, loc)
        n += 1
    if v[0] == "T":
        return v[1], loc
    if v[0] == "X" and v[1] == "rd":
        return v[2][0][1], loc
    # a concrete reader object of this repository: name it by construction
    h = E.opts.get("wrap_reader")
    if h:
        return h(E, st, v, loc)
    t = T("sess", valterm(v))
    st.mem[("slog", t)] = logical(E, st, v)
    st.ev("sess_open", term=t, value=v, log=st.mem[("slog", t)])
    E.write(st, loc, ("T", t, v[1] if v[0] == "A" else None))
    return t, loc


def logical(E, st, v, d=0):
    """byte content a reader object will still produce: (prefix segments,
    underlying stream term, its position)"""
    vec = None
    pos = None
    rd = None

    def walk(x):
        nonlocal vec, pos, rd
        if isinstance(x, Lin):
            if pos is not None:
                raise Imprecise("reader object with several counters")
            pos = x
            return
        if isinstance(x, bool) or x is None:
            return
        if x[0] == "R":
            # borrowed buffers or readers
            y = E.read(st, (x[1], x[2]))
            walk(y)
            return
        if x[0] in ("V", "Y"):
            if vec is not None:
                raise Imprecise("reader object with several buffers")
            vec = x[2]
            return
        if x[0] == "T":
            if rd is not None:
                raise Imprecise("reader object with several sources")
            rd = x[1]
            return
        if x[0] in ("A", "X"):
            f = x[3] if x[0] == "A" else x[2]
            for y in f:
                if isinstance(y, (tuple, Lin, bool)):
                    walk(y)
    walk(v)
    segs = vec or ()
    p = pos if pos is not None else ZERO
    n = seglen(segs)
    if st.le(p, n):
        segs = E.sub(st, segs, p, n - p)
    elif p.t or p.c:
        raise Imprecise("reader object position")
    if rd is None:
        raise Imprecise("reader object without a source")
    return ("A", None, 0, (("Y", None, norm_segs(segs)), ("T", rd, None), spos(E, st, rd)))


def spos(E, st, key):
    v = st.mem.get(("spos", key))
    if v is None:
        v = ZERO
        st.mem[("spos", key)] = v
    return v


def stream_take(E, st, key, n):
    p = spos(E, st, key)
    st.mem[("spos", key)] = p + n
    return (tseg(n, T("strm", key), p),)


def io_read_exact(E, st, rref, bref, cs, mk_ok, mk_err):
    """exactly len(buf) bytes or an error (buffer then unspecified)"""
    loc = E.deref(st, rref)
    key, loc = rkey(E, st, loc)
    n = seqloc(E, st, bref)[1]
    out = []
    s = st.fork()
    pre = spos(E, s, key)
    data = stream_take(E, s, key, n)
    s.ev("read_exact", key=key, pos=pre, n=n, ok=True)
    write_seq(E, s, bref, data)
    out.append((s, mk_ok(s, n)))
    s = st
    e = ioerr(E, s, cs, None)
    s.ev("read_exact", key=key, pos=pre, n=n, ok=False, err=e)
    s.mem[("spos", key)] = lin(sym(s.fresh(E.site(s), "spos"), 0, None))
    seg, _ = fresh_bytes(E, s, n, "partial")
    write_seq(E, s, bref, seg)
    out.append((s, mk_err(s, e)))
    return out


def io_read(E, st, rref, bref, cs, mk_ok, mk_err):
    """0..=len(buf) bytes (0 = end of stream), or an error with nothing read"""
    loc = E.deref(st, rref)
    key, loc = rkey(E, st, loc)
    n = seqloc(E, st, bref)[1]
    out = []
    pre = spos(E, st, key)
    # end of stream / empty buffer
    s = st.fork()
    s.ev("read", key=key, pos=pre, n=ZERO, cap=n, ok=True)
    out.append((s, mk_ok(s, ZERO)))
    # some bytes
    s = st.fork()
    k = lin(sym(s.fresh(E.site(s), "nread"), 0, ISIZE_MAX))
    try:
        s.assume(("ge", k - 1))
        s.assume(("ge", n - k))
        data = stream_take(E, s, key, k)
        s.ev("read", key=key, pos=pre, n=k, cap=n, ok=True)
        bl, _ = seqloc(E, s, bref)
        write_seq(E, s, slice_ref(E, bl, ZERO, k), data)
        out.append((s, mk_ok(s, k)))
    except Infeasible:
        pass
    s = st
    e = ioerr(E, s, cs, None)
    s.ev("read", key=key, pos=pre, n=ZERO, cap=n, ok=False, err=e)
    out.append((s, mk_err(s, e)))
    return out


def wkey(E, st, ref):
    loc = E.deref(st, ref)
    v = E.read(st, loc)
    n = 0
    while v[0] == "R" and n < 4:
        loc = (v[1], v[2])
        v = E.read(st, loc)
        n += 1
    return valterm(v)


def io_write_all(E, st, wref, bref, cs, mk_ok, mk_err):
    key = wkey(E, st, wref)
    data = content(E, st, bref)
    segs = segs_of(E, st, bref)
    s = st.fork()
    s.ev("write_all", key=key, data=data, segs=segs, n=seglen(segs), ok=True)
    e = ioerr(E, st, cs, None)
    st.ev("write_all", key=key, data=data, segs=segs, n=seglen(segs), ok=False, err=e)
    return [(s, mk_ok(s, UNIT)), (st, mk_err(st, e))]


def io_write(E, st, wref, bref, cs, mk_ok, mk_err):
    key = wkey(E, st, wref)
    segs = segs_of(E, st, bref)
    n = seglen(segs)
    s = st.fork()
    k = lin(sym(s.fresh(E.site(s), "nwritten"), 0, ISIZE_MAX))
    s.assume(("ge", n - k))
    s.ev("write", key=key, segs=segs, n=k, ok=True)
    e = ioerr(E, st, cs, None)
    st.ev("write", key=key, segs=segs, n=ZERO, ok=False, err=e)
    return [(s, mk_ok(s, k)), (st, mk_err(st, e))]


def io_flush(E, st, wref, bref, cs, mk_ok, mk_err):
    key = wkey(E, st, wref)
    s = st.fork()
    s.ev("flush", key=key, ok=True)
    e = ioerr(E, st, cs, None)
    st.ev("flush", key=key, ok=False, err=e)
    return [(s, mk_ok(s, UNIT)), (st, mk_err(st, e))]


IO = {"read_exact": io_read_exact, "read": io_read, "write_all": io_write_all, "write": io_write, "flush": io_flush}


def sync_io(op):
    def f(E, st, avs, cs, ft):
        ety = errty(E, cs)

        def mo(s, v):
            return A(E, cs, 0, UNIT if op == "read_exact" else v)

        def me(s, e):
            return A(E, cs, 1, ("T", e[1], ety))
        return IO[op](E, st, avs[0], avs[1] if len(avs) > 1 else None, cs, mo, me)
    return f


for _op in IO:
    for _p in ("alloc::Read::", "std::Read::", "core::Read::", "std::io::Read::", "core::Write::", "std::Write::", "alloc::Write::"):
        M[_p + _op] = sync_io(_op)


def m_chain_read(E, st, avs, cs, ft):
    """Chain<Cursor<Vec>, R>::read / Cursor::read"""
    loc = E.deref(st, avs[0])
    v = E.read(st, loc)
    if v[0] == "T":
        v = chain_value(E, st, v)
        E.write(st, loc, v)
    if v[0] != "X" or v[1] not in ("chain", "cursor"):
        return sync_io("read")(E, st, avs, cs, ft)
    n = seqloc(E, st, avs[1])[1]
    out = []
    cur = v if v[1] == "cursor" else v[2][0]
    vec, pos = cur[2]
    m = seglen(vec[2])
    for b, s in fork(E, st, mkb(("ge", m - pos - 1))):
        if b:
            for g, s2 in fork(E, s, mkb(("ge", n - (m - pos)))):
                k = m - pos if g else n
                data = E.sub(s2, vec[2], pos, k)
                bl, _ = seqloc(E, s2, avs[1])
                write_seq(E, s2, slice_ref(E, bl, ZERO, k), data)
                nc = ("X", "cursor", (vec, pos + k))
                E.write(s2, loc, nc if v[1] == "cursor" else ("X", "chain", (nc, v[2][1])))
                s2.ev("buf_read", n=k)
                out.append((s2, A(E, cs, 0, k)))
        elif v[1] == "cursor":
            out.append((s, A(E, cs, 0, ZERO)))
        else:
            # falls through to the second reader (empty buffers too)
            rloc = (loc[0], loc[1] + (1,))
            out += sync_io("read")(E, s, [("R",) + rloc, avs[1]], cs, ft)
    return out


def chain_value(E, st, v):
    """structure of an opaque Chain<Cursor<Vec<u8>>, R>"""
    t = E.ty(v[2]) if v[2] is not None else None
    if t is None or t["k"] != "adt":
        return v
    if t["path"].endswith("::Chain"):
        a, b = t["args"][:2]
        return ("X", "chain", (chain_value(E, st, E.mkval(T("f", v[1], "chain", 0), a)), E.mkval(T("f", v[1], "chain", 1), b)))
    if t["path"].endswith("::Cursor"):
        vec = E.mkval(T("f", v[1], "cursor", 0), t["args"][0])
        pos = lin(sym(T("f", v[1], "cursor", 1), 0, ISIZE_MAX))
        return ("X", "cursor", (vec, pos))
    return v


M["alloc::<Chain as Read>::read"] = m_chain_read
M["std::<Chain as Read>::read"] = m_chain_read
M["core::<Chain as Read>::read"] = m_chain_read
M["alloc::<Cursor as Read>::read"] = m_chain_read
M["std::<Cursor as Read>::read"] = m_chain_read


@model("core::Cursor::new", "std::Cursor::new", "alloc::Cursor::new")
def m_cursor(E, st, avs, cs, ft):
    return ("X", "cursor", (avs[0], ZERO))


def cursor_at(E, st, r):
    """the cursor a reference designates, with its structure: (place, value)"""
    loc = E.deref(st, r) if r[0] in ("R", "T") else None
    v = E.read(st, loc) if loc else r
    while v[0] == "R":
        loc = (v[1], v[2])
        v = E.read(st, loc)
    if v[0] == "T":
        v = chain_value(E, st, v)
        if loc:
            E.write(st, loc, v)
    if v[0] != "X" or v[1] != "cursor":
        raise Imprecise("cursor of unknown structure")
    return loc, v


@model("core::Cursor::position", "std::Cursor::position", "alloc::Cursor::position")
def m_cursor_pos(E, st, avs, cs, ft):
    return cursor_at(E, st, avs[0])[1][2][1]


@model("core::Cursor::set_position", "std::Cursor::set_position", "alloc::Cursor::set_position")
def m_cursor_set(E, st, avs, cs, ft):
    loc, v = cursor_at(E, st, avs[0])
    E.write(st, loc, ("X", "cursor", (v[2][0], avs[1])))
    return UNIT


@model("core::Cursor::get_ref", "core::Cursor::get_mut", "std::Cursor::get_ref", "std::Cursor::get_mut", "alloc::Cursor::get_ref", "alloc::Cursor::get_mut")
def m_cursor_ref(E, st, avs, cs, ft):
    loc, v = cursor_at(E, st, avs[0])
    return ("R", loc[0], loc[1] + (0,))


@model("core::Cursor::into_inner", "std::Cursor::into_inner", "alloc::Cursor::into_inner")
def m_cursor_inner(E, st, avs, cs, ft):
    return cursor_at(E, st, avs[0])[1][2][0]


@model("alloc::Read::chain", "std::Read::chain", "core::Read::chain")
def m_chain(E, st, avs, cs, ft):
    return ("X", "chain", (avs[0], avs[1]))


@model("core::Error::new", "alloc::Error::new", "std::Error::new", "core::Error::other", "alloc::Error::other")
def m_err_new(E, st, avs, cs, ft):
    kind = avs[0] if len(avs) > 1 else None
    return ("T", T("ioerror_new", valterm(kind) if kind is not None else "other"), cs.ty)


@model("core::Error::kind", "alloc::Error::kind", "std::Error::kind")
def m_err_kind(E, st, avs, cs, ft):
    v = deref_all(E, st, avs[0])
    t = valterm(v)
    if t.op == "ioerror_new" and not isinstance(t.args[0], str) and t.args[0].op == "A":
        return ("A", cs.ty, t.args[0].args[0], ())
    return E.mkval(T("kind", t), cs.ty)


# ------------------------------------------------------------------- futures
def fut_ctor(op):
    def f(E, st, avs, cs, ft):
        st.ev("fut_new", io=op)
        return ("X", "fut", (op,) + tuple(avs) + (cs.ty,))
    return f


for _op in IO:
    M["tokio::AsyncReadExt::" + _op] = fut_ctor(_op)
    M["tokio::AsyncWriteExt::" + _op] = fut_ctor(_op)
M["core::IntoFuture::into_future"] = lambda E, st, avs, cs, ft: avs[0]


@model("core::Pin::new_unchecked", "core::Pin::new", "core::Pin::as_mut", "core::Pin::get_mut", "core::Pin::get_unchecked_mut", "core::Pin::into_inner", "core::Pin::as_ref", "core::Pin::get_ref")
def m_pin(E, st, avs, cs, ft):
    v = avs[0]
    t = E.ty(cs.ty) if cs.ty is not None else None
    if v[0] == "A" and v[1] is not None and E.ty(v[1])["k"] == "adt" and E.ty(v[1])["path"] == "core::pin::Pin":
        v = v[3][0]
    if ft["name"].endswith("as_mut") and v[0] == "R":
        x = E.read(st, (v[1], v[2]))
        if x[0] == "A" and x[1] is not None and E.ty(x[1])["k"] == "adt" and E.ty(x[1])["path"] == "core::pin::Pin":
            v = x[3][0]
    if t is not None and t["k"] == "adt" and t["path"] == "core::pin::Pin":
        return ("A", cs.ty, 0, (v,))
    return v


@model("core::future::get_context")
def m_ctx2(E, st, avs, cs, ft):
    return E.mkval(T("task_context"), cs.ty)


def unpin(E, st, v):
    while v[0] == "A" and len(v[3]) == 1 and v[3][0] is not None and v[3][0][0] in ("R", "A"):
        v = v[3][0]
    return v


@model("core::Future::poll")
def m_poll(E, st, avs, cs, ft):
    loc = E.deref(st, unpin(E, st, avs[0]))
    v = E.read(st, loc)
    n = 0
    while v[0] in ("R",) and n < 4:
        loc = (v[1], v[2])
        v = E.read(st, loc)
        n += 1
    return poll_value(E, st, v, loc, avs, cs, ft)


def poll_value(E, st, v, loc, avs, cs, ft):
    if v[0] == "X" and v[1] == "fut":
        f = v[2]
        op = f[0]
        # not ready: nothing observable happens
        p = st.fork()
        p.ev("pending", io=op, among=among(st))
        if op in ("read_exact", "write_all", "write"):
            p.ev("pending_partial", io=op)
        out = [(p, A(E, cs, 1))]
        rt = targ(E, cs)
        ety = E.ty(rt)["args"][1] if rt is not None and E.ty(rt)["k"] == "adt" and len(E.ty(rt)["args"]) > 1 else None

        def mo(s, x):
            return A(E, cs, 0, ("A", rt, 0, (UNIT if op in ("write_all", "flush") else x,)))

        def me(s, e):
            return A(E, cs, 0, ("A", rt, 1, (("T", e[1], ety),)))
        h = FUT.get(op)
        if h:
            return out + h(E, st, v, loc, avs, cs, ft)
        out += IO[op](E, st, f[1], f[2] if len(f) > 3 else None, cs, mo, me)
        return out
    if v[0] == "A" and v[1] is not None and E.ty(v[1])["k"] == "coroutine":
        key = E.ty(v[1])["inst"]
        body = E.crate.body(key) if key else None
        if body is None:
            return None
        if v[2] != 0:
            raise Imprecise("re-polled coroutine")
        return E.push(st, body, [v, ("T", T("task_context"), None)], cs, kont=_k_coro, kdata=(loc,))
    if v[0] == "X" and v[1] == "pollfn":
        return E.call_value(st, v[2][0], [avs[1]], cs)
    h = E.opts.get("poll")
    if h:
        r = h(E, st, v, loc, avs, cs, ft)
        if r is not None:
            return r
    if v[0] == "X" and v[1] == "contract_fut":
        return CFUT[v[2][0]](E, st, v, loc, avs, cs, ft)
    return None


FUT = {}
CFUT = {}


def among(st):
    """polled from a closure: one of several alternatives of a select"""
    return any(fr.body.kind == "closure" for fr in st.stack)


def _k_coro(E, st, rv, kd, cs):
    return [(st, A(E, cs, 0, rv))]


@model("tokio::poll_fn::poll_fn", "core::future::poll_fn", "std::future::poll_fn")
def m_pollfn(E, st, avs, cs, ft):
    return ("X", "pollfn", (avs[0],))


@model("tokio::support::thread_rng_n")
def m_trn(E, st, avs, cs, ft):
    n = avs[0]
    x = lin(sym(st.fresh(E.site(st), "branch"), 0, None))
    st.assume(("ge", n - x - 1))
    return x


# AsyncRead on a type parameter
@model("tokio::AsyncRead::poll_read")
def m_poll_read(E, st, avs, cs, ft):
    rref = unpin(E, st, avs[0])
    buf = avs[2]
    bl = auto(E, st, buf)
    b = E.read(st, bl)
    t = st.fresh(E.site(st), "poll")
    st.ev("poll_read", key=rkey(E, st, E.deref(st, rref))[0], buf=valterm(b), out=t)
    E.write(st, bl, ("T", st.fresh(E.site(st), "readbuf"), b[2] if b[0] == "T" else None))
    return E.mkval(t, cs.ty)


def rb(E, st, v):
    """ReadBuf as ('X','readbuf',(filled bytes, remaining))"""
    loc = auto(E, st, v)
    b = E.read(st, loc)
    if b[0] == "T":
        b = ("X", "readbuf", (("Y", None, ()), lin(sym(T("rb_remaining", b[1]), 0, ISIZE_MAX))))
        E.write(st, loc, b)
    return loc, b


@model("tokio::ReadBuf::remaining")
def m_rb_rem(E, st, avs, cs, ft):
    return rb(E, st, avs[0])[1][2][1]


@model("tokio::ReadBuf::capacity")
def m_rb_cap(E, st, avs, cs, ft):
    l, b = rb(E, st, avs[0])
    c = lin(sym(st.fresh(E.site(st), "rbcap"), 0, ISIZE_MAX))
    st.assume(("ge", c - b[2][1]))
    return c


@model("tokio::ReadBuf::put_slice")
def m_rb_put(E, st, avs, cs, ft):
    l, b = rb(E, st, avs[0])
    n = seqloc(E, st, avs[1])[1]
    out = []
    for s in chk(E, st, mkb(("ge", b[2][1] - n)), "ReadBuf::put_slice overflow"):
        segs = segs_of(E, s, avs[1])
        s.ev("put_slice", segs=segs, n=n)
        E.write(s, l, ("X", "readbuf", (("Y", None, norm_segs(tuple(b[2][0][2]) + tuple(segs))), b[2][1] - n)))
        out.append((s, UNIT))
    return out


# --------------------------------------------------------- shared state, time
@model("alloc::Arc::new", "alloc::Rc::new", "alloc::Box::new")
def m_arc(E, st, avs, cs, ft):
    obj = ("heap", E.site(st))
    st.mem[obj] = avs[0]
    return ("X", "box" if "Box" in ft["name"] else "arc", (("R", obj, ()),))


@model("alloc::Box::new_uninit")
def m_box_uninit(E, st, avs, cs, ft):
    """vec![a, b, ..] writes the array into this box"""
    obj = ("heap", E.site(st), "uninit")
    st.mem[obj] = ("A", None, 0, (UNIT, ("A", None, 0, (UNIT,))))
    return ("X", "box", (("R", obj, ()),))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(E, st, avs, cs, ft):
    r = avs[0][2][0]
    v = E.read(st, (r[1], r[2] + (1, 0)))
    n = seglen(v[2])
    alloc_limit(E, st, n, "vec![..]")
    return ("V", v[1], v[2])


@model("core::Atomic::new", "core::AtomicU64::new", "core::AtomicBool::new")
def m_atomic(E, st, avs, cs, ft):
    return ("X", "atomic", (avs[0],))


def atomic_loc(E, st, v):
    return E.deref(st, v)


@model("core::Atomic::load")
def m_aload(E, st, avs, cs, ft):
    loc = atomic_loc(E, st, avs[0])
    x = E.mkval(st.fresh(E.site(st), "aload"), cs.ty)
    st.ev("atomic", opn="load", loc=loc, val=x, ord=avs[1])
    return x


@model("core::Atomic::store")
def m_astore(E, st, avs, cs, ft):
    loc = atomic_loc(E, st, avs[0])
    st.ev("atomic", opn="store", loc=loc, val=avs[1], ord=avs[2])
    return UNIT


for _n in ("fetch_add", "fetch_sub", "fetch_max", "fetch_min", "swap", "fetch_or", "fetch_and", "compare_exchange", "compare_exchange_weak"):
    def _m(E, st, avs, cs, ft):
        loc = atomic_loc(E, st, avs[0])
        st.ev("atomic", opn=ft["name"].rsplit("::", 1)[1], loc=loc, val=avs[1], ord=avs[-1])
        return E.mkval(st.fresh(E.site(st), "armw"), cs.ty)
    M["core::Atomic::" + _n] = _m


@model("core::Atomic::fetch_update", "core::Atomic::try_update", "core::Atomic::update")
def m_fetch_update(E, st, avs, cs, ft):
    """the closure on the value at hand; an addition is the same as fetch_add"""
    loc = atomic_loc(E, st, avs[0])
    rt = E.ty(cs.ty) if cs.ty is not None else None
    plain = ft["name"].endswith("::update")
    x = E.mkval(st.fresh(E.site(st), "aload"), cs.ty if plain else rt["args"][0])
    return E.call_value(st, avs[3], [x], cs, kont=_k_update, kdata=(loc, x, avs[1], plain))


def _k_update(E, st, rv, kd, cs):
    loc, x, order, plain = kd
    if plain:
        _updated(st, loc, x, rv, order)
        return [(st, x)]
    if rv[0] != "A":
        raise Imprecise("result of an update")
    if rv[2] == 0:
        st.ev("atomic", opn="load", loc=loc, val=x, ord=order)
        return [(st, A(E, cs, 1, x))]
    _updated(st, loc, x, rv[3][0], order)
    return [(st, A(E, cs, 0, x))]


def _updated(st, loc, x, new, order):
    d = new - x if isinstance(new, Lin) and isinstance(x, Lin) else None
    if d is not None and not any(y in dict(x.t) for y, _ in d.t):
        st.ev("atomic", opn="fetch_add", loc=loc, val=d, ord=order)
    else:
        st.ev("atomic", opn="fetch_update", loc=loc, val=new, ord=order)


@model("std::Mutex::new", "tokio::Mutex::new")
def m_mutex(E, st, avs, cs, ft):
    return ("X", "mutex", (avs[0],))


def mutex_inner(E, st, v):
    loc = E.deref(st, v)
    x = E.read(st, loc)
    if x[0] == "X" and x[1] == "mutex":
        return (loc[0], loc[1] + (0,)), loc
    obj = ("d", T("locked", valterm(x)))
    t = E.ty(x[2]) if x[0] == "T" and x[2] is not None else None
    if t is not None and t["k"] == "adt" and t["args"]:
        E.dty[obj[1]] = t["args"][0]
    else:
        st.mem.setdefault(obj, ("T", T("deref", obj[1]), None))
    return (obj, ()), loc


@model("std::Mutex::lock", "std::Mutex::try_lock")
def m_lock(E, st, avs, cs, ft):
    inner, loc = mutex_inner(E, st, avs[0])
    tr = ft["name"].endswith("try_lock")
    g = ("X", "guard", (("R",) + inner, ("R",) + loc))
    s = st.fork()
    s.ev("lock", loc=inner, tryl=tr, ok=True)
    out = [(s, A(E, cs, 0, g))]
    ety = errty(E, cs)
    vs = E.ty(ety)["variants"] if tr and ety is not None else []
    bad = ("X", "poison", (g,))
    if [v["n"] for v in vs] != ["Poisoned", "WouldBlock"]:
        vs = None
    p = st.fork() if vs else st
    p.ev("lock", loc=inner, tryl=tr, ok=False, poisoned=True)
    out.append((p, A(E, cs, 1, ("A", ety, 0, (bad,)) if vs else bad)))
    if vs:
        st.ev("lock", loc=inner, tryl=tr, ok=False, poisoned=False)
        out.append((st, A(E, cs, 1, ("A", ety, 1, ()))))
    return out


@model("std::PoisonError::into_inner")
def m_poison_into(E, st, avs, cs, ft):
    v = avs[0]
    return v[2][0] if v[0] == "X" and v[1] == "poison" else E.mkval(st.fresh(E.site(st), "inner"), cs.ty)


@model("std::PoisonError::get_ref", "std::PoisonError::get_mut")
def m_poison_get(E, st, avs, cs, ft):
    obj, path = auto(E, st, avs[0])
    return ("R", obj, path + (0,))


@model("std::functions::sleep", "std::thread::sleep", "std::sleep")
def m_sleep(E, st, avs, cs, ft):
    st.ev("sleep", dur=valterm(avs[0]))
    return UNIT


@model("std::functions::spawn", "std::thread::spawn", "std::spawn", "tokio::spawn::spawn", "tokio::spawn")
def m_spawn(E, st, avs, cs, ft):
    h = st.fresh(E.site(st), "jh")
    st.ev("spawn", fn=ft["name"], body=avs[0], out=h)
    return ("T", h, cs.ty)


@model("std::JoinHandle::join")
def m_join(E, st, avs, cs, ft):
    st.ev("join", h=valterm(avs[0]))
    return E.mkval(st.fresh(E.site(st), "join"), cs.ty)


@model("std::SystemTime::now", "std::Instant::now", "core::Duration::from_millis", "core::Duration::from_secs", "core::Duration::as_millis",
       "core::Duration::as_secs", "std::SystemTime::duration_since", "core::Duration::from_micros", "std::Instant::elapsed", "std::SystemTime::elapsed", "core::Duration::saturating_sub")
def m_time(E, st, avs, cs, ft):
    n = ft["name"].rsplit("::", 1)[1]
    if ft["name"] == "std::SystemTime::elapsed":
        return E.mkval(T("time_duration_since", st.fresh(E.site(st), "now"), valterm(deref_all(E, st, avs[0]))), cs.ty)
    if n in ("now", "elapsed"):
        return E.mkval(st.fresh(E.site(st), "now"), cs.ty)
    return E.mkval(T("time_" + n, *[valterm(deref_all(E, st, a)) for a in avs]), cs.ty)


# channels and timers (tokio)
@model("tokio::unbounded::unbounded_channel")
def m_uch(E, st, avs, cs, ft):
    t = st.fresh(E.site(st), "chan")
    ts = E.ty(cs.ty)["e"]
    return ("A", cs.ty, 0, (("T", T("tx", t), ts[0]), ("T", T("rx", t), ts[1])))


@model("tokio::oneshot::channel")
def m_osch(E, st, avs, cs, ft):
    t = st.fresh(E.site(st), "oneshot")
    ts = E.ty(cs.ty)["e"]
    return ("A", cs.ty, 0, (("T", T("tx", t), ts[0]), ("T", T("rx", t), ts[1])))


@model("tokio::UnboundedSender::send", "tokio::Sender::send")
def m_send(E, st, avs, cs, ft):
    tx = valterm(deref_all(E, st, avs[0]))
    s = st.fork()
    s.ev("chan_send", tx=tx, val=avs[1], ok=True)
    st.ev("chan_send", tx=tx, val=avs[1], ok=False)
    e = targ(E, cs, 1)
    return [(s, A(E, cs, 0, UNIT)), (st, A(E, cs, 1, avs[1] if "Sender::send" in ft["name"] and "Unbounded" not in ft["name"] else E.mkval(st.fresh(E.site(st), "senderr"), e)))]


@model("tokio::interval::interval", "tokio::time::interval")
def m_interval(E, st, avs, cs, ft):
    st.ev("interval", dur=valterm(avs[0]))
    return ("T", st.fresh(E.site(st), "interval"), cs.ty)


@model("tokio::UnboundedReceiver::recv", "tokio::Interval::tick", "tokio::UnboundedReceiver::close")
def m_recv(E, st, avs, cs, ft):
    n = ft["name"].rsplit("::", 1)[1]
    return ("X", "fut", (n, avs[0], cs.ty))


def _f_recv(E, st, v, loc, avs, cs, ft):
    key = valterm(deref_all(E, st, v[2][1]))
    rt = targ(E, cs)
    out = []
    s = st.fork()
    s.ev("recv", key=key, some=True, among=among(st))
    ity = E.ty(rt)["args"][0] if rt is not None else None
    given = E.opts.get("recv")
    if given is not None:
        out.append((s, A(E, cs, 0, ("A", rt, 1, (given,)))))
    else:
        out.append((s, A(E, cs, 0, ("A", rt, 1, (E.mkval(s.fresh(E.site(s), "cmd"), ity) if ity is not None else ("T", s.fresh(E.site(s), "cmd"), None),)))))
    st.ev("recv", key=key, some=False, among=among(st))
    out.append((st, A(E, cs, 0, ("A", rt, 0, ()))))
    return out


@model("tokio::<Receiver as Future>::poll")
def m_oneshot(E, st, avs, cs, ft):
    key = valterm(E.read(st, E.deref(st, unpin(E, st, avs[0]))))
    rt = targ(E, cs)
    p = st.fork()
    p.ev("pending", io="oneshot")
    out = [(p, A(E, cs, 1))]
    ok, er = E.ty(rt)["args"][:2]
    s = st.fork()
    v = E.mkval(T("answer", key), ok)
    s.ev("answer", key=key, ok=True, val=v)
    out.append((s, A(E, cs, 0, ("A", rt, 0, (v,)))))
    st.ev("answer", key=key, ok=False)
    out.append((st, A(E, cs, 0, ("A", rt, 1, (E.mkval(st.fresh(E.site(st), "recverr"), er),)))))
    return out


def _f_tick(E, st, v, loc, avs, cs, ft):
    st.ev("tick", among=among(st))
    rt = targ(E, cs)
    return [(st, A(E, cs, 0, E.mkval(st.fresh(E.site(st), "tick"), rt) if rt is not None else UNIT))]


FUT["recv"] = _f_recv
FUT["tick"] = _f_tick


def on_drop(E, st, v, ty, loc):
    """guards give the lock back; an operation begun and not finished is abandoned"""
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == "X":
        if v[1] == "guard":
            st.ev("unlock", loc=v[2][0][1:])
        elif v[1] == "poison":
            on_drop(E, st, v[2][0], None, None)
        elif v[1] == "contract_fut" and len(v[2]) > 2 and v[2][2]:
            st.ev("abandoned", io=v[2][0])
    elif v[0] == "A":
        for x in v[3]:
            on_drop(E, st, x, None, None)


M["@drop"] = on_drop


def any_call(E, st, avs, cs, ft):
    """fallback: families recognised by name"""
    n = ft["name"]
    if n.startswith(INT_PREFIX):
        return int_model(E, st, avs, cs, ft)
    last = n.rsplit("::", 1)[1]
    if last == "clone" and len(avs) == 1:
        return m_clone(E, st, avs, cs, ft)
    return None


M["@call"] = any_call


M["@py"] = PY
