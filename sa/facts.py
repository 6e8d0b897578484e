"""Loading of the compiler facts dumped by /verif/driver and typed helpers."""
import json
import os


class Body:
    __slots__ = ("key", "kind", "name", "path", "local", "argc", "spread", "span",
                 "locals", "blocks", "heads", "live_in", "root", "succs", "crate", "loops")

    def __init__(self, key, d, crate):
        self.key = key
        self.kind = d["kind"]
        self.name = d["name"]
        self.path = d["path"]
        self.local = d["local"]
        self.argc = d["argc"]
        self.spread = d["spread"]
        self.span = d["span"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.crate = crate
        self.succs = [succs(b["t"]) for b in self.blocks]
        self._heads()
        self._live()

    def _heads(self):
        """targets of DFS back edges (normal control flow only)."""
        heads = set()
        back = []
        state = {}
        stack = [(0, iter(self.succs[0]))]
        state[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                s = state.get(m)
                if s is None:
                    state[m] = 1
                    stack.append((m, iter(self.succs[m])))
                    break
                if s == 1:
                    heads.add(m)
                    back.append((n, m))
            else:
                state[n] = 2
                stack.pop()
        self.heads = heads
        # the blocks of each loop
        preds = [[] for _ in self.blocks]
        for n, ms in enumerate(self.succs):
            for m in ms:
                preds[m].append(n)
        self.loops = {h: {h} for h in heads}
        for n, h in back:
            todo, body = [n], self.loops[h]
            while todo:
                x = todo.pop()
                if x not in body:
                    body.add(x)
                    todo.extend(preds[x])

    def _live(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        for i, b in enumerate(self.blocks):
            u, d = use[i], dfn[i]

            def rd(l):
                if l not in d:
                    u.add(l)

            def wr(p):
                if not p[1]:
                    d.add(p[0])
                else:
                    rd(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == "I":
                        rd(e[1])
            for s in b["s"]:
                if s[0] == "=":
                    for l in rv_uses(s[2]):
                        rd(l)
                    wr(s[1])
                elif s[0] == "sd":
                    rd(s[1][0])
                elif s[0] in ("dead", "live"):
                    d.add(s[1])
            t = b["t"]
            for l in term_uses(t):
                rd(l)
            if t[0] == "call":
                wr(t[3])
            elif t[0] == "yield":
                wr(t[3])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succs[i]:
                    o |= live[s]
                if self.blocks[i]["t"][0] == "ret":
                    o.add(0)
                new = use[i] | (o - dfn[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self.live_in = live


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    if k == "drop":
        return [t[2]]
    if k == "yield":
        return [t[2]]
    return []


def op_uses(o):
    if o[0] in ("c", "m"):
        yield o[1][0]
        for e in o[1][1]:
            if isinstance(e, list) and e[0] == "I":
                yield e[1]


def pl_uses(p):
    yield p[0]
    for e in p[1]:
        if isinstance(e, list) and e[0] == "I":
            yield e[1]


def rv_uses(r):
    k = r[0]
    if k in ("use", "rep"):
        yield from op_uses(r[1])
    elif k == "ref":
        yield from pl_uses(r[2])
    elif k == "raw":
        yield from pl_uses(r[1])
    elif k == "cast":
        yield from op_uses(r[2])
    elif k == "bin":
        yield from op_uses(r[2])
        yield from op_uses(r[3])
    elif k == "un":
        yield from op_uses(r[2])
    elif k == "disc":
        yield from pl_uses(r[1])
    elif k == "agg":
        for o in r[2]:
            yield from op_uses(o)


def term_uses(t):
    k = t[0]
    if k == "sw":
        yield from op_uses(t[1])
    elif k == "drop":
        yield from pl_uses(t[1])
    elif k == "call":
        yield from op_uses(t[1])
        for a in t[2]:
            yield from op_uses(a)
    elif k == "assert":
        yield from op_uses(t[1])
        for a in t[4]:
            yield from op_uses(a)
    elif k == "yield":
        yield from op_uses(t[1])


class Crate:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.d = d
        self.name = d["crate"]
        self.types = d["types"]
        self.files = d["files"]
        self.fns = d["fns"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.consts = d["consts"]
        self._b = {}
        self.by_vpath = {}
        for f in self.fns:
            self.by_vpath.setdefault(f["vpath"], []).append(f)

    def body(self, key):
        b = self._b.get(key)
        if b is None:
            raw = self.d["bodies"].get(key)
            if raw is None:
                return None
            b = Body(key, raw, self)
            self._b[key] = b
        return b

    def ty(self, i):
        return self.types[i]

    def where(self, sp):
        if not sp:
            return "?"
        f = self.files[sp[0]]
        for p in ("/repo/",):
            if f.startswith(p):
                f = f[len(p):]
        return f"{f}:{sp[1]}"

    def find(self, pred):
        return [f for f in self.fns if pred(f)]
