"""Loads the MIR dump; control-flow graphs, liveness, loops."""
import json, re


class Fn:
    __slots__ = ("id", "defp", "name", "krate", "local", "kind", "args", "argc", "spread", "locals", "names", "span", "blocks",
                 "_succ", "_rpo", "_loops", "_live", "_order", "spread_ix")


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = {t["id"]: t for t in d["types"]}
        self.files = d["files"]
        self.fns = {}
        for f in d["fns"]:
            g = Fn()
            g.id = f["id"]; g.defp = f["def"]; g.name = f["name"]; g.krate = f["krate"]; g.local = f["local"]; g.kind = f["kind"]; g.args = f["args"]
            g.argc = f.get("argc"); g.spread = f.get("spread"); g.locals = f.get("locals"); g.names = f.get("names"); g.span = f.get("span")
            g.blocks = f.get("blocks")
            g._succ = g._rpo = g._loops = g._live = g._order = None
            self.fns[g.id] = g
        self.roots = d["roots"]
        self.byname = {}
        for g in self.fns.values():
            self.byname.setdefault(g.name, []).append(g)

    def find(self, rx, body=True):
        r = re.compile(rx)
        return [g for g in self.fns.values() if r.search(g.name) and (g.blocks is not None or not body)]

    def one(self, rx):
        l = self.find(rx)
        if len(l) != 1:
            raise KeyError("expected one function matching %s, found %s" % (rx, [g.name for g in l][:5]))
        return l[0]

    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        return self.types[i]["name"]

    def field_index(self, tyid, name, variant=0):
        for i, (n, t) in enumerate(self.types[tyid]["variants"][variant]["fields"]):
            if n == name:
                return i
        raise KeyError("%s has no field %s" % (self.types[tyid]["name"], name))

    def type_by_path(self, path):
        return [t for t in self.types.values() if t.get("path") == path]

    def src(self, sp):
        return "%s:%d" % (self.files[sp[0]], sp[1]) if sp else "?"

    # ---------------------------------------------------------------- cfg
    def cfg(self, f):
        if f._rpo is not None:
            return
        n = len(f.blocks)
        sc = [succs(b["t"]) for b in f.blocks]
        # prune empty goto-only unwinding never present in succs
        f._succ = sc
        seen = [False] * n
        post = []
        st = [(0, iter(sc[0]))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(sc[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        f._rpo = {b: i for i, b in enumerate(rpo)}
        f._order = rpo
        # loops: natural loops by back edges (target dominates source)
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in sc[b]:
                preds[s].append(b)
        idom = {rpo[0]: rpo[0]}
        ch = True
        num = f._rpo
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == idom[b]:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in sc[b]:
                if num[s] <= num[b]:
                    if not dom(s, b):
                        raise ValueError("irreducible loop in " + f.name)
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])
        f._loops = loops
        self.liveness(f, rpo, sc)

    def liveness(self, f, rpo, sc):
        """live-in locals per block; locals whose address is taken stay live until StorageDead"""
        addr = set()
        use = {}
        dfn = {}

        def pl(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op(o, u, d):
            if o[0] in "CM":
                pl(o[1], u, d)
        for b in rpo:
            u, d = set(), set()
            bl = f.blocks[b]
            for s in bl["s"]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("ref", "addr"):
                        p = rv[-1]
                        pl(p, u, d)
                        if "*" not in p[1]:
                            addr.add(p[0])
                    elif k in ("use", "repeat"):
                        op(rv[1], u, d)
                    elif k in ("bin", "cbin"):
                        op(rv[2], u, d); op(rv[3], u, d)
                    elif k == "un":
                        op(rv[2], u, d)
                    elif k == "cast":
                        op(rv[2], u, d)
                    elif k == "agg":
                        for o in rv[2]:
                            op(o, u, d)
                    elif k in ("discr", "len"):
                        pl(rv[1], u, d)
                    else:
                        for x in rv[1:]:
                            if isinstance(x, list) and x and x[0] in ("C", "M"):
                                op(x, u, d)
                    p = s[1]
                    if p[1]:
                        pl(p, u, d)
                    else:
                        d.add(p[0])
                elif s[0] == "sd":
                    pl(s[1], u, d)
                elif s[0] in ("sx", "sl"):
                    d.add(s[1])
            t = bl["t"]
            if t[0] == "switch":
                op(t[1], u, d)
            elif t[0] == "call":
                for o in t[2]:
                    op(o, u, d)
                if "ptr" in t[1]:
                    op(t[1]["ptr"], u, d)
                if t[3][1]:
                    pl(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif t[0] == "assert":
                op(t[1], u, d)
            elif t[0] == "return":
                u.add(0)
            use[b], dfn[b] = u, d
        live = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                out = set()
                for s in sc[b]:
                    out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        f._live = {b: frozenset(live[b] | addr) for b in rpo}
