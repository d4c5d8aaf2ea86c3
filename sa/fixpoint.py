"""Loop fixpoints and joins: unrolling of counter-driven loops, otherwise partitioned generalisation
(affine relations between changed locations, interval / order facts kept by elimination)."""
from fractions import Fraction
from terms import *
from state import State, Infeasible, vsubst, hull
from engine import Stuck, vshow
import terms
import engine

MAXROUNDS = 40


# ---------------------------------------------------------------- shapes
def is_leaf(v):
    return isinstance(v, (Poly, Atom, Cond, bool))


def shape(v, path, out):
    """skeleton of a value; leaves appended to out as (path, leaf)"""
    if isinstance(v, bool) or isinstance(v, Cond):
        out.append((path, v))
        return "?"
    if isinstance(v, Poly):
        out.append((path, v))
        return "#"
    if isinstance(v, Atom):
        out.append((path, v))
        return ("@", v.sort)
    if isinstance(v, tuple):
        if v and v[0] == "m":
            out.append((path, v))
            return "map"
        if v and v[0] == "it":
            r = ["it", v[1], v[3]]
            for i in (4, 5, 6, 9):
                r.append(shape(v[i], path + (i,), out) if v[i] is not None else None)
            out.append((path + (2,), v[2]))
            return tuple(r)
        return tuple(shape(x, path + (i,), out) for i, x in enumerate(v))
    return v


def put(v, path, x):
    if not path:
        return x
    i = path[0]
    return v[:i] + (put(v[i], path[1:], x),) + v[i + 1:]


def default_of(E, c):
    if c[0] == "P":
        return E.opaque("*", (c[1],), E.pointee(c[1].sort[1]))
    return None


def mapdefault(E, c, v):
    """value is still the original content of the map at that key"""
    out = []
    shape(v, (), out)
    key = (c[1], c[2])

    def base(x):
        while True:
            if isinstance(x, Poly):
                if len(x.m) != 1:
                    return None
                a = x.atom()
                if a is None:
                    return None
                x = a
            if isinstance(x, Cond):
                if x.op != "atom":
                    return None
                x = x.args[0]
            if not isinstance(x, Atom):
                return None
            if x.op == "mapval":
                return x
            if x.op in (".", "num", "scale", "*"):
                x = x.args[0]
                continue
            return None
    paths = set()
    for p, l in out:
        if isinstance(l, tuple):
            return False
        if isinstance(l, Poly) and l.const() is not None:
            if l.const() == 12 and p:       # scale of an opaque decimal
                continue
            return False
        b = base(l)
        if b is None or b.args[0] is not c[1] or b.args[1] is not c[2]:
            return False
        # each leaf must sit at its own place: rebuild and compare
    return E_same_default(E, c, v)


def E_same_default(E, c, v):
    t = None
    # find the value type through any leaf
    out = []
    shape(v, (), out)
    for p, l in out:
        a = l
        while True:
            if isinstance(a, Poly):
                a = a.atom()
            elif isinstance(a, Cond):
                a = a.args[0] if a.op == "atom" else None
            if a is None or not isinstance(a, Atom):
                break
            if a.op == "mapval":
                t = a.sort
                break
            a = a.args[0]
        if t:
            break
    if t is None or t[0] != "o":
        if isinstance(v, Poly):
            at = v.atom()
            return at is not None and at.op == "mapval"
        return False
    return E.opaque("mapval", (c[1], c[2]), t[1]) == v


def clean(E, st):
    """drop cells that only cache unread memory"""
    env = st.env
    for c in [c for c in env if c[0] in ("P", "M", "C")]:
        v = env[c]
        if c[0] == "C":
            del env[c]
        elif c[0] == "P":
            try:
                if v == default_of(E, c):
                    del env[c]
            except Stuck:
                pass
        elif c[0] == "M" and mapdefault(E, c, v):
            del env[c]
    # boxed temporaries made inside the current loop that nothing refers to any more
    new = [c for c in env if c[0] == "H" and c[1] > E.hmark]
    if new:
        live, todo = set(), [v for c, v in env.items() if c not in new]
        while todo:
            v = todo.pop()
            if isinstance(v, tuple):
                if v and v[0] == "H" and v in env and v not in live:
                    live.add(v)
                    todo.append(env[v])
                todo.extend(v)
        for c in new:
            if c not in live:
                del env[c]


def key_of(E, st):
    """(skeleton, {(cell, path): leaf})"""
    if E.on_key:
        E.on_key(E, st)
    clean(E, st)
    boolkey = E.cfg.get("boolkey")
    sk = {}
    lv = {}
    for c, v in st.env.items():
        if c[0] in ("M", "X"):
            continue
        out = []
        sk[c] = shape(v, (), out)
        for p, l in out:
            if boolkey and isinstance(l, bool):
                sk[("B", c, p)] = l          # known truth values tell partitions apart
            else:
                lv[(c, p)] = l
    return sk, lv


def leaf_at(E, st, pos):
    v = st.env.get(pos[0])
    if v is None and pos[0] not in st.env:
        v = E.cell(st, pos[0])
    for i in pos[1]:
        v = v[i]
    return v


# ---------------------------------------------------------------- linear algebra
class Rows:
    """row space dependence: rows are dict col -> coefficient"""

    def __init__(self):
        self.basis = []      # (pivot col, reduced row, combination {row id: coef})

    def add(self, rid, row):
        """returns None if independent (added) or combination {row id: coef} with row = sum coef*row_id"""
        row = dict(row)
        comb = {rid: 1}
        for piv, r, c in self.basis:
            x = row.get(piv)
            if x:
                f = Fraction(x) / r[piv]
                for k, y in r.items():
                    z = row.get(k, 0) - f * y
                    if z == 0:
                        row.pop(k, None)
                    else:
                        row[k] = z
                for k, y in c.items():
                    comb[k] = comb.get(k, 0) - f * y
        if not row:
            return {k: -v for k, v in comb.items() if k != rid and v != 0}
        piv = min(row)
        self.basis.append((piv, row, comb))
        return None


# ---------------------------------------------------------------- a covered set of states
class Cand:
    __slots__ = ("co", "inv", "op")

    def __init__(self, co, inv, op):
        self.co = co
        self.inv = inv
        self.op = op

    def key(self):
        return (tuple(sorted(self.co.items(), key=lambda kv: (str(kv[0]), kv[1]))), self.inv, self.op)

    def cond(self, E, st):
        p = st.norm(self.inv)
        for pos, c in self.co.items():
            x = leaf_at(E, st, pos)
            if not isinstance(x, Poly):
                return None
            p = p + x.scale(c)
        return {"ge": c_ge, "gt": c_gt, "ne": c_ne, "eq": c_eq}[self.op](p)


class Part:
    def __init__(self, E, st, lv, entry, wm):
        self.E = E
        self.ref = st
        self.ref0 = st.copy()           # as it came in; the reference itself is weakened later
        self.e = lv                     # leaves of the reference state
        self.entry = entry              # reference state is the (only) state entering from outside
        self.mod = []                   # modified positions in order
        self.modset = set()
        self.maps = {}                  # pos -> new map value
        self.rel = {}                   # pos -> {basis pos: coef}   (dependent positions)
        self.basis = []
        self.rows = {}                  # pos -> row over generator columns
        self.ngen = 0
        self.cands = {}
        self.dead = set()
        self.phi = {}
        self.wm = wm
        self.H = None
        self.known = st if entry else None
        self.e0 = {}
        self.rounds = 0

    # generator columns
    def add_generators(self, st, lvs):
        g = self.ngen
        self.ngen += 1
        for pos in self.mod:
            if isinstance(self.e[pos], Poly):
                d = lvs[pos] - st.norm(self.e[pos])
                row = self.rows.setdefault(pos, {})
                for mono, c in d.m.items():
                    row[(g, mono)] = c

    def solve(self):
        R = Rows()
        self.rel = {}
        self.basis = []
        for pos in self.mod:
            if isinstance(self.e[pos], Poly):
                r = R.add(pos, self.rows.get(pos, {}))
                if r is None:
                    self.basis.append(pos)
                else:
                    self.rel[pos] = r

    def includes(self, st, lvs):
        """does the generalised state cover st?  (after registering newly modified positions)"""
        ok = True
        new = []
        for pos, e in self.e.items():
            if pos in self.modset:
                continue
            x = lvs[pos]
            if x is e or x == e:
                continue
            ne = st.norm_val(e)
            if ne is x or ne == x:
                continue
            if isinstance(x, Poly) and st.decide(c_eq(x - ne)) is True:
                continue
            new.append(pos)
        if new:
            ok = False
            for pos in new:
                self.modset.add(pos)
                self.mod.append(pos)
                if isinstance(self.e[pos], tuple):       # map
                    self.maps[pos] = None
        # affine relations
        bad = False
        for pos in self.mod:
            e = self.e[pos]
            if not isinstance(e, Poly):
                continue
            if pos in self.phi and pos not in self.rel:
                continue
            if pos in new or pos not in self.rel:
                bad = True
                continue
            p = lvs[pos] - st.norm(e)
            for b, c in self.rel[pos].items():
                p = p - (lvs[b] - st.norm(self.e[b])).scale(c)
            if p.m and st.decide(c_eq(p)) is not True:
                bad = True
        if bad:
            ok = False
            self.add_generators(st, lvs)
        return ok

    def check_cands(self, st):
        ok = True
        for k, c in list(self.cands.items()):
            if k in self.dead:
                continue
            q = c.cond(self.E, st)
            if q is None or st.decide(q) is not True:
                self.dead.add(k)
                if c in self.used:
                    ok = False
        return ok

    used = ()

    def add_cand(self, co, inv, op):
        c = Cand(co, inv, op)
        k = c.key()
        if k not in self.cands and k not in self.dead and len(self.cands) < 600:
            self.cands[k] = c
            q = c.cond(self.E, self.ref0)
            if q is None or self.ref0.decide(q) is not True:
                self.dead.add(k)

    def preloop(self, x):
        return not any(i >= self.wm and ATOMS[i].op == "sym" for i in x.deps)

    def templates(self, backs):
        nums = [p for p in self.mod if isinstance(self.e[p], Poly)]
        for pos in nums:
            e = self.e[pos]
            b = self.ref.bound(e)
            self.add_cand({pos: 1}, ZERO, "ge")
            self.add_cand({pos: 1}, ZERO, "gt")
            self.add_cand({pos: -1}, ZERO, "ge")
            self.add_cand({pos: 1}, ZERO, "ne")
            if self.E.cfg.get("word"):
                self.add_cand({pos: -1}, num(self.E.cfg["word"]), "ge")
            if b[0] is not None:
                self.add_cand({pos: 1}, num(-b[0]), "ge")
            if b[2] is not None:
                self.add_cand({pos: -1}, num(b[2]), "ge")
            for st in backs[:4]:
                b = st.bound(leaf_at(self.E, st, pos))
                if b[0] is not None:
                    self.add_cand({pos: 1}, num(-b[0]), "ge")
                if b[2] is not None:
                    self.add_cand({pos: -1}, num(b[2]), "ge")
            for e in (e, self.e0.get(pos)):
                if isinstance(e, Poly) and self.preloop(e):
                    self.add_cand({pos: 1}, -e, "ge")
                    self.add_cand({pos: -1}, e, "ge")
        if len(nums) <= 10:
            for i, p in enumerate(nums):
                for q in nums[i + 1:]:
                    self.add_cand({p: 1, q: -1}, ZERO, "ge")
                    self.add_cand({p: -1, q: 1}, ZERO, "ge")
        for st in backs[:12]:
            vals = [(p, leaf_at(self.E, st, p)) for p in nums]
            vals = [(p, v) for p, v in vals if isinstance(v, Poly) and v.const() is None]
            for F, iv in list(st.facts.items()):
                for p, v in vals:
                    l = lead(v)
                    if l not in F.m:
                        continue
                    c = Fraction(F.m[l]) / v.m[l]
                    R = F - v.scale(c)
                    co = {p: c}
                    if not self.preloop(R):
                        for q, w in vals:
                            l2 = lead(w)
                            if q != p and l2 in R.m:
                                c2 = Fraction(R.m[l2]) / w.m[l2]
                                R2 = R - w.scale(c2)
                                if self.preloop(R2):
                                    co = {p: c, q: c2}
                                    R = R2
                                    break
                        else:
                            continue
                    if iv[0] is not None:
                        self.add_cand(co, R - num(iv[0]), "gt" if iv[1] else "ge")
                    if iv[2] is not None:
                        self.add_cand({k: -x for k, x in co.items()}, num(iv[2]) - R, "gt" if iv[3] else "ge")

    def build(self):
        """the generalised head state"""
        E = self.E
        self.solve()
        st = self.ref.copy()
        self.phi = {}
        new = {}
        for pos in self.mod:
            e = self.e[pos]
            if isinstance(e, Poly):
                if pos in self.rel:
                    continue
                s = REAL if pos in self.real else ("i", None, None)
                a = fresh("phi", s)
                new[pos] = pa(a)
                self.phi[pos] = a
            elif isinstance(e, (Cond, bool)):
                new[pos] = c_atom(fresh("phib", BOOL))
            elif isinstance(e, Atom):
                new[pos] = fresh("phio", e.sort)
            else:
                if self.maps.get(pos) == "keys":
                    new[pos] = ("m", fresh("map", e[1].sort), ())
                else:
                    new[pos] = ("m", app("mapv", E.newid(), proot(e[1]), sort=e[1].sort), e[2])
        for pos, r in self.rel.items():
            v = self.e[pos]
            for b, c in r.items():
                v = v + (new[b] - self.e[b]).scale(c)
            new[pos] = v
        for pos in self.mod:
            c, path = pos
            if path:
                st.env[c] = put(st.env[c], path, new[pos])
            else:
                st.env[c] = new[pos]
        # values of havocked maps are forgotten
        for pos in self.mod:
            if isinstance(self.e[pos], tuple):
                for c in [c for c in st.env if c[0] == "M" and c[1] is self.e[pos][1]]:
                    del st.env[c]
        st.cache = {}
        st.idx = None
        self.used = []
        for k, c in self.cands.items():
            if k in self.dead:
                continue
            q = c.cond(E, st)
            if q is None:
                self.dead.add(k)
                continue
            self.used.append(c)
            try:
                st.assume(q)
            except Infeasible:
                raise Stuck("contradictory loop facts")
        self.H = st
        return st

    real = frozenset()


def proot(b):
    while b.op == "mapv":
        b = b.args[1]
    return b


def written_maps(E, st, wm):
    """bases of maps with content written under keys that are not fixed before the loop"""
    out = []
    for c in st.env:
        if c[0] == "M" and c[1] not in out and any(i >= wm and ATOMS[i].op == "sym" for i in deps_of(c[2])):
            out.append(c[1])
    return out


def sort_leaf(E, part, lvs_list):
    real = set()
    for pos in part.mod:
        e = part.e[pos]
        if isinstance(e, Poly):
            if not e.is_int() or any(not l[pos].is_int() for l in lvs_list):
                real.add(pos)
    part.real = frozenset(real) | part.real


def absorb(E, part, st, lvs, wm):
    """register an incoming state; True if already covered"""
    ok = part.includes(st, lvs)
    # maps written under loop dependent keys
    for b in written_maps(E, st, wm):
        for pos, e in part.e.items():
            if isinstance(e, tuple) and e and e[0] == "m" and lvs[pos][1] is b and pos not in part.modset:
                part.modset.add(pos)
                part.mod.append(pos)
                part.maps[pos] = "vals"
                ok = False
    # content written under fixed keys
    for c in [c for c in st.env if c[0] == "M"]:
        if c[1] in written_maps(E, st, wm):
            continue
        v = st.env[c]
        if part.H is not None and part.H.env.get(c) == v:
            continue
        hv = None
        for pos, e in part.e.items():
            if isinstance(e, tuple) and e and e[0] == "m" and lvs[pos][1] is c[1]:
                if pos in part.modset:
                    hv = True
                else:
                    if part.ref.env.get(c) == v:
                        hv = True
                        continue
                    part.modset.add(pos)
                    part.mod.append(pos)
                    part.maps[pos] = "vals"
                    ok = False
                    hv = True
    for pos in part.mod:
        e = part.e[pos]
        if isinstance(e, tuple) and e and e[0] == "m":
            cur = leaf_at(E, part.H, pos) if part.H is not None else e
            if lvs[pos][2] != cur[2] and lvs[pos][2] != e[2] and part.maps.get(pos) != "keys":
                part.maps[pos] = "keys"
                ok = False
            elif part.maps.get(pos) is None:
                part.maps[pos] = "vals"
    return ok


def counter_driven(e, lvs):
    n = 0
    for pos, x in e.items():
        if isinstance(x, Poly) and pos in lvs and isinstance(lvs[pos], Poly):
            a, b = x.const(), lvs[pos].const()
            if a is not None and b is not None and a != b:
                return True
    return False


def run_loop(E, fr, head, sts):
    E.stats["loops"] += 1
    if len(sts) > E.cfg.get("loopcap", 12):
        # states are only joined in front of loops that need a fixpoint
        log0 = len(E.log)
        out = []
        for st in sts:
            r = unroll(E, fr, head, st)
            if r is None:
                break
            out.extend(r)
        else:
            return out
        del E.log[log0:]
        sts = join_states(E, sts)
    out = []
    for st in sts:
        r = unroll(E, fr, head, st)
        out.extend(fixpoint(E, fr, head, st) if r is None else r)
    return out


def body_run(E, fr, head, states):
    body = fr.fn._loops[head]
    ex = {}
    back = []
    for st in states:
        outs = E.block(fr, head, st)
        inside = {}
        for t, s in outs:
            if t == head:
                back.append(s)
            elif t != "ret" and t in body:
                inside.setdefault(t, []).append(s)
            else:
                ex.setdefault(t, []).append(s)
        for t, ss in inside.items():
            for t2, s2 in E.region_from(fr, body, t, ss, head).items():
                if t2 == head:
                    back.extend(s2)
                else:
                    ex.setdefault(t2, []).extend(s2)
    live = fr.fn._live[head]
    for s in back:
        E.trim(s, fr.depth, live)
    return E.merge(back), ex


def gc_from_here(f):
    def g(E, *a):
        old, E.hmark = E.hmark, engine.Engine._id
        try:
            return f(E, *a)
        finally:
            E.hmark = old
    return g


@gc_from_here
def unroll(E, fr, head, entry):
    """the loop run round by round while an integer counter stays known -> exits, or None"""
    limit_states = E.cfg.get("unroll_states", 40)
    cur = [entry.copy()]
    exits = {}
    sk0, e0 = key_of(E, cur[0])
    n = 0
    log0 = len(E.log)
    while True:
        back, ex = body_run(E, fr, head, [s.copy() for s in cur])
        for t, ss in ex.items():
            exits.setdefault(t, []).extend(ss)
        E.stats["loop_rounds"] += 1
        if not back:
            return [(t, s) for t, ss in exits.items() for s in ss]
        n += 1
        if n > 300 or len(back) > limit_states:
            break
        sk, e1 = key_of(E, back[0])
        if not counter_driven(e0, e1):
            break
        e0 = e1
        cur = back
    del E.log[log0:]
    return None


@gc_from_here
def fixpoint(E, fr, head, entry):
    wm = len(ATOMS)
    parts = {}
    order = []
    st0 = entry.copy()
    sk, lv = key_of(E, st0)
    k = skey(sk)
    st0.trace = (st0.trace, ("loop", fr.fn.name, head))
    p0 = Part(E, st0, lv, True, wm)
    parts[k] = p0
    order.append(k)
    p0.H = st0

    def built(p):
        p.build()
        if E.on_head:
            E.on_head(E, p.H)
    built(p0)
    for rnd in range(MAXROUNDS):
        E.stats["loop_rounds"] += 1
        log0 = len(E.log)
        allback = []
        exits = {}
        for k in list(order):
            p = parts[k]
            back, ex = body_run(E, fr, head, [p.H.copy()])
            allback.append((p, back, [x for ss in ex.values() for x in ss]))
            for t, ss in ex.items():
                exits.setdefault(t, []).extend(ss)
        changed = False
        incoming = {}
        for p, back, _ in allback:
            for s in back:
                s2 = s.copy()
                s2.trace = None
                sk, lv = key_of(E, s2)
                k = skey(sk)
                incoming.setdefault(k, []).append((s2, lv))
        for k, l in incoming.items():
            if k not in parts:
                if len(parts) >= 24:
                    raise Stuck("too many loop partitions in " + fr.fn.name)
                l.sort(key=lambda t: len(t[0].sub))
                s2, lv = l[0]
                s2.trace = (entry.trace, ("loop", fr.fn.name, head))
                parts[k] = Part(E, s2, lv, False, wm)
                parts[k].known = entry
                parts[k].e0 = p0.e
                order.append(k)
                parts[k].H = s2
                built(parts[k])
                changed = True
                l = l[1:]
            p = parts[k]
            ok = True
            for s2, lv in l:
                if not absorb(E, p, s2, lv, wm):
                    ok = False
            sort_before = p.real
            sort_leaf(E, p, [lv for _, lv in l])
            if p.real != sort_before and any(x in p.phi and p.phi[x].sort != REAL for x in p.real):
                ok = False
            if not p.entry:
                for s2, lv in l:
                    if not facts_hold(E, p, s2):
                        ok = False
                        changed = True
            if p.rounds < 4:
                n0 = len(p.cands)
                p.templates([s2 for s2, _ in l])
            for s2, lv in l:
                p.check_cands(s2)
            if any(c.key() in p.dead for c in p.used):
                ok = False
            if p.rounds < 4 and any(kk not in p.dead and c not in p.used for kk, c in p.cands.items()):
                ok = False
            p.rounds += 1
            if not ok:
                built(p)
                changed = True
        if not changed:
            if E.on_loop:
                E.on_loop(E, fr, head, [(p.H, back, ex) for p, back, ex in allback], exits, entry)
            return [(t, s) for t, ss in exits.items() for s in ss]
        del E.log[log0:]        # what was noted about states that are not final
    raise Stuck("loop fixpoint did not stabilise in " + fr.fn.name)


def facts_hold(E, p, s):
    """drop from the reference what does not hold in s"""
    ok = True
    kn = p.known
    for F, iv in list(p.ref.facts.items()):
        if kn is not None and kn.facts.get(F) == iv:
            continue
        G = s.norm(F)
        good = True
        if iv[0] is not None and s.decide((c_gt if iv[1] else c_ge)(G - num(iv[0]))) is not True:
            good = False
        if iv[2] is not None and s.decide((c_gt if iv[3] else c_ge)(num(iv[2]) - G)) is not True:
            good = False
        if not good:
            h = hull(iv, s.bound(G))
            if h[0] is None and h[2] is None:
                del p.ref.facts[F]
            else:
                p.ref.facts[F] = h
            ok = False
    for F, pts in list(p.ref.excl.items()):
        if kn is not None and kn.excl.get(F) == pts:
            continue
        keep = frozenset(x for x in pts if s.decide(c_eq(s.norm(F) - num(x))) is False)
        if keep != pts:
            if keep:
                p.ref.excl[F] = keep
            else:
                del p.ref.excl[F]
            ok = False
    for c, v in list(p.ref.bools.items()):
        if kn is not None and kn.bools.get(c) is v:
            continue
        if s.decide(s.norm(c)) is not v:
            del p.ref.bools[c]
            ok = False
    for aid, val in list(p.ref.sub.items()):
        if s.sub.get(aid) is val or (kn is not None and kn.sub.get(aid) is val):
            continue
        if same(s, ATOMS[aid], val):
            continue
        del p.ref.sub[aid]
        ok = False
    if not ok:
        p.ref.cache = {}
        p.ref.idx = None
    return ok


def same(s, a, val):
    x = s.sub.get(a.id)
    if x is None:
        x = pa(a) if isinstance(val, Poly) else c_atom(a) if isinstance(val, (Cond, bool)) else a
    v = s.norm(val) if not isinstance(val, bool) else val
    if x is v:
        return True
    if isinstance(x, Poly) and isinstance(v, Poly):
        return s.decide(c_eq(x - v)) is True
    if isinstance(x, (Cond, bool)) and isinstance(v, (Cond, bool)):
        d = s.decide(x)
        return d is not None and d is s.decide(v)
    return False


def skey(sk):
    return frozenset(sk.items())


def join_states(E, sts):
    """cover states of equal shape by one state each"""
    groups = {}
    for s in sts:
        sk, lv = key_of(E, s)
        groups.setdefault((skey(sk), s.trace, s.env.get(("X", "pre"))), []).append((s, lv))
    out = []
    for g in groups.values():
        if len(g) == 1:
            out.append(g[0][0])
            continue
        E.stats["joins"] += len(g) - 1
        ref, lv = g[0]
        ref = ref.copy()
        p = Part(E, ref, lv, False, 0)
        p.preloop = lambda x: False
        p.H = ref
        for s, l in g[1:]:
            absorb(E, p, s, l, 1 << 60)
            facts_hold(E, p, s)
        sort_leaf(E, p, [l for _, l in g])
        p.preloop = lambda x: True
        p.templates([s for s, _ in g[1:]])
        for s, _ in g[1:]:
            p.check_cands(s)
        out.append(p.build())
    return out
