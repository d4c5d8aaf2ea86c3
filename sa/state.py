"""Abstract state: store of cells + relational facts (linear forms in intervals, excluded points, boolean atoms, equalities as rewriting)."""
from fractions import Fraction
from terms import *
import terms

TOP = (None, False, None, False)     # lo, lo strict, hi, hi strict
AXIOMS = {}                          # op -> f(atom) -> list of (Poly, lo, los, hi, his)
ABOUNDS = {}                         # op -> f(state, atom, depth) -> interval


def meet(a, b):
    lo, ls, hi, hs = a
    if b[0] is not None and (lo is None or b[0] > lo or (b[0] == lo and b[1])):
        lo, ls = b[0], b[1]
    if b[2] is not None and (hi is None or b[2] < hi or (b[2] == hi and b[3])):
        hi, hs = b[2], b[3]
    return (lo, ls, hi, hs)


def hull(a, b):
    lo, ls = (None, False) if a[0] is None or b[0] is None else min((a[0], a[1]), (b[0], b[1]))
    hi, hs = (None, False) if a[2] is None or b[2] is None else (a[2], a[3] and b[3]) if a[2] == b[2] else max((a[2], a[3]), (b[2], b[3]))
    return (lo, ls, hi, hs)


def iscale(a, k, c=0):
    """interval of k*x + c"""
    lo, ls, hi, hs = a
    if k < 0:
        lo, ls, hi, hs = hi, hs, lo, ls
    return (None if lo is None else lo * k + c, ls, None if hi is None else hi * k + c, hs)


def iadd(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
    return (lo, lo is not None and (a[1] or b[1]), hi, hi is not None and (a[3] or b[3]))


def imul(a, b):
    INF = float("inf")
    xs = []
    for (x, xs_) in ((a[0], a[1]), (a[2], a[3])):
        pass
    al = (-INF if a[0] is None else a[0], a[1])
    ah = (INF if a[2] is None else a[2], a[3])
    bl = (-INF if b[0] is None else b[0], b[1])
    bh = (INF if b[2] is None else b[2], b[3])
    lo = hi = None
    for x, s in (al, ah):
        for y, t in (bl, bh):
            if x == 0 or y == 0:
                v = 0
                st = (s if x == 0 else True) and (t if y == 0 else True)
                # product reaches 0 only if the zero end point itself is reached
                if x == 0 and not s:
                    st = False
                elif y == 0 and not t:
                    st = False
                else:
                    st = True
            else:
                if abs(x) == INF or abs(y) == INF:
                    v = INF if (x > 0) == (y > 0) else -INF
                else:
                    v = x * y
                st = s or t
            xs.append((v, st))
    lov = min(v for v, _ in xs)
    los = all(s for v, s in xs if v == lov)
    hiv = max(v for v, _ in xs)
    his = all(s for v, s in xs if v == hiv)
    return (None if lov == -INF else lov, los and lov != -INF, None if hiv == INF else hiv, his and hiv != INF)


class Infeasible(Exception):
    pass


class State:
    __slots__ = ("env", "facts", "excl", "bools", "sub", "trace", "cache", "nfresh", "idx")

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.excl = {}
        self.bools = {}
        self.sub = {}
        self.trace = None
        self.cache = {}
        self.idx = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.excl = dict(self.excl)
        s.bools = dict(self.bools)
        s.sub = dict(self.sub)
        s.trace = self.trace
        s.cache = dict(self.cache)
        return s

    # -------------------------------------------------------------- events
    def event(self, *ev):
        self.trace = (self.trace, ev)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    # -------------------------------------------------------------- normalisation
    def norm(self, x):
        if not self.sub:
            return x
        for _ in range(20):
            y = subst(x, self.sub, {})
            if y is x or y == x:
                return y
            x = y
        return x

    def norm_val(self, v):
        if not self.sub:
            return v
        for _ in range(20):
            y = vsubst(v, self.sub, {})
            if y is v:
                return y
            v = y
        return v

    def rewrite(self, aid, val):
        s = {aid: val}
        memo = {}
        env = self.env
        for k, v in list(env.items()):
            nv = vsubst(v, s, memo)
            nk = k
            if k[0] == "M" or k[0] == "P":
                nk = vsubst(k, s, memo)
            if nk is not k:
                del env[k]
                env[nk] = nv
            elif nv is not v:
                env[k] = nv
        self.sub = {k: subst(v, s, memo) for k, v in self.sub.items()}
        self.sub[aid] = val
        self.trace = trace_subst(self.trace, s, memo)
        fs, ex, bs = self.facts, self.excl, self.bools
        changed = [(F, iv) for F, iv in fs.items() if aid in F.deps]
        chex = [(F, pts) for F, pts in ex.items() if aid in F.deps]
        chb = [(c, b) for c, b in bs.items() if aid in c.deps]
        self.cache = {}
        self.idx = None
        if changed:
            self.facts = {F: iv for F, iv in fs.items() if aid not in F.deps}
        if chex:
            self.excl = {F: p for F, p in ex.items() if aid not in F.deps}
        if chb:
            self.bools = {c: b for c, b in bs.items() if aid not in c.deps}
        for F, iv in changed:
            self.add_interval(subst(F, s, memo), iv)
        for F, pts in chex:
            G = subst(F, s, memo)
            for p in pts:
                self.assume(c_ne(G - num(p)), True)
        for c, b in chb:
            self.assume(subst(c, s, memo), b)

    # -------------------------------------------------------------- bounds
    def atom_bounds(self, a, depth=2):
        k = ("a", a.id)
        r = self.cache.get(k)
        if r is not None:
            return r
        self.cache[k] = TOP        # guards recursion
        if a.sort[0] == "i":
            iv = (a.sort[1], False, a.sort[2], False)
        else:
            iv = TOP
        f = self.facts.get(pa(a))
        if f is not None:
            iv = meet(iv, f)
        g = ABOUNDS.get(a.op)
        if g is not None and depth > 0:
            iv = meet(iv, g(self, a, depth - 1))
        self.cache[k] = iv
        return iv

    def mono_bounds(self, mono):
        r = (1, False, 1, False)
        for aid, e in mono:
            b = self.atom_bounds(ATOMS[aid])
            if e == 1:
                pb = b
            elif e > 0 and e % 2 == 0:
                m = imul(b, b)
                lo, ls = 0, not (b[0] is None or b[0] <= 0 <= (b[2] if b[2] is not None else 0)) or self.nonzero(pa(ATOMS[aid]))
                pb = (0, ls, None, False) if e != 2 else meet((0, ls, None, False), (None, False, m[2], m[3]) if b[0] is not None and b[2] is not None else TOP)
            elif b[0] is not None and (b[0] > 0 or (b[0] == 0 and b[1])):
                pb = (0, True, None, False)
            elif b[2] is not None and (b[2] < 0 or (b[2] == 0 and b[3])):
                pb = (None, False, 0, True) if e % 2 else (0, True, None, False)
            elif b[0] is not None and b[0] >= 0:
                pb = (0, False, None, False)
            else:
                pb = TOP
            r = imul(r, pb)
        # direct fact on the product itself
        if len(mono) > 1 or (mono and mono[0][1] != 1):
            f = self.facts.get(mk({mono: 1}))
            if f is not None:
                r = meet(r, f)
        return r

    def quick(self, p):
        """cheap interval of p"""
        k = p.const()
        if k is not None:
            return (k, False, k, False)
        ck = ("q", p.id)
        r = self.cache.get(ck)
        if r is not None:
            return r
        H, f, c = hom(p)
        r = (c, False, c, False)
        for mono, co in H.m.items():
            r = iadd(r, iscale(self.mono_bounds(mono), co * f))
            if r[0] is None and r[2] is None:
                break
        fi = self.facts.get(H)
        if fi is not None:
            r = meet(r, iscale(fi, f, c))
        self.cache[ck] = r
        return r

    def index(self):
        if self.idx is None:
            ix = {}
            for F in self.facts:
                for mono in F.m:
                    ix.setdefault(mono, []).append(F)
            self.idx = ix
        return self.idx

    def lower(self, p, depth=2, budget=None):
        """a lower bound (value, strict) of p or None"""
        q = self.quick(p)
        best = (q[0], q[1]) if q[0] is not None else None
        if depth <= 0 or p.const() is not None:
            return best
        if best is not None and (best[0] > 0 or (best[0] == 0 and best[1])):
            return best
        ck = ("l", p.id, depth)
        if ck in self.cache:
            return self.cache[ck]
        if budget is None:
            budget = [400]
        cands = []
        seen = set()
        ix = self.index()
        for mono, co in p.m.items():
            if mono == ():
                continue
            for F in ix.get(mono, ()):
                if (F, mono) in seen:
                    continue
                seen.add((F, mono))
                k = Fraction(co) / F.m[mono]
                k = k.numerator if k.denominator == 1 else k
                iv = self.facts[F]
                b = (iv[0], iv[1]) if k > 0 else (iv[2], iv[3])
                if b[0] is None:
                    continue
                R = p - F.scale(k)
                cands.append((len(R.m), R.id, R, (b[0] * k, b[1])))
            for aid, e in mono:
                ax = AXIOMS.get(ATOMS[aid].op)
                if ax is None:
                    continue
                for F, lo, ls, hi, hs in ax(self, ATOMS[aid]):
                    if mono not in F.m:
                        continue
                    k = Fraction(co) / F.m[mono]
                    k = k.numerator if k.denominator == 1 else k
                    b = (lo, ls) if k > 0 else (hi, hs)
                    if b[0] is None:
                        continue
                    R = p - F.scale(k)
                    cands.append((len(R.m), R.id, R, (b[0] * k, b[1])))
        cands.sort(key=lambda t: t[:2])
        for n, _, R, b in cands:
            if budget[0] <= 0:
                break
            budget[0] -= 1
            if n > len(p.m) + 1:
                break
            l = self.lower(R, depth - 1, budget)
            if l is None:
                continue
            v = (l[0] + b[0], l[1] or b[1])
            if best is None or v[0] > best[0] or (v[0] == best[0] and v[1] and not best[1]):
                best = v
                if best[0] > 0 or (best[0] == 0 and best[1]):
                    break
        if p.is_int() and best is not None and isinstance(best[0], Fraction):
            from math import ceil
            best = (ceil(best[0]), False)
        self.cache[ck] = best
        return best

    def bound(self, p, depth=2):
        l = self.lower(p, depth)
        u = self.lower(-p, depth)
        return (None if l is None else l[0], False if l is None else l[1], None if u is None else -u[0], False if u is None else u[1])

    _nz = set()         # questions being decided (a bound of a square asks for its root)

    def nonzero(self, p):
        k = id(p)
        if k in self._nz:
            return False
        self._nz.add(k)
        try:
            return self.decide(c_eq(p)) is False
        finally:
            self._nz.discard(k)

    def ge0(self, p):
        return self.decide(c_ge(p)) is True

    def decide(self, c, depth=2):
        if c is True or c is False:
            return c
        k = ("d", c.id)
        if k in self.cache:
            return self.cache[k]
        r = self._decide(c, depth)
        if r is None and depth == 2 and c.op in ("ge", "gt", "eq", "ne"):
            r = self._by_cases(c)
        self.cache[k] = r
        return r

    def _by_cases(self, c):
        """a sum with a conditional term, decided alike on both sides of the condition"""
        for mono in c.args[0].m:
            a = ATOMS[mono[0][0]] if len(mono) == 1 else None
            if a is None or a.op != "ite":
                continue
            out = []
            for b, v in ((True, a.args[1]), (False, a.args[2])):
                s = self.try_assume(a.args[0], b)
                if s is not None:
                    out.append(s.decide(s.norm(subst(c, {a.id: v}, {}))))
            return out[0] if out and all(x is out[0] for x in out) else None
        return None

    def _decide(self, c, depth):
        op = c.op
        if op in ("ge", "gt"):
            p = c.args[0]
            l = self.lower(p, depth)
            if l is not None and (l[0] > 0 or (l[0] == 0 and (op == "ge" or l[1]))):
                return True
            if op == "gt" and l is not None and l[0] == 0 and self._excl(p):
                return True
            u = self.lower(-p, depth)
            if u is not None and (u[0] > 0 or (u[0] == 0 and (op == "gt" or u[1]))):
                return False
            if op == "ge" and u is not None and u[0] == 0 and self._excl(p):
                return False
            return None
        if op in ("eq", "ne"):
            p = c.args[0]
            r = None
            if self._excl(p):
                r = False
            else:
                l = self.lower(p, depth)
                if l is not None and (l[0] > 0 or (l[0] == 0 and l[1])):
                    r = False
                else:
                    u = self.lower(-p, depth)
                    if u is not None and (u[0] > 0 or (u[0] == 0 and u[1])):
                        r = False
                    elif l is not None and u is not None and l[0] == 0 and u[0] == 0:
                        r = True
            if r is None:
                # product of factors: x*y == 0
                pass
            if r is None:
                return None
            return r if op == "eq" else not r
        if op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if op in ("and", "or"):
            b = self.bools.get(c)
            if b is not None:
                return b
            x, y = self.decide(c.args[0]), self.decide(c.args[1])
            if op == "and":
                if x is False or y is False:
                    return False
                return True if x and y else None
            if x is True or y is True:
                return True
            return False if x is False and y is False else None
        return self.bools.get(c)

    def _excl(self, p):
        H, f, c = hom(p)
        e = self.excl.get(H)
        return e is not None and (Fraction(-c) / f) in e

    # -------------------------------------------------------------- assumptions
    def add_interval(self, F, iv):
        """F in iv"""
        k = F.const()
        if k is not None:
            if iv[0] is not None and (k < iv[0] or (k == iv[0] and iv[1])):
                raise Infeasible
            if iv[2] is not None and (k > iv[2] or (k == iv[2] and iv[3])):
                raise Infeasible
            return
        if iv[0] is not None:
            d = F - num(iv[0])
            self.assume(c_gt(d) if iv[1] else c_ge(d), True)
            F = self.norm(F)
        if iv[2] is not None:
            d = num(iv[2]) - F
            self.assume(c_gt(d) if iv[3] else c_ge(d), True)

    def assume(self, c, val=True):
        """conjoin a condition; raises Infeasible on contradiction"""
        if not val:
            c = c_not(c)
        if c is True:
            return self
        if c is False:
            raise Infeasible
        d = self.decide(c)
        if d is True:
            if c.op == "eq":
                self.equate(c.args[0])
            return self
        if d is False:
            raise Infeasible
        op = c.op
        if op in ("ge", "gt"):
            H, f, k = hom(c.args[0])
            b = Fraction(-k) / f
            b = b.numerator if b.denominator == 1 else b
            st = op == "gt"
            new = (b, st, None, False) if f > 0 else (None, False, b, st)
            old = self.facts.get(H, TOP)
            iv = meet(old, new)
            ex = self.excl.get(H)
            if ex:
                if iv[0] in ex:
                    iv = (iv[0] + 1, False, iv[2], iv[3]) if H.is_int() else (iv[0], True, iv[2], iv[3])
                if iv[2] in ex:
                    iv = (iv[0], iv[1], iv[2] - 1, False) if H.is_int() else (iv[0], iv[1], iv[2], True)
            if iv[0] is not None and iv[2] is not None:
                if iv[0] > iv[2] or (iv[0] == iv[2] and (iv[1] or iv[3])):
                    raise Infeasible
            self.facts[H] = iv
            self.cache = {}
            self.idx = None
            p = H - num(b)
            # equality reached?
            if iv[0] is not None and iv[0] == iv[2]:
                self.equate(H - num(iv[0]))
            else:
                q = self.quick(H)
                if q[0] is not None and q[0] == q[2]:
                    self.equate(H - num(q[0]))
            self.propagate(c)
            return self
        if op == "eq":
            self.equate(c.args[0])
            return self
        if op == "ne":
            H, f, k = hom(c.args[0])
            v = Fraction(-k) / f
            v = v.numerator if v.denominator == 1 else v
            self.excl[H] = self.excl.get(H, frozenset()) | {v}
            self.cache = {}
            iv = self.facts.get(H)
            q = self.quick(H)
            if q[0] == v and not q[1]:
                self.assume(c_gt(H - num(v)))
            elif q[2] == v and not q[3]:
                self.assume(c_gt(num(v) - H))
            elif q[0] is None or q[0] < v or q[2] is None or q[2] > v:
                l, u = self.lower(H - num(v)), self.lower(num(v) - H)
                if l is not None and l[0] == 0:
                    self.assume(c_gt(H - num(v)))
                elif u is not None and u[0] == 0:
                    self.assume(c_gt(num(v) - H))
            return self
        if op == "and":
            self.assume(c.args[0])
            self.assume(self.norm(c.args[1]))
            return self
        if op == "or":
            x, y = self.decide(c.args[0]), self.decide(c.args[1])
            if x is False:
                return self.assume(c.args[1])
            if y is False:
                return self.assume(c.args[0])
            self.bools[c] = True
            self.cache = {}
            return self
        if op == "not":
            i = c.args[0]
            if i.op == "atom":
                self.rewrite(i.args[0].id, False)
                return self
            self.bools[i] = False
            self.cache = {}
            return self
        if op == "atom":
            self.rewrite(c.args[0].id, True)
            return self
        if op == "eqo":
            a, b = c.args
            if a.op == "pda" and b.op not in ("pda", "const") and b.id not in a.deps:
                self.rewrite(b.id, a)
                return self
            if b.op == "pda" and a.op not in ("pda", "const") and a.id not in b.deps:
                self.rewrite(a.id, b)
                return self
            if a.op == "const" or (b.op != "const" and (a.id in b.deps or (b.id not in a.deps and a.id < b.id))):
                a, b = b, a      # rewrite a -> b
            if a.id in b.deps or a.op == "const":
                self.bools[c] = True
                self.cache = {}
                return self
            self.rewrite(a.id, b)
            return self
        raise AssertionError(op)

    def propagate(self, c):
        """re-examine stored disjunctions"""
        for o, b in list(self.bools.items()):
            if o.op == "or" and b is True:
                x, y = self.decide(o.args[0]), self.decide(o.args[1])
                if x is False and y is False:
                    raise Infeasible
                if x is False and y is None:
                    del self.bools[o]
                    self.assume(o.args[1])
                elif y is False and x is None:
                    del self.bools[o]
                    self.assume(o.args[0])

    def equate(self, p):
        """p == 0"""
        if p.const() is not None:
            if p.const() != 0:
                raise Infeasible
            return
        best = None
        for mono, c in p.m.items():
            if len(mono) == 1 and mono[0][1] == 1:
                a = ATOMS[mono[0][0]]
                n = sum(1 for m2 in p.m for aid, _ in m2 if a.id in ATOMS[aid].deps)
                if n != 1:
                    continue
                if a.sort[0] == "i" and (abs(c) != 1 or not p.is_int()):
                    continue
                if best is None or a.id > best[0].id:
                    best = (a, c)
        if best is None:
            H, f, k = hom(p)
            v = Fraction(-k) / f
            v = v.numerator if v.denominator == 1 else v
            old = self.facts.get(H, TOP)
            iv = meet(old, (v, False, v, False))
            if iv[0] > iv[2] or (iv[0] == iv[2] and (iv[1] or iv[3])):
                raise Infeasible
            self.facts[H] = iv
            self.cache = {}
            self.idx = None
            return
        a, c = best
        val = pa(a) - p.scale(Fraction(1) / c)
        # keep the bounds the eliminated atom had
        iv = self.atom_bounds(a)
        self.rewrite(a.id, val)
        if val.const() is None or True:
            self.add_interval(val, iv)

    def try_assume(self, c, val=True):
        """copy with the assumption, or None"""
        s = self.copy()
        try:
            s.assume(c, val)
        except Infeasible:
            return None
        return s

    def split(self, c):
        """(state with c or None, state with not c or None)"""
        d = self.decide(c)
        if d is True:
            return self, None
        if d is False:
            return None, self
        return self.try_assume(c, True), self.try_assume(c, False)


def vsubst(v, s, memo):
    """substitution in values (tuples whose leaves are terms)"""
    if isinstance(v, tuple):
        ch = False
        out = []
        for y in v:
            z = vsubst(y, s, memo)
            if z is not y:
                ch = True
            out.append(z)
        return tuple(out) if ch else v
    if isinstance(v, (Poly, Atom, Cond)):
        return subst(v, s, memo)
    return v


def trace_subst(t, s, memo):
    if t is None:
        return None
    stack = []
    while t is not None:
        stack.append(t)
        t = t[0]
    prev = None
    changed = False
    for node in reversed(stack):
        ev = vsubst(node[1], s, memo)
        if ev is not node[1]:
            changed = True
        prev = node if not changed else (prev, ev)
    return prev
