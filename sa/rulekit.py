"""Shared by the rules: reports, access to fields of abstract values, case splits."""
from terms import *
from state import State, Infeasible
from engine import Engine, Stuck, vshow, d_mul, d_div, p_fdiv
import time


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obl = []            # (rule, where, text, ok)
        self.viol = []           # (key, where, text)
        self.undecided = []      # why a part (or the rest of it) got no verdict
        self.notes = []
        self.engines = []
        self.paths = 0
        self.assumed = []

    def check(self, ok, rule, where, text, key=None, detail=""):
        self.obl.append((rule, where, ok is True))
        if ok is not True:
            k = key or (rule + "@" + where)
            if all(k != v[0] for v in self.viol):
                self.viol.append((k, where, text + (": " + detail if detail else "")))
        return ok is True

    def violate(self, key, where, text):
        self.check(False, key.split("@")[0], where, text, key)

    def use(self, E):
        self.engines.append(E)

    def assume(self, text):
        if text not in self.assumed:
            self.assumed.append(text)


def where_fn(m, fn):
    return "%s (%s)" % (short(fn.name), m.src(fn.span) if fn.span else "?")


def short(n):
    return n.replace("hmmcl_sandbox::", "")


class V:
    """typed view of an abstract value"""

    def __init__(self, E, st, v, ty):
        self.E, self.st, self.v, self.ty = E, st, v, ty

    def f(self, name):
        E = self.E
        v, ty = self.v, self.ty
        t = E.types[ty]
        if t["k"] in ("ref", "ptr") or t.get("box"):
            v, ty = E.read(self.st, v[1], v[2]), E.pointee(ty)
            return V(E, self.st, v, ty).f(name)
        i = E.mir.field_index(ty, name)
        ft = t["variants"][0]["fields"][i][1]
        return V(E, self.st, E.step(self.st, v, ("f", i, None)), ft)

    def __getattr__(self, name):
        return self.f(name)

    def n(self):
        """number of a decimal or integer"""
        v = self.v
        if isinstance(v, tuple) and v and v[0] == "d":
            return self.st.norm(v[1])
        if isinstance(v, Poly):
            return self.st.norm(v)
        raise Stuck("number expected: " + vshow(v)[:80])

    def scale(self):
        return self.v[2]

    def has(self, name):
        t = self.E.types[self.ty]
        return any(n == name for n, _ in t["variants"][0]["fields"])


def zero(st, p):
    p = st.norm(p)
    return p.const() == 0 or st.decide(c_eq(p)) is True


def ge0(st, p):
    return st.decide(c_ge(st.norm(p))) is True


def gt0(st, p):
    return st.decide(c_gt(st.norm(p))) is True


def run_fn(rep, m, fn, pre=None, args=None, **cfg):
    """engine, initial argument values, [(state, result)]"""
    hooks = {k: cfg.pop(k) for k in ("on_loop", "on_head", "on_arith", "on_cast", "on_panic") if k in cfg}
    over = cfg.pop("over", None)
    E = Engine(m, strict=True, **cfg)
    E.models.update(over or {})
    for k, v in hooks.items():
        setattr(E, k, v)
    st = State()
    if args is None:
        args = [E.opaque("sym", ("arg%d" % i if not (fn.names or {}) else argname(fn, i),), fn.locals[1 + i]) for i in range(fn.argc)]
    if pre:
        pre(E, st, args)
        args = [st.norm_val(a) for a in args]
    out = E.run(st, fn, args)
    if rep is not None:
        rep.use(E)
        rep.paths += len(out)
    return E, args, out


def argname(fn, i):
    try:
        for n in fn.names:
            if isinstance(n, list) and n[0] == i + 1:
                return n[1]
    except Exception:
        pass
    return "arg%d" % i


def split_all(st, conds):
    """states for every combination of truth values of the conditions -> [(state, [bool..])]"""
    todo = [(st, [])]
    for c in conds:
        nxt = []
        for s, bs in todo:
            cc = s.norm(c) if not isinstance(c, bool) else c
            if cc is True or cc is False:
                nxt.append((s, bs + [cc]))
                continue
            y, n = s.split(cc)
            if y is not None:
                nxt.append((y, bs + [True]))
            if n is not None:
                nxt.append((n, bs + [False]))
        todo = nxt
    return todo


def subatoms(v, ops, out=None, seen=None):
    """atoms with one of the given operators anywhere in a value"""
    if out is None:
        out, seen = [], set()
    if isinstance(v, tuple):
        for y in v:
            subatoms(y, ops, out, seen)
    elif isinstance(v, (Poly, Cond)):
        for aid in v.deps:
            a = ATOMS[aid]
            if aid in seen:
                continue
            seen.add(aid)
            if a.op in ops:
                out.append(a)
            for y in a.args:
                subatoms(y, ops, out, seen)
        if isinstance(v, Cond):
            for y in v.args:
                subatoms(y, ops, out, seen)
    return out


def settle(st, v):
    """[(state, value)]: 0/1 conditions decided by cases, wrap-arounds that cannot happen removed"""
    todo, out = [(st, v)], []
    while todo:
        s, x = todo.pop()
        x = s.norm_val(x) if s.sub else x
        its = [a for a in subatoms(x, ("ite",))]
        if its:
            a = its[0]
            for s2, b in split_all(s, [a.args[0]]):
                todo.append((s2, vset(s2.norm_val(x), a, s2.norm(a.args[1] if b[0] else a.args[2]))))
            continue
        ch = True
        while ch:
            ch = False
            for a in subatoms(x, ("wrap", "trunc")):
                p, lo, hi = a.args[0], a.sort[1], a.sort[2]
                if isinstance(p, Poly) and lo is not None and s.decide(c_ge(p - num(lo))) is True and s.decide(c_ge(num(hi) - p)) is True:
                    x = vset(x, a, p)
                    ch = True
                    break
        out.append((s, x))
    return out[::-1]


def vset(v, a, p):
    from state import vsubst
    return vsubst(v, {a.id: p}, {})
