"""Abstract interpreter over dumped MIR (see DESIGN.md). Deterministic; no solver."""
import bytebits
import re
import heapq, os, sys
from fractions import Fraction
from terms import *
import terms
from state import State, Infeasible, AXIOMS, ABOUNDS, TOP, meet, iscale, vsubst

sys.setrecursionlimit(20000)
USIZE = isort(64, False)


class Stuck(Exception):
    """the analysis met a construct it cannot interpret"""


# ---------------------------------------------------------------- integer operators on terms
def c_val(p):
    return p.const()


def p_fdiv(n, d, st=None):
    """floor division term of integers"""
    kd, kn = d.const(), n.const()
    if kd == 1:
        return n
    if kd and kn is not None:
        return num(kn // kd)
    if not n.m:
        return ZERO
    if kd and n.is_int():
        q = {}
        r = {}
        for mono, c in n.m.items():
            a, b = divmod(c, kd)
            if a:
                q[mono] = a
            if b:
                r[mono] = b
        if q and r:
            return mk(q) + p_fdiv(mk(r), d)
        if q and not r:
            return mk(q)
        # nested floor division  fdiv(fdiv(x,a)+c, b) = fdiv(x + a*c, a*b)
        at = n.atom()
        if at is not None and at.op == "fdiv" and at.args[1].const():
            return p_fdiv(at.args[0], num(at.args[1].const() * kd))
    # exact multiple
    if kd is None and n.m:
        at = d.atom()
        if at is not None and all(any(a == at.id and e >= 1 for a, e in mono) for mono in n.m):
            return mk({tuple((a, e - 1) if a == at.id else (a, e) for a, e in mono if not (a == at.id and e == 1)): c for mono, c in n.m.items()})
    return pa(app("fdiv", n, d, sort=("i", None, None)))


REBUILD["fdiv"] = lambda args, sort: p_fdiv(*args)


def _fdiv_ax(st, a):
    n, d = a.args
    q = pa(a)
    if d.const() is not None:
        k = d.const()
        if k > 0:
            return [(n - q.scale(k), 0, False, k - 1, False)]
        return []
    r = n - q * d
    out = []
    if st.decide(c_ge(d - ONE), 1):
        out.append((r, 0, False, None, False))
        out.append((d - ONE - r, 0, False, None, False))
        b = st.quick(n)
        if b[0] is not None and b[0] >= 0:
            out.append((q * d - q, 0, False, None, False))
    return out


AXIOMS["fdiv"] = _fdiv_ax


def _fdiv_b(st, a, depth):
    n, d = a.args
    bn = st.bound(n, 1)
    kd = d.const()
    if kd is not None and kd > 0:
        return (None if bn[0] is None else bn[0] // kd, False, None if bn[2] is None else bn[2] // kd, False)
    bd = st.quick(d)
    if bd[0] is not None and bd[0] >= 0 and bn[0] is not None and bn[0] >= 0:      # d == 0 aborts before
        lo = 0
        if n.is_int():
            from math import gcd
            c = 0
            for x in n.m.values():
                c = gcd(c, int(x))
            # n >= c * d  =>  n / d >= c
            if c and st.decide(c_ge(n - d.scale(c)), 1) is True:
                lo = c
        return (lo, False, None if bn[2] is None else bn[2] // max(1, bd[0]), False)
    return TOP


ABOUNDS["fdiv"] = _fdiv_b


def p_mod(n, d):
    if d.const() is not None:
        return n - p_fdiv(n, d).scale(d.const())
    return n - p_fdiv(n, d) * d


def p_pow10(e):
    k = e.const()
    if k is not None and 0 <= k < 400:
        return num(10 ** k)
    return pa(app("pow10", e, sort=("i", None, None)))


REBUILD["pow10"] = lambda args, sort: p_pow10(args[0])


def _pow10_b(st, a, depth):
    b = st.bound(a.args[0], 1)
    lo = 10 ** min(60, max(0, b[0])) if b[0] is not None and int(b[0]) == b[0] else 1
    return (lo, False, None if b[2] is None or b[2] > 60 else 10 ** max(0, int(b[2])), False)


ABOUNDS["pow10"] = _pow10_b


def p_ipow(b, e):
    kb, ke = b.const(), e.const()
    if kb is not None and ke is not None and 0 <= ke < 2000:
        return num(kb ** ke)
    if kb == 10:
        return p_pow10(e)
    if ke is not None and 0 <= ke <= 8:
        return ppow(b, ke)
    return pa(app("ipow", b, e, sort=("i", None, None)))


REBUILD["ipow"] = lambda args, sort: p_ipow(*args)


def _ipow_b(st, a, depth):
    b = st.quick(a.args[0])
    if b[0] is not None and b[0] >= 1:
        return (1, False, None, False)
    if b[0] is not None and b[0] >= 0:
        return (0, False, None, False)
    return TOP


ABOUNDS["ipow"] = _ipow_b


def bitop(op, a, b, sort):
    ka, kb = a.const(), b.const()
    if ka is not None and kb is not None:
        r = {"and": ka & kb, "or": ka | kb, "xor": ka ^ kb}[op]
        return num(r)
    if op == "and":
        for x, k in ((a, kb), (b, ka)):
            if k is not None and k >= 0 and (k & (k + 1)) == 0 and sort[1] == 0:
                if k == sort[2]:
                    return x
                return p_mod(x, num(k + 1)) if k else ZERO
            if k == 0:
                return ZERO
    if op in ("or", "xor"):
        if ka == 0:
            return b
        if kb == 0:
            return a
    if a.id > b.id:
        a, b = b, a
    return pa(app("b" + op, a, b, sort=sort))


for _o in ("and", "or", "xor"):
    REBUILD["b" + _o] = (lambda o: lambda args, sort: bitop(o, args[0], args[1], sort))(_o)


def p_shl(a, n, sort):
    kn = n.const()
    if kn is not None:
        return a.scale(1 << kn)
    return pa(app("shl", a, n, sort=sort))


REBUILD["shl"] = lambda args, sort: p_shl(args[0], args[1], sort)


def p_shr(a, n):
    kn = n.const()
    if kn is not None:
        return p_fdiv(a, num(1 << kn))
    return pa(app("shr", a, n, sort=("i", None, None)))


REBUILD["shr"] = lambda args, sort: p_shr(*args)
ABOUNDS["shr"] = lambda st, a, depth: (0, False, None, False) if (st.quick(a.args[0])[0] or 0) >= 0 and st.quick(a.args[0])[0] is not None else TOP


# bit extraction:   bit(v, i)  as condition  (used for (v >> i) & 1)
def bit(v, i):
    """condition: bit i of v is set (0 <= i < width)"""
    k = v.const()
    ki = i.const()
    if k is not None and ki is not None:
        return bool((k >> ki) & 1)
    if k == 0:
        return False
    at = v.atom()
    if at is not None:
        if at.op == "bor":
            return c_or(bit(at.args[0], i), bit(at.args[1], i))
        if at.op == "band":
            return c_and(bit(at.args[0], i), bit(at.args[1], i))
        if at.op == "bnot":
            return c_not(bit(at.args[0], i))
        if at.op == "shl" and at.args[0].const() == 1:
            return c_eq(i - at.args[1])
    if k is not None and k > 0 and (k & (k - 1)) == 0:
        return c_eq(i - num(k.bit_length() - 1))
    return c_atom(app("bit", v, i, sort=BOOL))


REBUILD["bit"] = lambda args, sort: bit(*args)


def c_ite(c, a, b):
    """0/1 integer of a condition"""
    if c is True:
        return a
    if c is False:
        return b
    return pa(app("ite", c, a, b, sort=("i", None, None)))


REBUILD["ite"] = lambda args, sort: c_ite(*args)


def _ite_b(st, a, depth):
    x, y = st.quick(a.args[1]), st.quick(a.args[2])
    from state import hull
    return hull(x, y)


ABOUNDS["ite"] = _ite_b


class Frame:
    __slots__ = ("fn", "depth", "site")


CLOSURE = re.compile(r"\{closure#\d+\}$")


class Engine:
    def __init__(self, mir, **cfg):
        self.mir = mir
        self.types = mir.types
        self.cfg = cfg
        self.bits = cfg.get("bits")                  # bytes of unknown arrays as bits; called on every read
        self.decnum = cfg.get("decnum", True)        # decimals abstracted to numbers
        self.field = cfg.get("field", False)         # exact real algebra for mul/div
        self.scale12 = cfg.get("scale12", True)      # opaque decimals carry the compute scale
        self.cap = cfg.get("cap", 4000)
        self.models = {}
        self.rmodels = []
        self.stack = []
        self.stats = {"functions": set(), "calls": 0, "blocks": 0, "paths": 0, "joins": 0, "loops": 0, "loop_rounds": 0, "havoc_calls": {}}
        self.on_arith = None
        self.on_panic = None
        self.on_cast = None
        self.on_loop = None
        self.on_head = None
        self.hmark = 0                  # boxed temporaries numbered above this belong to the current loop
        self.on_key = cfg.get("on_key")
        EVEN[0] = not cfg.get("signed_digits")
        self.log = []                   # obligations noted inside loops, kept only for final states
        self.deadline = None
        self._sort = {}
        self._dispatch = {}
        self._scalar = {}
        import models
        models.register(self)

    # ------------------------------------------------------------- types and symbolic values
    def sort(self, ty):
        r = self._sort.get(ty)
        if r is None:
            t = self.types[ty]
            k = t["k"]
            if k == "uint":
                r = isort(t["bits"], False)
            elif k == "int":
                r = isort(t["bits"], True)
            elif k == "bool":
                r = BOOL
            elif k == "char":
                r = ("i", 0, 0x10FFFF)
            elif k == "float":
                r = REAL
            else:
                r = ("o", ty)
            self._sort[ty] = r
        return r

    def is_decimal(self, ty):
        return self.decnum and self.types[ty].get("path") == "hmmcl_sandbox::decimal::Decimal"

    def is_map(self, ty):
        return self.types[ty].get("path", "") in ("std::collections::BTreeMap", "std::collections::HashMap", "alloc::collections::btree::map::BTreeMap")

    def opaque(self, op, args, ty):
        t = self.types[ty]
        k = t["k"]
        s = self.sort(ty)
        if k in ("uint", "int", "char", "float"):
            return pa(app(op, *args, sort=s))
        if k == "bool":
            return c_atom(app(op, *args, sort=BOOL))
        if k == "never":
            return None
        base = app(op, *args, sort=s)
        return self.expand(base)

    def expand(self, base):
        """value of an opaque term: structs are opened, everything else stays a leaf"""
        ty = base.sort[1]
        t = self.types[ty]
        k = t["k"]
        if k in ("ref", "ptr"):
            return self.mkptr(base, t["to"])
        if k == "tuple":
            return ("s",) + tuple(self.opaque(".", (base, i), e) for i, e in enumerate(t["elems"]))
        if k == "fndef":
            return ("f", t["fn"])
        if k == "fnptr":
            return base
        if k == "adt":
            if t.get("box"):
                return self.mkptr(base, t["args"][0])
            if self.is_decimal(ty):
                n = pa(app("num", base, sort=REAL))
                sc = num(12) if self.scale12 else pa(app("scale", base, sort=isort(8, False)))
                return ("d", n, sc)
            if self.is_map(ty):
                return ("m", base, ())
            if t["adt"] == "struct" and not self.keep_opaque(t):
                return ("s",) + tuple(self.opaque(".", (base, n), ft) for n, ft in t["variants"][0]["fields"])
        return base

    OPAQUE = ("std::string::String", "std::vec::Vec", "alloc::vec::Vec", "alloc::string::String", "std::rc::Rc", "solana_program::account_info::AccountInfo")

    def keep_opaque(self, t):
        return t["path"] in self.OPAQUE or (t.get("krate") in ("alloc", "std"))

    def mkptr(self, base, to):
        tt = self.types[to]
        meta = None
        if tt["k"] in ("slice", "str"):
            meta = pa(app("len", base, sort=USIZE))
        elif tt["k"] == "dyn":
            meta = base
        return ("r", ("P", base), (), meta)

    def pointee(self, ty):
        t = self.types[ty]
        if t["k"] in ("ref", "ptr"):
            return t["to"]
        if t.get("box"):
            return t["args"][0]
        raise Stuck("not a pointer type: " + t["name"])

    # ------------------------------------------------------------- store
    def cell(self, st, c):
        v = st.env.get(c)
        if v is None and c not in st.env:
            if c[0] == "P":
                a = c[1]
                v = self.opaque("*", (a,), self.pointee(a.sort[1]))
                st.env[c] = v
            elif c[0] == "C":
                v = c[1]
                st.env[c] = v
            elif c[0] == "M" and c[1].sort[0] == "o" and self.is_map(c[1].sort[1]):
                # an entry still holding what the map held at first
                ts = [a for a in self.types[c[1].sort[1]].get("args", ()) if isinstance(a, int)]
                v = self.opaque("mapval", (c[1], c[2]), ts[1])
                st.env[c] = v
        return v

    def fieldtypes(self, ty, variant):
        t = self.types[ty]
        if t["k"] == "tuple":
            return [(str(i), e) for i, e in enumerate(t["elems"])]
        if t["k"] == "adt":
            return t["variants"][variant or 0]["fields"]
        raise Stuck("fields of " + t["name"])

    def cell_get(self, st, c):
        return self.cell(st, c)

    def step(self, st, v, p):
        k = p[0]
        if isinstance(v, tuple):
            tag = v[0]
            if k == "f":
                if tag == "s":
                    return v[1 + p[1]]
                if tag == "e":
                    if p[2] is not None and p[2] != v[1]:
                        raise Infeasible
                    return v[2 + p[1]]
                if tag == "d":
                    return self.dec_field(st, v, p[1])
                if tag == "r":
                    return v
            if k == "ix":
                return self.aread(st, v, p[1])
            if k == "sub":
                return v
        if isinstance(v, Atom):
            if k == "f":
                ty = v.sort[1]
                fn, ft = self.fieldtypes(ty, p[2])[p[1]]
                if p[2] is not None and self.types[ty].get("adt") == "enum":
                    return self.opaque(".", (v, self.types[ty]["variants"][p[2]]["name"] + "." + fn), ft)
                return self.opaque(".", (v, fn), ft)
            if k == "ix":
                return self.aread(st, v, p[1])
        raise Stuck("cannot project %s of %s" % (p, vshow(v)[:200]))

    def read(self, st, cell, proj):
        v = self.cell(st, cell)
        for p in proj:
            v = self.step(st, v, p)
        return v

    def write(self, st, cell, proj, val, ty=None):
        if not proj:
            st.env[cell] = val
            return
        v = self.cell(st, cell)
        st.env[cell] = self.upd(st, v, proj, val, ty)

    def upd(self, st, v, proj, val, ty=None):
        p = proj[0]
        rest = proj[1:]
        if p[0] == "f":
            if v is None:
                if ty is None:
                    raise Stuck("write to field of uninitialised value")
                n = len(self.fieldtypes(ty, p[2]))
                v = ("e", p[2]) + (None,) * n if p[2] is not None else ("s",) + (None,) * n
            if isinstance(v, Atom):
                ty = v.sort[1]
                if p[2] is not None and self.types[ty].get("adt") == "enum":
                    var = self.types[ty]["variants"][p[2]]
                    v = ("e", p[2]) + tuple(self.opaque(".", (v, var["name"] + "." + n), t) for n, t in var["fields"])
                else:
                    v = ("s",) + tuple(self.opaque(".", (v, n), t) for n, t in self.fieldtypes(ty, p[2]))
            if v[0] == "d":
                v = ("s",) + tuple(self.dec_field(st, v, i) for i in range(3))
                v = self.upd(st, v, proj, val)
                return self.dec_build(st, v[1], v[2], v[3])
            if v[0] == "r" and self_box(v):
                return val
            i = p[1] + (1 if v[0] == "s" else 2)
            sub = self.upd(st, v[i], rest, val, self.fieldtypes(ty, p[2])[p[1]][1] if ty is not None and v[i] is None and rest else None) if rest else val
            return v[:i] + (sub,) + v[i + 1:]
        if p[0] == "ix":
            if rest:
                val = self.upd(st, self.aread(st, v, p[1]), rest, val)
            return self.awrite(st, v, p[1], val)
        raise Stuck("write through %s" % (p,))

    # arrays:  ("s", ...) small concrete arrays,  Atom opaque,  ("A", base, ((idx, val), ...)) with updates; ("R", val, len) repeat
    def elemty(self, a):
        t = self.types[a.sort[1]]
        return t["elem"]

    def pick(self, vs, i):
        """the i-th of some constants"""
        if all(isinstance(x, Poly) and x.const() is not None for x in vs):
            ks = [int(x.const()) for x in vs]
            return pa(app("pick", tuple(ks), i, sort=("i", min(ks), max(ks))))
        if all(isinstance(x, tuple) and x[0] == "s" and len(x) == len(vs[0]) for x in vs):
            return ("s",) + tuple(c[0] if all(x == c[0] for x in c) else self.pick(c, i) for c in zip(*[x[1:] for x in vs]))
        raise Stuck("symbolic index into a concrete array")

    def aread(self, st, v, i):
        k = i.const()
        if isinstance(v, Atom):
            if v.op == "const" and isinstance(v.args[0], tuple) and v.args[0][0] == "bytes" and k is not None:
                return num(v.args[0][1][k])
            if self.bits and self.types[self.elemty(v)]["name"] == "u8":
                self.bits(self, st, i)
                return bytebits.byte_of(v, i)
            return self.opaque("[]", (v, i), self.elemty(v))
        if v[0] == "s":
            if k is not None:
                if not 0 <= k < len(v) - 1:
                    raise Infeasible
                return v[1 + k]
            for j in range(len(v) - 1):
                if v[1 + j] != v[1]:
                    return self.pick(v[1:], i)
            return v[1]
        if v[0] == "R":
            return v[1]
        if v[0] == "A":
            for n, (j, x) in enumerate(reversed(v[2])):
                d = st.decide(c_eq(i - j))
                if d is True:
                    return x
                if d is None:
                    base = app("arr", v, sort=v[3])
                    return self.opaque("[]", (base, i), self.types[v[3][1]]["elem"])
            return self.aread(st, v[1], i)
        raise Stuck("index of " + vshow(v)[:100])

    def awrite(self, st, v, i, val):
        k = i.const()
        if isinstance(v, tuple) and v[0] == "s" and k is not None:
            return v[:1 + k] + (val,) + v[2 + k:]
        if isinstance(v, tuple) and v[0] == "A":
            w = tuple((j, x) for j, x in v[2] if st.decide(c_eq(i - j)) is not True)
            return ("A", v[1], w + ((i, val),), v[3])
        if isinstance(v, Atom):
            return ("A", v, ((i, val),), v.sort)
        if isinstance(v, tuple) and v[0] == "R":
            return ("A", v, ((i, val),), v[3])
        raise Stuck("indexed write")

    # ------------------------------------------------------------- decimals as numbers
    def dec_field(self, st, v, i):
        n, s = v[1], v[2]
        if i == 1:
            return s
        if i == 2:
            return c_gt(-n)
        ks = s.const()
        if ks is not None:
            x = n.scale(10 ** ks)
            if x.is_int():
                if st.ge0(n):
                    return x
                if st.ge0(-n):
                    return -x
        return p_mant(n, s)

    def dec_build(self, st, value, scale, negative):
        n = p_dec(value, scale)
        at = value.atom()
        if at is not None and at.op == "mant":
            # rebuilt from the parts of an existing number
            m, s = at.args
            if s is scale:
                if negative is c_gt(-m) or st.decide(negative) is not None and st.decide(c_gt(-m)) is st.decide(negative):
                    return ("d", m, scale)
                if negative is c_not(c_gt(-m)) or (st.decide(c_gt(-m)) is not None and st.decide(negative) is (not st.decide(c_gt(-m)))):
                    return ("d", -m, scale)
        d = st.decide(negative)
        if d is None:
            return ("d", pa(app("sgn", negative, n, sort=REAL)), scale)
        return ("d", -n if d else n, scale)

    # ------------------------------------------------------------- operands and rvalues
    def constval(self, st, ty, v):
        t = self.types[ty]
        c = v["c"]
        if c == "int":
            if t["k"] == "bool":
                return bool(v["v"])
            return num(v["v"])
        if c == "zst":
            if t["k"] == "fndef":
                return ("f", t["fn"])
            if t["k"] == "adt" and t["adt"] == "enum":
                raise Stuck("zst enum")
            return ("s",)
        if c == "str":
            return app("const", ("str", v["v"]), sort=("o", ty))
        if c == "float":
            import struct
            w = v["w"]
            x = struct.unpack("<d" if w == 64 else "<f", int(v["bits"]).to_bytes(w // 8, "little"))[0]
            if x != x or x in (float("inf"), float("-inf")):
                return pa(app("const", ("float", str(x)), sort=REAL))
            return num(Fraction(repr(x)))
        if c == "ref":
            to = self.pointee(ty)
            inner = v["v"]
            tt = self.types[to]
            meta = None
            if inner["c"] == "str":
                val = app("const", ("str", inner["v"]), sort=("o", to))
                meta = num(len(inner["v"].encode() if isinstance(inner["v"], str) else inner["v"]))
            elif inner["c"] in ("array", "slice") and tt["k"] == "slice":
                val = self.constarr(st, tt["elem"], inner["v"], to)
                meta = num(len(inner["v"]))
            else:
                val = self.constval(st, to, inner)
            if val is None:
                val = app("const", ("unit",), sort=("o", to))
            return ("r", ("C", val), (), meta)
        if c == "array":
            return self.constarr(st, t["elem"], v["v"], ty)
        if c == "tuple":
            return ("s",) + tuple(self.constval(st, e, x) for e, x in zip(t["elems"], v["v"]))
        if c == "adt":
            var = v.get("variant", 0)
            fs = tuple(self.constval(st, ft, x) for (n, ft), x in zip(t["variants"][var]["fields"], v["v"]))
            if self.is_decimal(ty):
                return self.dec_build(st, *fs)
            if t["adt"] == "enum":
                return ("e", var) + fs
            return ("s",) + fs
        if c == "static":
            return self.mkptr(app("const", ("static", v.get("def") or v.get("name") or str(v)), sort=("o", ty)), self.pointee(ty)) if t["k"] in ("ref", "ptr") else app("const", ("static", str(v)), sort=("o", ty))
        if c == "fn":
            return ("f", v.get("fn"))
        return self.opaque("const", (("unk", str(v)[:80], ty),), ty)

    def constarr(self, st, elem, vs, ty):
        if self.types[elem]["k"] == "uint" and self.types[elem]["bits"] == 8:
            return app("const", ("bytes", tuple(x["v"] for x in vs)), sort=("o", ty))
        return ("s",) + tuple(self.constval(st, elem, x) for x in vs)

    def place(self, st, fr, pl):
        """-> (cell, proj, meta)"""
        cell = ("L", fr.depth, pl[0])
        proj = ()
        meta = None
        var = None
        for e in pl[1]:
            if e == "*":
                v = self.read(st, cell, proj)
                if isinstance(v, Atom):
                    v = self.ptr_of(v)
                if v is None or v[0] != "r":
                    raise Stuck("deref of %s" % vshow(v)[:120])
                cell, proj, meta = v[1], v[2], v[3]
            elif e[0] == "f":
                proj = proj + (("f", e[1], var),)
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                i = self.read(st, ("L", fr.depth, e[1]), ())
                proj = self.addix(proj, i)
            elif e[0] == "ci":
                if e[3]:
                    n = meta if meta is not None else self.alen(st, self.read(st, cell, proj))
                    i = n - num(e[1])
                else:
                    i = num(e[1])
                proj = self.addix(proj, i)
            elif e[0] == "ss":
                # subslice [from, to) ; from_end
                proj = proj + (("sub", num(e[1])),)
            else:
                raise Stuck("projection %s" % (e,))
        return cell, proj, meta

    def addix(self, proj, i):
        off = ZERO
        while proj and proj[-1][0] == "sub":
            off = off + proj[-1][1]
            proj = proj[:-1]
        return proj + (("ix", off + i),)

    def ptr_of(self, a):
        t = self.types[a.sort[1]]
        if t["k"] in ("ref", "ptr") or t.get("box"):
            return self.mkptr(a, self.pointee(a.sort[1]))
        raise Stuck("deref of opaque " + t["name"])

    def alen(self, st, v):
        if isinstance(v, tuple):
            if v[0] == "s":
                return num(len(v) - 1)
            if v[0] == "A":
                return self.alen(st, v[1]) if isinstance(v[1], Atom) else v[1][2]
            if v[0] == "R":
                return v[2]
        t = self.types[v.sort[1]]
        if t["k"] == "array":
            return num(t["len"])
        if v.op == "const" and v.args[0][0] in ("bytes", "str"):
            x = v.args[0][1]
            return num(len(x.encode() if isinstance(x, str) else x))
        return pa(app("len", v, sort=USIZE))

    def operand(self, st, fr, o):
        k = o[0]
        if k == "K":
            return self.constval(st, o[1], o[2])
        if k == "RC":
            return False           # run-time checks of the standard library: off in the release build
        c, p, m = self.place(st, fr, o[1])
        if p and p[-1][0] == "sub":
            raise Stuck("slice value")
        return self.read(st, c, p)

    def optype(self, fr, o):
        if o[0] == "K":
            return o[1]
        return self.placetype(fr, o[1])

    def placetype(self, fr, pl):
        ty = fr.fn.locals[pl[0]]
        var = None
        for e in pl[1]:
            if e == "*":
                ty = self.pointee(ty)
            elif e[0] == "f":
                ty = e[2] if len(e) > 2 and e[2] is not None else self.fieldtypes(ty, var)[e[1]][1]
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] in ("i", "ci"):
                ty = self.types[ty]["elem"]
        return ty

    def fit(self, st, fr, p, ty, op, sp, checked=False):
        """machine integer of mathematical value p in type ty (release semantics: wraps)"""
        s = self.sort(ty)
        if s[0] != "i":
            return p
        ok = st.decide(c_ge(p - num(s[1]))) is True and st.decide(c_ge(num(s[2]) - p)) is True
        if self.on_arith:
            self.on_arith(self, fr, sp, op, p, ty, ok, st)
        if ok:
            return p
        k = p.const()
        if k is not None:
            return num((k - s[1]) % (s[2] - s[1] + 1) + s[1])
        return pa(app("wrap", p, sort=s))

    def binop(self, st, fr, op, a, b, ty, sp):
        s = self.sort(ty)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        if s is BOOL or isinstance(a, (bool, Cond)):
            if op == "BitAnd":
                return c_and(a, b)
            if op == "BitOr":
                return c_or(a, b)
            if op == "BitXor":
                return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            if op == "Offset":
                return self.ptr_add(a, b)
            raise Stuck("binop %s on %s" % (op, vshow(a)[:80]))
        if s[0] == "r":
            return self.fbin(st, op, a, b)
        if self.bits and s[1] is not None:
            r = bytebits.bop(op, a, b, (s[2] - s[1] + 1).bit_length() - 1)
            if r is not None:
                return r
        if op == "Add":
            return self.fit(st, fr, a + b, ty, "+", sp)
        if op == "Sub":
            return self.fit(st, fr, a - b, ty, "-", sp)
        if op == "Mul":
            return self.fit(st, fr, a * b, ty, "*", sp)
        if op == "AddUnchecked":
            return a + b
        if op == "SubUnchecked":
            return a - b
        if op == "MulUnchecked":
            return a * b
        if op in ("Div", "Rem"):
            if s[1] == 0 or (st.ge0(a) and st.ge0(b)):
                q = p_fdiv(a, b)
            else:
                q = self.tdiv(st, a, b)
            return q if op == "Div" else a - q * b
        if op in ("BitAnd", "BitOr", "BitXor"):
            if op == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if y.const() == 1:
                        at = x.atom()
                        if at is not None and at.op == "shr":
                            return c_ite(bit(*at.args), ONE, ZERO)
                        if at is not None and at.op in ("bor", "band", "bnot"):
                            return c_ite(bit(x, ZERO), ONE, ZERO)
                    at = y.atom()
                    ky = y.const()
                    if at is not None and at.op == "shl" and at.args[0].const() == 1:
                        return pa(app("ite", bit(x, at.args[1]), y, ZERO, sort=("i", None, None))) if not isinstance(bit(x, at.args[1]), bool) else (y if bit(x, at.args[1]) else ZERO)
            return bitop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], a, b, s)
        if op in ("Shl", "ShlUnchecked"):
            kb = b.const()
            bits = (s[2] - s[1] + 1).bit_length() - 1
            inr = st.decide(c_ge(num(bits - 1) - b)) is True and st.ge0(b)
            if self.on_arith:
                self.on_arith(self, fr, sp, "<<", b, ty, inr and self.shl_fits(st, a, b, s), st)
            if kb is not None and inr:
                r = a.scale(1 << kb)
                if st.decide(c_ge(r - num(s[1]))) is True and st.decide(c_ge(num(s[2]) - r)) is True:
                    return r
                return pa(app("wrap", r, sort=s))
            if not inr:
                return pa(app("shlw", a, b, sort=s))
            return pa(app("shl", a, b, sort=s))
        if op in ("Shr", "ShrUnchecked"):
            bits = (s[2] - s[1] + 1).bit_length() - 1
            inr = st.decide(c_ge(num(bits - 1) - b)) is True and st.ge0(b)
            if self.on_arith:
                self.on_arith(self, fr, sp, ">>", b, ty, inr, st)
            if not inr:
                return pa(app("shrw", a, b, sort=s))
            return p_shr(a, b)
        raise Stuck("binop " + op)

    def shl_fits(self, st, a, b, s):
        """no bit of a is lost by shifting it left by b"""
        if st.ge0(a) is not True:
            return False
        n = s[2].bit_length()
        for k in range(n + 1):
            if st.decide(c_ge(num(2 ** k - 1) - a)) is True:
                return st.decide(c_ge(num(n - k) - b)) is True
        return False

    def tdiv(self, st, a, b):
        """division truncating toward zero"""
        ka, kb = a.const(), b.const()
        if ka is not None and kb:
            q = abs(ka) // abs(kb)
            return num(q if (ka < 0) == (kb < 0) else -q)
        if kb == 1:
            return a
        if st.ge0(-a) and st.ge0(b):
            return -p_fdiv(-a, b)
        if st.ge0(a) and st.ge0(-b):
            return -p_fdiv(a, -b)
        if st.ge0(-a) and st.ge0(-b):
            return p_fdiv(-a, -b)
        return pa(app("tdiv", a, b, sort=("i", None, None)))

    def fbin(self, st, op, a, b):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            if a.is_int() and b.is_int():
                return a * b
            return self.rmul(st, a, b, None)
        if op == "Div":
            return self.rdiv(st, a, b, None)
        if op == "Rem":
            return pa(app("frem", a, b, sort=REAL))
        raise Stuck("float " + op)

    def rmul(self, st, a, b, sc):
        if self.field:
            return a * b
        return d_mul(a, b)

    def rdiv(self, st, a, b, sc):
        if self.field:
            return a * inv(b)
        return d_div(a, b)

    CMP = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}

    def compare(self, st, op, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            if self.bits:
                r = bytebits.bcmp(op, a, b)
                if r is not None:
                    return r
            return c_cmp(self.CMP[op], a, b)
        if isinstance(a, (bool, Cond)):
            e = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
            if op == "Eq":
                return e
            if op == "Ne":
                return c_not(e)
            if op == "Lt":
                return c_and(c_not(a), b)
            if op == "Gt":
                return c_and(a, c_not(b))
            if op == "Le":
                return c_or(c_not(a), b)
            return c_or(a, c_not(b))
        e = self.value_eq(st, a, b)
        if op == "Eq":
            return e
        if op == "Ne":
            return c_not(e)
        raise Stuck("comparison of %s" % vshow(a)[:80])

    def value_eq(self, st, a, b):
        """structural equality condition"""
        if a is b or a == b:
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            return c_eq(a - b)
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
        if isinstance(a, Atom) and isinstance(b, Atom):
            return c_eqo(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == "s" and b[0] == "s" and len(a) == len(b):
                r = True
                for x, y in zip(a[1:], b[1:]):
                    r = c_and(r, self.value_eq(st, x, y))
                    if r is False:
                        return False
                return r
            if a[0] == "e" and b[0] == "e":
                if a[1] != b[1]:
                    return False
                r = True
                for x, y in zip(a[2:], b[2:]):
                    r = c_and(r, self.value_eq(st, x, y))
                return r
            if a[0] == "d" and b[0] == "d":
                return c_and(c_eq(a[1] - b[1]), c_eq(a[2] - b[2]))
            if a[0] == "r" and b[0] == "r":
                return self.value_eq(st, self.read(st, a[1], a[2]), self.read(st, b[1], b[2]))
            if a[0] == "f" and b[0] == "f":
                return a[1] == b[1]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Atom) and isinstance(y, tuple) and y[0] == "e":
                ty = x.sort[1]
                d = self.discr(x)
                var = self.types[ty]["variants"][y[1]]
                r = c_eq(d - num(var["discr"]))
                for i, f in enumerate(y[2:]):
                    r = c_and(r, self.value_eq(st, self.step(st, x, ("f", i, y[1])), f))
                return r
        return c_atom(app("veq", self.as_term(a), self.as_term(b), sort=BOOL))

    def as_term(self, v):
        return v

    def discr(self, v):
        if isinstance(v, tuple) and v[0] == "e":
            raise AssertionError
        return pa(app("discr", v, sort=("i", None, None)))

    def discriminant(self, st, v, ty):
        if isinstance(v, tuple) and v[0] == "e":
            return num(self.types[ty]["variants"][v[1]]["discr"])
        if isinstance(v, Atom):
            return pa(app("discr", v, sort=("i", None, None)))
        if v is None:
            can = [x for x in self.types[ty]["variants"] if not any(self.empty_type(f[1]) for f in x["fields"])]
            if len(can) == 1:
                return num(can[0]["discr"])          # the only variant there can be: the compiler leaves it unwritten
            raise Stuck("discriminant of uninitialised")
        raise Stuck("discriminant of %s" % vshow(v)[:80])

    def empty_type(self, ty):
        t = self.types[ty]
        return t["k"] == "never" or t["k"] == "adt" and t.get("adt") == "enum" and not t["variants"]

    def cast(self, st, fr, kind, v, fromty, ty, sp):
        t = self.types[ty]
        if kind == "IntToInt":
            if isinstance(v, (bool, Cond)):
                return c_ite(v, ONE, ZERO)
            if not isinstance(v, Poly):
                v = self.discriminant(st, v, fromty)
            s = self.sort(ty)
            ok = st.decide(c_ge(v - num(s[1]))) is True and st.decide(c_ge(num(s[2]) - v)) is True
            if self.on_cast:
                self.on_cast(self, fr, sp, v, fromty, ty, ok, st)
            if ok:
                return v
            k = v.const()
            if k is not None:
                return num((k - s[1]) % (s[2] - s[1] + 1) + s[1])
            n = s[2] - s[1] + 1
            if st.decide(c_gt(num(s[1]) - v)) is True and st.decide(c_ge(v + num(n - s[1]))) is True:
                return v + num(n)
            return pa(app("trunc", v, sort=s))
        if kind == "IntToFloat":
            return v
        if kind == "FloatToInt":
            s = self.sort(ty)
            if self.on_cast:
                self.on_cast(self, fr, sp, v, fromty, ty, None, st)
            if v.is_int() and s[0] == "i" and st.decide(c_ge(v - num(s[1]))) is True:
                tops = [v] + [ATOMS[a].args[0] for mono in v.m for a, _ in mono if ATOMS[a].op == "fdiv"]
                if any(st.decide(c_ge(t - v)) is True and st.decide(c_ge(num(s[2]) - t)) is True for t in tops):
                    return v
            return pa(app("f2i", v, sort=s))
        if "ClosureFnPointer" in kind:
            # a closure without captures: its environment is never read
            return ("f", self.types[fromty]["fn"], "closure") if self.types[fromty].get("fn") is not None else v
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind and isinstance(v, tuple) and v[0] == "r":
                try:
                    ft, tt = self.types[self.pointee(fromty)], self.types[self.pointee(ty)]
                except Stuck:
                    return v
                if ft["k"] == "array" and tt["k"] == "slice":
                    return ("r", v[1], v[2], num(ft["len"]))
                if tt["k"] == "dyn":
                    return ("r", v[1], v[2], ("f", self.pointee(fromty)))
            return v
        if kind in ("BoxDerefTransmute", "PtrToPtr", "FnPtrToPtr"):
            return v
        if kind == "Transmute":
            ft, tt = self.types[fromty], self.types[ty]
            if isinstance(v, Poly) and tt["k"] in ("uint", "int"):
                return self.cast(st, fr, "IntToInt", v, fromty, ty, sp)
            if ft["k"] in ("ref", "ptr") and tt["k"] in ("ref", "ptr"):
                return v
            if isinstance(v, (Poly, Atom)):
                return self.opaque("transmute", (v,), ty)
            return self.opaque("transmute", (vkey(v),), ty)
        raise Stuck("cast " + kind)

    def rvalue(self, st, fr, rv, dty, sp):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "addr"):
            c, p, m = self.place(st, fr, rv[-1])
            if "*" not in rv[-1][1]:
                m = None
            elif rv[-1][1][-1] != "*":
                m = None
                if p and p[-1][0] == "sub":
                    m = None
            if k == "ref" or True:
                # length for references to slices produced by sub-slicing
                return ("r", c, p, m)
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.binop(st, fr, rv[1], a, b, self.optype(fr, rv[2]), sp)
        if k == "cbin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.with_overflow(st, fr, rv[1], a, b, self.optype(fr, rv[2]), sp)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if isinstance(a, (bool, Cond)):
                    return c_not(a)
                s = self.sort(dty)
                ka = a.const()
                if ka is not None:
                    return num(~ka if s[1] < 0 else s[2] - ka)
                return pa(app("bnot", a, sort=s))
            if rv[1] == "Neg":
                return self.fit(st, fr, -a, dty, "neg", sp)
            if rv[1] == "PtrMetadata":
                if a[3] is None:
                    v = self.read(st, a[1], a[2])
                    return self.alen(st, v)
                return a[3]
            raise Stuck("unary " + rv[1])
        if k == "cast":
            return self.cast(st, fr, rv[1], self.operand(st, fr, rv[2]), self.optype(fr, rv[2]), rv[3], sp)
        if k == "agg":
            fs = tuple(self.operand(st, fr, o) for o in rv[2])
            h = rv[1]
            if h[0] == "adt":
                t = self.types[h[1]]
                if self.is_decimal(h[1]):
                    return self.dec_build(st, *fs)
                if t["adt"] == "enum":
                    return ("e", h[2]) + fs
                return ("s",) + fs
            if h[0] == "array":
                t = self.types[dty]
                if fs and len(fs) > 0 and all(isinstance(x, Poly) and x.const() is not None for x in fs) and self.types[t["elem"]].get("bits") == 8 and self.types[t["elem"]]["k"] == "uint":
                    return app("const", ("bytes", tuple(x.const() for x in fs)), sort=("o", dty))
                return ("s",) + fs
            return ("s",) + fs          # tuple, closure
        if k == "discr":
            c, p, m = self.place(st, fr, rv[1])
            return self.discriminant(st, self.read(st, c, p), self.placetype(fr, rv[1]))
        if k == "len":
            c, p, m = self.place(st, fr, rv[1])
            if m is not None:
                return m
            return self.alen(st, self.read(st, c, p))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if n <= 64:
                return ("s",) + (v,) * n
            return ("R", v, num(n), ("o", dty))
        raise Stuck("rvalue " + k)

    def with_overflow(self, st, fr, op, a, b, ty, sp):
        s = self.sort(ty)
        p = {"Add": a + b, "Sub": a - b, "Mul": None}[op] if op != "Mul" else a * b
        ov = c_or(c_gt(num(s[1]) - p), c_gt(p - num(s[2])))
        d = st.decide(ov)
        if d is False:
            return ("s", p, False)
        # value meaningful only when no overflow: callers test the flag first
        return ("s", pa(app("wrapo", p, sort=s)), ov) if d is None else ("s", pa(app("wrap", p, sort=s)), True)

    # ------------------------------------------------------------- calls
    def run(self, st, fn, args):
        """-> [(state, return value)]"""
        if fn.blocks is None:
            raise Stuck("no body: " + fn.name)
        fr = Frame()
        fr.fn = fn
        fr.depth = len(self.stack) + 1
        fr.site = None
        if fr.depth > 80:
            raise Stuck("call depth")
        self.stack.append(fr)
        self.mir.cfg(fn)
        self.stats["functions"].add(fn.name)
        d = fr.depth
        if fn.spread is not None:
            # rust-call ABI: last argument is a tuple to be spread -> callee local `spread` receives a tuple
            pass
        for i, a in enumerate(args):
            st.env[("L", d, i + 1)] = a
        try:
            ex = self.region(fr, None, 0, [st], None)
        finally:
            self.stack.pop()
        out = []
        for s in ex.get("ret", ()):
            rv = s.env.get(("L", d, 0))
            if rv is None and self.types[fn.locals[0]]["k"] == "tuple":
                rv = ("s",)
            out.append((s, rv))
            s.env = {k: v for k, v in s.env.items() if not (k[0] == "L" and k[1] >= d)}
        return self.merge_rets(out)

    def merge_rets(self, rets):
        if len(rets) < 2:
            return rets
        for s, v in rets:
            s.env[("RV",)] = v
        sts = self.merge([s for s, _ in rets])
        return [(s, s.env.pop(("RV",))) for s in sts]

    def region(self, fr, blocks, entry, states, head):
        """run from `entry` inside `blocks` (None = whole function); edges to `head` or outside are exits"""
        pend = {entry: list(states)}
        exits = {}
        rpo = fr.fn._rpo
        heap = [(rpo[entry], entry)]
        inheap = {entry}
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            sts = pend.pop(b)
            if b in fr.fn._loops and b != head:
                live = fr.fn._live[b]
                for s in sts:
                    self.trim(s, fr.depth, live)
                outs = self.loop(fr, b, self.merge(sts))
            else:
                if len(sts) > 1:
                    live = fr.fn._live[b]
                    for s in sts:
                        self.trim(s, fr.depth, live)
                    sts = self.merge(sts)
                    if len(sts) > self.cap:
                        sts = self.merge(sts, 1)
                    if len(sts) > self.cap:
                        sts = self.join_all(sts)
                outs = []
                for s in sts:
                    outs.extend(self.block(fr, b, s))
            for t, s in outs:
                if t != "ret" and t != head and (blocks is None or t in blocks):
                    pend.setdefault(t, []).append(s)
                    if t not in inheap:
                        heapq.heappush(heap, (rpo[t], t))
                        inheap.add(t)
                else:
                    exits.setdefault(t, []).append(s)
        return exits

    def region_from(self, fr, body, t, ss, head):
        return self.region(fr, body, t, ss, head)

    def trim(self, s, d, live):
        env = s.env
        for k in [k for k in env if k[0] == "L" and k[1] == d and k[2] not in live]:
            del env[k]

    def merge(self, sts, limit=None):
        """union of facts for states with the same store"""
        if len(sts) < 2:
            return sts
        groups = {}
        for s in sts:
            # cells of untouched opaque memory need not agree
            key = frozenset((k, v) for k, v in s.env.items())
            groups.setdefault((key, s.trace), []).append(s)
        out = []
        limit = limit or self.cfg.get("keep", 6)
        for g in groups.values():
            kept = []
            for b in g:
                for i, a in enumerate(kept):
                    if self.exact_union(a, b):
                        kept[i] = self.merge2(a, b)
                        self.stats["joins"] += 1
                        break
                else:
                    kept.append(b)
            while len(kept) > limit:
                b = kept.pop()
                kept[-1] = self.merge2(kept[-1], b)
                self.stats["joins"] += 1
            out.extend(kept)
        return out

    def exact_union(self, a, b):
        """is the interval hull of two sets of facts over the same store their union?"""
        ab = ba = True          # a inside b, b inside a
        diff = 0
        fs = [(F, a.facts.get(F), b.facts.get(F)) for F in a.facts]
        fs += [(F, None, b.facts[F]) for F in b.facts if F not in a.facts]
        for x, y in ((a, b), (b, a)):
            for k, v in x.sub.items():
                if y.sub.get(k) is v:
                    continue
                if not isinstance(v, Poly):
                    return False
                F = pa(ATOMS[k]) - v
                fs.append((F, (0, False, 0, False), None) if x is a else (F, None, (0, False, 0, False)))
        for F, ia, ib in fs:
            if ia == ib:
                continue
            if ia is None:
                ia = a.quick(a.norm(F))
            if ib is None:
                ib = b.quick(b.norm(F))
            if ia == ib:
                continue
            lo = lambda i: (i[0] is not None, i[0] if i[0] is not None else 0, i[1])
            hi = lambda i: (i[2] is None, i[2] if i[2] is not None else 0, not i[3])
            a_in_b = lo(ia) >= lo(ib) and hi(ia) <= hi(ib)
            b_in_a = lo(ib) >= lo(ia) and hi(ib) <= hi(ia)
            ab = ab and a_in_b
            ba = ba and b_in_a
            x, y = (ia, ib) if lo(ia) <= lo(ib) else (ib, ia)
            # contiguous: x's end reaches y's start
            if x[2] is not None and y[0] is not None and (x[2] < y[0] or (x[2] == y[0] and x[3] and y[1])):
                if not (F.is_int() and x[2] + 1 >= y[0] and not x[3] and not y[1]):
                    return False
            diff += 1
        for x, y, ina in ((a, b, True), (b, a, False)):
            for c, v in x.bools.items():
                w = y.bools.get(c)
                if w is None:
                    w = y.decide(c)
                if w is v:
                    continue
                if w is None:
                    if ina:
                        ba = False
                    else:
                        ab = False
                    diff += 1
                else:
                    ab = ba = False
                    diff += 1 if ina else 0
            for H, pts in x.excl.items():
                if not pts <= y.excl.get(H, frozenset()):
                    q = y.quick(y.norm(H))
                    if any((q[0] is None or q[0] < p or (q[0] == p and not q[1])) and (q[2] is None or q[2] > p or (q[2] == p and not q[3])) for p in pts):
                        return False
        return ab or ba or diff <= 1

    def merge2(self, a, b):
        from state import hull
        r = State()
        r.env = a.env
        r.trace = a.trace
        for F in list(a.facts) + [F for F in b.facts if F not in a.facts]:
            ia = a.facts.get(F)
            ib = b.facts.get(F)
            if ia is None:
                ia = a.quick(a.norm(F))
            if ib is None:
                ib = b.quick(b.norm(F))
            h = hull(ia, ib)
            if h[0] is not None or h[2] is not None:
                r.facts[F] = h
        for H in [H for H in a.excl if H in b.excl]:
            p = a.excl[H] & b.excl[H]
            if p:
                r.excl[H] = p
        for c, v in a.bools.items():
            if b.bools.get(c) is v or b.decide(c) is v:
                r.bools[c] = v
        for c, v in b.bools.items():
            if c not in r.bools and a.decide(c) is v:
                r.bools[c] = v
        for k, v in a.sub.items():
            if b.sub.get(k) is v:
                r.sub[k] = v
        # substitutions known on one side only: keep what is left of them as bounds
        extra = []
        for x, y in ((a, b), (b, a)):
            for k, v in x.sub.items():
                if k in r.sub or not isinstance(v, Poly):
                    continue
                F = pa(ATOMS[k]) - v
                q = y.quick(y.norm(F))
                h = hull((0, False, 0, False), q)
                if h[0] is not None:
                    extra.append((c_gt if h[1] else c_ge)(F - num(h[0])))
                if h[2] is not None:
                    extra.append((c_gt if h[3] else c_ge)(num(h[2]) - F))
        for c in extra:
            if c is not True:
                r.assume(c)
        return r

    def block(self, fr, b, st):
        """-> [(target, state)]"""
        self.stats["blocks"] += 1
        if self.deadline and self.stats["blocks"] % 256 == 0:
            import time
            if time.time() > self.deadline:
                raise Stuck("analysis time limit")
        bl = fr.fn.blocks[b]
        d = fr.depth
        try:
            for s in bl["s"]:
                k = s[0]
                if k == "=":
                    pl = s[1]
                    if not pl[1]:
                        st.env[("L", d, pl[0])] = self.rvalue(st, fr, s[2], fr.fn.locals[pl[0]], s[3])
                    else:
                        v = self.rvalue(st, fr, s[2], self.placetype(fr, pl), s[3])
                        self.assign(st, fr, pl, v)
                elif k == "sx" or k == "sl":
                    st.env.pop(("L", d, s[1]), None)
                elif k == "sd":
                    c, p, m = self.place(st, fr, s[1])
                    ty = self.placetype(fr, s[1])
                    v = self.read(st, c, p)
                    if v is None:
                        self.write(st, c, p, ("e", s[2]) + (None,) * len(self.types[ty]["variants"][s[2]]["fields"]))
                    elif isinstance(v, tuple) and v[0] == "e" and v[1] == s[2]:
                        pass
                    else:
                        raise Stuck("set discriminant")
            return self.terminator(fr, b, bl, st)
        except Infeasible:
            return []
        except Stuck as e:
            if not getattr(e, "where", None):
                e.where = "%s bb%d %s" % (fr.fn.name, b, self.mir.src(bl["sp"]))
                e.args = (str(e) + " @ " + e.where,)
            raise

    def assign(self, st, fr, pl, v):
        if not pl[1]:
            st.env[("L", fr.depth, pl[0])] = v
            return
        c, p, m = self.place(st, fr, pl)
        self.write(st, c, p, v, fr.fn.locals[pl[0]] if c == ("L", fr.depth, pl[0]) else None)

    def terminator(self, fr, b, bl, st):
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "unreachable" or k == "resume":
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            return self.switch(st, self.operand(st, fr, t[1]), t[2], t[3])
        if k == "assert":
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = c_not(c)
            yes, no = st.split(c)
            if no is not None and self.on_panic:
                self.on_panic(self, fr, bl["sp"], "assert " + str(t[3])[:60], no)
            return [(t[4], yes)] if yes is not None else []
        if k == "call":
            args = [self.operand(st, fr, o) for o in t[2]]
            rets = self.call(st, fr, t[1], args, bl["sp"], self.placetype(fr, t[3]))
            if t[4] is None:
                return []
            out = []
            for s, v in rets:
                self.assign(s, fr, t[3], v)
                out.append((t[4], s))
            return out
        raise Stuck("terminator " + k)

    def switch(self, st, v, arms, other):
        out = []
        if isinstance(v, (bool, Cond)):
            # arms: [[0, F]] or [[1, T]]
            m = {val: blk for val, blk in arms}
            tb = m.get(1, other)
            fb = m.get(0, other)
            yes, no = st.split(v)
            if no is not None:
                out.append((fb, no))
            if yes is not None:
                out.append((tb, yes))
            return out
        if not isinstance(v, Poly):
            raise Stuck("switch on " + vshow(v)[:80])
        at = v.atom()
        if at is not None and at.op == "ite":
            res = []
            c = at.args[0]
            yes, no = st.split(c)
            if yes is not None:
                res.extend(self.switch(yes, yes.norm(at.args[1]), arms, other))
            if no is not None:
                res.extend(self.switch(no, no.norm(at.args[2]), arms, other))
            return res
        cur = st
        for val, blk in arms:
            c = c_eq(cur.norm(v) - num(val))
            yes, no = cur.split(c)
            if yes is not None:
                out.append((blk, yes))
            cur = no
            if cur is None:
                return out
        if at is not None and at.op == "discr" and isinstance(at.args[0], Atom):
            t = self.types[at.args[0].sort[1]]
            if set(x["discr"] for x in t["variants"]) <= set(a for a, _ in arms):
                return out
            rest = [x for x in t["variants"] if x["discr"] not in [a for a, _ in arms]]
            if len(rest) == 1:
                try:
                    cur.assume(c_eq(cur.norm(v) - num(rest[0]["discr"])))
                except Infeasible:
                    return out
        out.append((other, cur))
        return out

    def call(self, st, fr, callee, args, sp, rty):
        self.stats["calls"] += 1
        if "ptr" in callee:
            f = self.operand(st, fr, callee["ptr"])
            if isinstance(f, tuple) and f[0] == "f" and f[1] is not None:
                fn = self.mir.fns[f[1]]
                if len(f) == 3:
                    args = [("s",)] + list(args)
            else:
                return self.havoc_call(st, "fnptr", args, rty)
        else:
            fn = self.mir.fns.get(callee["inst"]) if callee.get("inst") is not None else None
            if fn is None:
                return self.unknown(st, fr, callee["def"], args, rty, sp, callee)
        return self.invoke(st, fr, fn, callee, args, sp, rty)

    def invoke(self, st, fr, fn, callee, args, sp, rty):
        if self.types[rty]["k"] == "never":
            if self.on_panic:
                self.on_panic(self, fr, sp, fn.name, st)
            return []
        key = fn.id
        m = self._dispatch.get(key)
        if m is None:
            m = [x for x in (self.models.get(fn.defp) or self.models.get(fn.name),) if x]
            if not m:
                m = [f for rx, f in self.rmodels if rx.search(fn.name) or rx.search(fn.defp)]
            self._dispatch[key] = m
        for f in m:
            r = f(self, st, fr, fn, args, sp, rty)
            if r is not NotImplemented:
                if isinstance(r, list):
                    return r
                return [(st, r)]
        if fn.blocks is not None:
            if self.cfg.get("summ", self.decnum) and self.scalar_loop(fn):
                # loop over scalars only: an (uninterpreted) function of its arguments
                self.stats.setdefault("summaries", set()).add(fn.name)
                return [(st, self.opaque("fn", (fn.id,) + tuple(args), rty))]
            if fn.spread is None and CLOSURE.search(fn.name) and len(args) == 2 and (callee is None or "ops::Fn" in callee.get("def", "")) \
                    and isinstance(args[1], tuple) and args[1] and args[1][0] == "s" and len(args[1]) == fn.argc:
                args = [args[0]] + list(args[1][1:])
            return self.run(st, fn, args)
        return self.unknown(st, fr, fn.name, args, rty, sp, callee)

    def scalar_loop(self, fn):
        r = self._scalar.get(fn.id)
        if r is None:
            def sc(t):
                t = self.types[t]
                return t["k"] in ("uint", "int", "bool", "float", "char") or t.get("path") == "hmmcl_sandbox::decimal::Decimal"
            r = False
            if fn.local and fn.kind != "closure" and all(sc(t) for t in fn.locals[:fn.argc + 1]):
                self.mir.cfg(fn)
                r = bool(fn._loops)
            self._scalar[fn.id] = r
        return r

    def unknown(self, st, fr, name, args, rty, sp, callee):
        k = self.types[rty]["k"]
        if k == "never":
            if self.on_panic:
                self.on_panic(self, fr, sp, name, st)
            return []
        return self.havoc_call(st, name, args, rty)

    def havoc_call(self, st, name, args, rty):
        """unmodelled external function: fresh result, contents behind mutable references unknown"""
        h = self.stats["havoc_calls"]
        h[name] = h.get(name, 0) + 1
        if self.cfg.get("strict"):
            raise Stuck("unmodelled external function " + name)
        return [(st, self.opaque("sym", ("%s#%d" % (name.split("::")[-1], self.newid()),), rty))]

    _id = 0

    def newid(self):
        Engine._id += 1
        return Engine._id

    # ------------------------------------------------------------- loops and joins
    def loop(self, fr, h, sts):
        import fixpoint
        return fixpoint.run_loop(self, fr, h, sts)

    def join_all(self, sts):
        import fixpoint
        return fixpoint.join_states(self, sts)


def self_box(v):
    return True


def vkey(v):
    return v


EVEN = [True]       # a number and its negation have the same digits: one term for both, unless the rule asks which it was


def p_mant(n, s):
    """digits (absolute value times 10^s) of a number at a scale; the sign is dropped"""
    k, ks = n.const(), s.const()
    if k is not None and ks is not None:
        x = abs(Fraction(k)) * 10 ** ks
        if x.denominator == 1:
            return num(x.numerator)
    if EVEN[0]:
        n = sgn_canon(n)[1] if n.m else n
    if not n.m:
        return ZERO
    at = n.atom()
    if at is not None and at.op == "dec" and at.args[1] is s:
        return at.args[0]
    return pa(app("mant", n, s, sort=isort(128, False)))


REBUILD["sgn"] = lambda args, sort: (-args[1] if args[0] is True else args[1] if args[0] is False else pa(app("sgn", *args, sort=sort)))
REBUILD["mant"] = lambda args, sort: p_mant(*args)


def p_dec(v, s):
    """non-negative number with digits v at scale s"""
    ks = s.const()
    if ks is not None:
        return v.scale(Fraction(1, 10 ** ks))
    if v.const() == 0:
        return ZERO
    return pa(app("dec", v, s, sort=REAL))


REBUILD["dec"] = lambda args, sort: p_dec(*args)
ABOUNDS["dec"] = lambda st, a, depth: (0, False, None, False)


def _mant_ax(st, a):
    n, s = a.args
    ks = s.const()
    if ks is None:
        return []
    d = pa(a) - n.scale(10 ** ks)
    if st.ge0(n):
        return [(d, 0, False, 0, False)]
    if st.ge0(-n):
        return [(pa(a) + n.scale(10 ** ks), 0, False, 0, False)]
    return []


AXIOMS["mant"] = _mant_ax


def sgn_canon(p):
    """(sign, canonical) with canonical having a positive leading coefficient"""
    l = lead(p)
    if l is None:
        k = p.const()
        return (-1, -p) if k < 0 else (1, p)
    return (-1, -p) if p.m[l] < 0 else (1, p)


def d_mul(a, b):
    if not a.m or not b.m:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    for x, y in ((a, b), (b, a)):
        k = x.const()
        if k is not None and isinstance(k, int):
            return y.scale(k)
    if a.const() is not None and b.const() is not None:
        return num(a.const() * b.const()) if (Fraction(a.const() * b.const()) * 10 ** 12).denominator == 1 else pa(app("dmul", a, b, sort=REAL))
    sa, a = sgn_canon(a)
    sb, b = sgn_canon(b)
    if a.id > b.id:
        a, b = b, a
    r = pa(app("dmul", a, b, sort=REAL))
    return r if sa * sb > 0 else -r


REBUILD["dmul"] = lambda args, sort: d_mul(*args)


def d_div(a, b):
    if not a.m:
        return ZERO
    if b.const() in (1, -1):
        return a.scale(b.const())
    if a is b:
        return ONE
    if a.const() is not None and b.const() is not None and b.const() != 0:
        q = Fraction(a.const()) / b.const()
        if (q * 10 ** 12).denominator == 1:
            return num(q)
    sa, a = sgn_canon(a)
    sb, b = sgn_canon(b)
    r = pa(app("ddiv", a, b, sort=REAL))
    return r if sa * sb > 0 else -r


REBUILD["ddiv"] = lambda args, sort: d_div(*args)


def _sign_b(st, a, depth):
    """sign of product / quotient (rounding toward zero keeps weak signs)"""
    x, y = st.bound(a.args[0], 1), st.bound(a.args[1], 1)

    def sg(b):
        if b[0] is not None and b[0] >= 0:
            return 1
        if b[2] is not None and b[2] <= 0:
            return -1
        return 0
    s = sg(x) * sg(y)
    if s > 0:
        return (0, False, None, False)
    if s < 0:
        return (None, False, 0, False)
    return TOP


ABOUNDS["dmul"] = _sign_b
ABOUNDS["ddiv"] = _sign_b


def vshow(v):
    if isinstance(v, (Poly, Atom, Cond)):
        return show(v)
    if isinstance(v, tuple):
        if v and v[0] == "d":
            return show(v[1]) if v[2].const() == 12 else "%s@%s" % (show(v[1]), show(v[2]))
        return "(" + ", ".join(vshow(x) for x in v) + ")"
    return str(v)
