"""Hash-consed symbolic terms: atoms, polynomials over atoms with rational coefficients, and boolean conditions."""
from fractions import Fraction

ATOMS = []          # id -> Atom
_atab = {}
_ptab = {}
_ctab = {}
EMPTY = frozenset()


class Atom:
    __slots__ = ("id", "op", "args", "sort", "deps")

    def __repr__(self):
        return show_atom(self)


def deps_of(x):
    if isinstance(x, (Atom, Poly, Cond)):
        return x.deps
    if isinstance(x, tuple):
        d = EMPTY
        for y in x:
            dy = deps_of(y)
            if dy:
                d = d | dy
        return d
    return EMPTY


def app(op, *args, sort):
    k = (op, args, sort)
    a = _atab.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.op = op
        a.args = args
        a.sort = sort
        a.deps = deps_of(args) | frozenset((a.id,))
        ATOMS.append(a)
        _atab[k] = a
    return a


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return app("sym", name + "#" + str(_fresh[0]), sort=sort)


def sym(name, sort):
    return app("sym", name, sort=sort)


REAL = "r"
BOOL = "b"


def isort(bits, signed):
    return ("i", -(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else ("i", 0, (1 << bits) - 1)


def _c(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


class Poly:
    __slots__ = ("m", "deps", "id", "_int")

    def const(self):
        """value if constant else None"""
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def atom(self):
        """the atom if this is exactly one atom with coefficient 1"""
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                return ATOMS[mono[0][0]]
        return None

    def is_int(self):
        if self._int is None:
            r = True
            for mono, c in self.m.items():
                if isinstance(c, Fraction):
                    r = False
                    break
                for aid, e in mono:
                    if e < 0 or ATOMS[aid].sort[0] != "i":
                        r = False
                        break
                if not r:
                    break
            self._int = r
        return self._int

    def atoms(self):
        return {aid for mono in self.m for aid, _ in mono}

    def __add__(a, b):
        if not a.m:
            return b
        if not b.m:
            return a
        m = dict(a.m)
        for k, c in b.m.items():
            x = m.get(k, 0) + c
            if x == 0:
                del m[k]
            else:
                m[k] = _c(x)
        return mk(m)

    def __neg__(a):
        return mk({k: -c for k, c in a.m.items()})

    def __sub__(a, b):
        return a + (-b)

    def scale(a, f):
        if f == 0:
            return ZERO
        if f == 1:
            return a
        return mk({k: _c(c * f) for k, c in a.m.items()})

    def __mul__(a, b):
        ca, cb = a.const(), b.const()
        if ca is not None:
            return b.scale(ca)
        if cb is not None:
            return a.scale(cb)
        m = {}
        for k1, c1 in a.m.items():
            for k2, c2 in b.m.items():
                k = mono_mul(k1, k2)
                x = m.get(k, 0) + c1 * c2
                if x == 0:
                    m.pop(k, None)
                else:
                    m[k] = _c(x)
        return mk(m)

    def __repr__(self):
        return show(self)


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        x = d.get(k, 0) + e
        if x == 0:
            del d[k]
        else:
            d[k] = x
    return tuple(sorted(d.items()))


def mk(m):
    k = frozenset(m.items())
    p = _ptab.get(k)
    if p is None:
        p = Poly()
        p.m = m
        d = EMPTY
        for mono in m:
            for aid, _ in mono:
                d = d | ATOMS[aid].deps
        p.deps = d
        p.id = len(_ptab)
        p._int = None
        _ptab[k] = p
    return p


def num(c):
    c = _c(c)
    return mk({(): c}) if c != 0 else ZERO


def pa(atom):
    return mk({((atom.id, 1),): 1})


def psym(name, sort):
    return pa(sym(name, sort))


ZERO = mk({})
ONE = num(1)


def lead(p):
    """deterministic leading monomial (non-constant)"""
    ks = [k for k in p.m if k != ()]
    return max(ks, key=lambda k: (len(k), k)) if ks else None


_homc = {}


def hom(p):
    """p = k*H + c with H primitive (lead coefficient > 0, integer content 1). returns (H, k, c)"""
    r = _homc.get(p)
    if r is not None:
        return r
    c = p.m.get((), 0)
    l = lead(p)
    if l is None:
        r = (None, 0, c)
    else:
        from math import gcd
        den = 1
        for k, x in p.m.items():
            if k != () and isinstance(x, Fraction):
                den = den * x.denominator // gcd(den, x.denominator)
        g = 0
        for k, x in p.m.items():
            if k != ():
                g = gcd(g, int(x * den))
        f = Fraction(g, den)
        if p.m[l] < 0:
            f = -f
        H = mk({k: _c(Fraction(x) / f) for k, x in p.m.items() if k != ()})
        r = (H, _c(f), c)
    _homc[p] = r
    return r


# ------------------------------------------------------------------ conditions
class Cond:
    """op: 'ge' (p>=0), 'gt' (p>0), 'eq' (p==0), 'ne', 'atom' (bool atom), 'eqo' (equality of two non numeric terms), 'not','and','or'"""
    __slots__ = ("op", "args", "deps", "id")

    def __repr__(self):
        return show_cond(self)


def _mkc(op, *args):
    k = (op, args)
    c = _ctab.get(k)
    if c is None:
        c = Cond()
        c.op = op
        c.args = args
        c.deps = deps_of(args)
        c.id = len(_ctab)
        _ctab[k] = c
    return c


def c_ge(p):
    k = p.const()
    if k is not None:
        return k >= 0
    if p.is_int():
        H, f, c = hom(p)           # f*H + c >= 0, tighten to gcd
        if abs(f) != 1:
            from math import floor
            q = Fraction(c) / abs(f)
            p = (H if f > 0 else -H) + num(floor(q))
    return _mkc("ge", p)


def c_gt(p):
    k = p.const()
    if k is not None:
        return k > 0
    if p.is_int():
        return c_ge(p - ONE)
    return _mkc("gt", p)


def c_eq(p):
    k = p.const()
    if k is not None:
        return k == 0
    H, f, c = hom(p)
    c = Fraction(c) / f
    if p.is_int() and c.denominator != 1:
        return False
    return _mkc("eq", H + num(c))


def c_ne(p):
    return c_not(c_eq(p))


def c_atom(a):
    return _mkc("atom", a)


def c_eqo(a, b):
    if a is b:
        return True
    if a.op == "const" and b.op == "const":
        return False
    if a.id > b.id:
        a, b = b, a
    return _mkc("eqo", a, b)


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c.op == "ge":
        return c_gt(-c.args[0])
    if c.op == "gt":
        return c_ge(-c.args[0])
    if c.op == "eq":
        return _mkc("ne", c.args[0])
    if c.op == "ne":
        return _mkc("eq", c.args[0])
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return c_or(c_not(c.args[0]), c_not(c.args[1]))
    if c.op == "or":
        return c_and(c_not(c.args[0]), c_not(c.args[1]))
    return _mkc("not", c)


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True or a is b:
        return a
    if c_not(a) is b:
        return False
    if a.id > b.id:
        a, b = b, a
    return _mkc("and", a, b)


def c_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False or a is b:
        return a
    if c_not(a) is b:
        return True
    if a.id > b.id:
        a, b = b, a
    return _mkc("or", a, b)


def c_cmp(op, a, b):
    """op in lt le gt ge eq ne on polynomials"""
    if op == "lt":
        return c_gt(b - a)
    if op == "le":
        return c_ge(b - a)
    if op == "gt":
        return c_gt(a - b)
    if op == "ge":
        return c_ge(a - b)
    if op == "eq":
        return c_eq(a - b)
    if op == "ne":
        return c_ne(a - b)
    raise ValueError(op)


# ------------------------------------------------------------------ substitution
def subst(x, s, memo):
    """substitute atoms (dict atom.id -> Poly | Atom | Cond/bool) deeply in terms / tuples"""
    if isinstance(x, (Poly, Atom, Cond)):
        if s.keys().isdisjoint(x.deps):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, Poly):
            r = ZERO
            for mono, c in x.m.items():
                t = num(c)
                for aid, e in mono:
                    a = ATOMS[aid]
                    if s.keys().isdisjoint(a.deps):
                        v = mk({((aid, e),): 1})
                    else:
                        v = subst(a, s, memo)
                        if not isinstance(v, Poly):
                            v = pa(v)
                        v = ppow(v, e)
                    t = t * v
                r = r + t
        elif isinstance(x, Atom):
            r = s.get(x.id)
            if r is None:
                na = subst(x.args, s, memo)
                r = rebuild(x, na)
        else:
            a = [subst(y, s, memo) if not isinstance(y, bool) else y for y in x.args]
            o = x.op
            if o == "ge":
                r = c_ge(a[0])
            elif o == "gt":
                r = c_gt(a[0])
            elif o == "eq":
                r = c_eq(a[0])
            elif o == "ne":
                r = c_ne(a[0])
            elif o == "atom":
                r = a[0] if isinstance(a[0], (Cond, bool)) else c_atom(a[0])
            elif o == "eqo":
                r = c_eqo(a[0], a[1])
            elif o == "not":
                r = c_not(a[0])
            elif o == "and":
                r = c_and(a[0], a[1])
            elif o == "or":
                r = c_or(a[0], a[1])
        memo[x] = r
        return r
    if isinstance(x, tuple):
        ch = False
        out = []
        for y in x:
            z = subst(y, s, memo)
            if z is not y:
                ch = True
            out.append(z)
        return tuple(out) if ch else x
    return x


REBUILD = {}      # op -> smart constructor(args, sort) -> Poly/Atom/Cond


def rebuild(a, args):
    f = REBUILD.get(a.op)
    if f is not None:
        return f(args, a.sort)
    return app(a.op, *args, sort=a.sort)


def inv(p):
    """exact multiplicative inverse as a term (field mode)"""
    k = p.const()
    if k is not None:
        if k == 0:
            return pa(app("inv", ZERO, sort=REAL))
        return num(Fraction(1) / k)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        return mk({tuple((a, -e) for a, e in mono): _c(Fraction(1) / c)})
    # pull the monomial content out
    common = None
    for mono in p.m:
        d = dict(mono)
        common = d if common is None else {a: min(e, d.get(a, 0)) if a in d or e < 0 else 0 for a, e in
                                          list(common.items()) + [(a, 0) for a in d if a not in common and d[a] < 0]}
    common = {a: e for a, e in (common or {}).items() if e}
    lp = lead(p)
    c = p.m[lp] if lp in p.m else 1
    cm = tuple(sorted((a, -e) for a, e in common.items()))
    q = (p * mk({cm: 1})).scale(Fraction(1) / c) if cm else p.scale(Fraction(1) / c)
    r = mk({((app("inv", q, sort=REAL).id, 1),): _c(Fraction(1) / c)})
    return r * mk({cm: 1}) if cm else r


REBUILD["inv"] = lambda args, sort: inv(args[0])


def ppow(p, e):
    if e == 1:
        return p
    if e < 0:
        return ppow(inv(p), -e)
    r = ONE
    for _ in range(e):
        r = r * p
    return r


def field_zero(p, depth=0):
    """is p == 0 as a rational function (all inverted polynomials non-zero)"""
    if not p.m:
        return True
    if depth > 40:
        return False
    ia = None
    for mono in p.m:
        for aid, e in mono:
            if ATOMS[aid].op == "inv" and (ia is None or len(ATOMS[aid].deps) > len(ATOMS[ia].deps)):
                ia = aid
    if ia is None:
        return False
    q = ATOMS[ia].args[0]
    k = 0
    parts = {}
    for mono, c in p.m.items():
        d = dict(mono)
        e = d.pop(ia, 0)
        parts.setdefault(e, {})[tuple(sorted(d.items()))] = c
        k = max(k, e)
    r = ZERO
    for e, m in parts.items():
        r = r + mk(m) * ppow(q, k - e)
    return field_zero(r, depth + 1)


# ------------------------------------------------------------------ printing
def show(x, d=0):
    if isinstance(x, Poly):
        if not x.m:
            return "0"
        out = []
        for mono, c in sorted(x.m.items(), key=lambda kv: kv[0]):
            s = "*".join(show_atom(ATOMS[a], d + 1) + ("^%d" % e if e != 1 else "") for a, e in mono)
            if not mono:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            out.append(s)
        return " + ".join(out).replace("+ -", "- ")
    if isinstance(x, Atom):
        return show_atom(x, d)
    if isinstance(x, Cond):
        return show_cond(x, d)
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y, d) for y in x) + ")"
    return str(x)


INFIX = {"dmul": "*", "ddiv": "/"}


def show_atom(a, d=0):
    if d > 8:
        return "..."
    if a.op == "sym":
        return a.args[0]
    if a.op == "const":
        v = a.args[0]
        return repr(v) if len(repr(v)) < 40 else repr(v)[:37] + ".."
    if a.op == ".":
        return show(a.args[0], d + 1) + "." + str(a.args[-1])
    if a.op == "num":
        return show(a.args[0], d + 1)
    if a.op in INFIX:
        return "(%s %s %s)" % (show(a.args[0], d + 1), INFIX[a.op], show(a.args[1], d + 1))
    return "%s(%s)" % (a.op, ", ".join(show(y, d + 1) for y in a.args))


def show_cond(c, d=0):
    if c is True or c is False:
        return str(c)
    o = {"ge": " >= 0", "gt": " > 0", "eq": " == 0", "ne": " != 0"}.get(c.op)
    if o:
        return show(c.args[0], d + 1) + o
    if c.op == "atom":
        return show(c.args[0], d + 1)
    if c.op == "eqo":
        return "%s == %s" % (show(c.args[0], d + 1), show(c.args[1], d + 1))
    if c.op == "not":
        return "!(%s)" % show(c.args[0], d + 1)
    return "(%s %s %s)" % (show(c.args[0], d + 1), c.op, show(c.args[1], d + 1))
