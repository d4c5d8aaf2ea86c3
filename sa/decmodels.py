"""Number-level transfer functions of the Decimal API (what D01-D07 decide about decimal.rs itself)."""
import re
from fractions import Fraction
from terms import *
from state import AXIOMS, ABOUNDS, TOP
import engine as EN
from engine import Stuck, c_ite, d_mul, d_div, sgn_canon, vshow
from models import some, ok, err, NONE, UNIT, deref, m_minmax

TW = num(12)
TAB = {}


def dm(*names):
    def d(f):
        for n in names:
            TAB[n] = f
        return f
    return d


RX = re.compile(r"^(?:<hmmcl_sandbox::decimal::Decimal as (?P<tr>.*)>|hmmcl_sandbox::decimal::Decimal)::(?P<m>\w+)$")


def register(E):
    def disp(E, st, fr, fn, args, sp, rty):
        g = RX.match(fn.name)
        tr = (g.group("tr") or "").replace("hmmcl_sandbox::decimal::", "").replace("std::convert::", "").replace("std::cmp::", "").replace("std::clone::", "").replace("std::ops::", "").replace("std::default::", "").replace("std::str::", "").replace("std::fmt::", "")
        f = TAB.get((tr + "." if tr else "") + g.group("m")) or TAB.get(g.group("m") if not tr else tr.split("<")[0] + "." + g.group("m"))
        if f is None:
            return NotImplemented
        args = [deref(E, st, a) if isinstance(a, tuple) and a and a[0] == "r" else a for a in args]
        return f(E, st, fr, fn, args, sp, rty)
    E.rmodels.insert(0, (RX, disp))


def dnum(v):
    if not (isinstance(v, tuple) and v and v[0] == "d"):
        raise Stuck("decimal expected, got " + vshow(v)[:80])
    return v[1], v[2]


@dm("new")
def d_new(E, st, fr, fn, a, sp, rty):
    return E.dec_build(st, a[0], a[1], a[2])


@dm("one")
def d_one(E, st, fr, fn, a, sp, rty):
    return ("d", ONE, TW)


@dm("two")
def d_two(E, st, fr, fn, a, sp, rty):
    return ("d", num(2), TW)


@dm("from_u64", "from_u128")
def d_from(E, st, fr, fn, a, sp, rty):
    return ("d", a[0], ZERO)


@dm("from_scaled_amount")
def d_fromsc(E, st, fr, fn, a, sp, rty):
    return ("d", EN.p_dec(a[0], a[1]), a[1])


@dm("Default.default")
def d_default(E, st, fr, fn, a, sp, rty):
    return ("d", ZERO, ZERO)


def sign_cases(st, n):
    """[(state, +1/-1)]; +1 includes zero"""
    at = n.atom()
    if at is not None and at.op in ("rdn", "rup"):
        for x in (at.args[0], -at.args[0]):
            if st.ge0(x):
                return [(st, 1 if x is at.args[0] else -1)]
    p, m = st.split(c_ge(n))
    return [(s, k) for s, k in ((p, 1), (m, -1)) if s is not None]


def rescale(n, s, up=False):
    """number with at most s decimal digits, toward zero (away from zero if up); odd"""
    if not n.m:
        return n
    ks = s.const()
    k = n.const()
    if k is not None and ks is not None:
        x = abs(Fraction(k)) * 10 ** ks
        q = x.numerator // x.denominator
        if up and q != x:
            q += 1
        return num(Fraction(q if k > 0 else -q, 10 ** ks))
    if ks == 0 and n.is_int():
        return n
    sg, m = sgn_canon(n)
    r = pa(app("rup" if up else "rdn", m, s, sort=("i", None, None) if ks == 0 else REAL))
    return r if sg > 0 else -r


REBUILD["rdn"] = lambda a, sort: rescale(a[0], a[1])
REBUILD["rup"] = lambda a, sort: rescale(a[0], a[1], True)


def _rs_b(st, a, depth):
    b = st.bound(a.args[0], 1)
    if b[0] is not None and b[0] >= 0:
        return (0, False, None, False)
    if b[2] is not None and b[2] <= 0:
        return (None, False, 0, False)
    return TOP


ABOUNDS["rdn"] = ABOUNDS["rup"] = _rs_b


def _rdn_ax(st, a):
    n, s = a.args
    ks = s.const()
    if ks is None:
        return []
    u = Fraction(1, 10 ** ks)
    d = n - pa(a)
    if st.ge0(n):
        return [(d, 0, False, u, True)]
    if st.ge0(-n):
        return [(d, -u, True, 0, False)]
    return [(d, -u, True, u, True)]


def _rup_ax(st, a):
    n, s = a.args
    ks = s.const()
    if ks is None:
        return []
    u = Fraction(1, 10 ** ks)
    d = pa(a) - n
    if st.ge0(n):
        return [(d, 0, False, u, True)]
    if st.ge0(-n):
        return [(d, -u, True, 0, False)]
    return [(d, -u, True, u, True)]


AXIOMS["rdn"] = _rdn_ax
AXIOMS["rup"] = _rup_ax


def to_scale(E, n, sc, s, up=False):
    ks, ko = s.const(), sc.const()
    if s is sc or (ks is not None and ko is not None and ks >= ko) or E.field:
        return ("d", n, s)
    return ("d", rescale(n, s, up), s)


@dm("to_scale")
def d_toscale(E, st, fr, fn, a, sp, rty):
    n, sc = dnum(a[0])
    return to_scale(E, n, sc, a[1])


@dm("to_scale_up")
def d_toscaleup(E, st, fr, fn, a, sp, rty):
    n, sc = dnum(a[0])
    return to_scale(E, n, sc, a[1], True)


@dm("to_compute_scale")
def d_tocs(E, st, fr, fn, a, sp, rty):
    n, sc = dnum(a[0])
    return to_scale(E, n, sc, TW)


def to_int(E, st, fr, v, sc, sp, ty, what):
    """digits of the value as a machine integer: panics when out of range"""
    n, s = dnum(v)
    out = []
    ks = s.const()
    x = n.scale(10 ** ks) if ks is not None else None
    if x is None or (not x.is_int() and x.const() is None):
        x0 = EN.p_mant(n, s)
        cases = [(st, x0)]
    else:
        cases = [(t, t.norm(x).scale(k)) for t, k in sign_cases(st, n)]
    so = E.sort(ty)
    for t, x in cases:
        good, bad = t.split(c_ge(num(so[2]) - x))
        if bad is not None and E.on_panic:
            E.on_panic(E, fr, sp, what, bad)
        if good is not None:
            out.append((good, x))
    return out


@dm("to_u64", "Into.into")
def d_tou64(E, st, fr, fn, a, sp, rty):
    t = E.types[rty]
    if t["k"] == "float":
        return dnum(a[0])[0]
    if t["k"] == "int":
        n, s = dnum(a[0])
        ks = s.const()
        x = n.scale(10 ** ks) if ks is not None else None
        so = E.sort(rty)
        if x is None or not x.is_int():
            return pa(app("digits", n, s, sort=so))
        good, bad = st.split(c_and(c_ge(x - num(so[1])), c_ge(num(so[2]) - x)))
        if bad is not None and E.on_panic:
            E.on_panic(E, fr, sp, "into", bad)
        return [(good, x)] if good is not None else []
    return to_int(E, st, fr, a[0], None, sp, rty, fn.name)


@dm("abs", "abs_up")
def d_abs(E, st, fr, fn, a, sp, rty):
    n, sc = dnum(a[0])
    return to_int(E, st, fr, to_scale(E, n, sc, ZERO, fn.name.endswith("_up")), ZERO, sp, rty, fn.name)


@dm("to_scaled_amount", "to_scaled_amount_up")
def d_tosa(E, st, fr, fn, a, sp, rty):
    n, sc = dnum(a[0])
    return to_int(E, st, fr, to_scale(E, n, sc, a[1], fn.name.endswith("_up")), a[1], sp, rty, fn.name)


@dm("denominator")
def d_den(E, st, fr, fn, a, sp, rty):
    return EN.p_pow10(dnum(a[0])[1])


@dm("is_positive")
def d_ispos(E, st, fr, fn, a, sp, rty):
    return c_gt(dnum(a[0])[0])


@dm("is_negative")
def d_isneg(E, st, fr, fn, a, sp, rty):
    return c_gt(-dnum(a[0])[0])


@dm("is_zero")
def d_iszero(E, st, fr, fn, a, sp, rty):
    return c_eq(dnum(a[0])[0])


@dm("Neg.neg")
def d_neg(E, st, fr, fn, a, sp, rty):
    n, s = dnum(a[0])
    return ("d", -n, s)


@dm("Clone.clone")
def d_clone(E, st, fr, fn, a, sp, rty):
    return a[0]


def same_scale(E, st, s, t, good):
    c = c_eq(s - t)
    if c is True:
        return [(st, good)]
    if c is False:
        return [(st, None)]
    y, n = st.split(c)
    return [(x, g) for x, g in ((y, good), (n, None)) if x is not None]


def errv(E, rty):
    ety = E.types[rty]["variants"][1]["fields"][0][1]
    t = E.types[ety]
    for i, v in enumerate(t.get("variants", [])):
        if v["name"] == "DifferentScale" and not v["fields"]:
            return err(("e", i))
    return err(E.opaque("sym", ("err",), ety))


@dm("Add.add", "Sub.sub")
def d_add(E, st, fr, fn, a, sp, rty):
    (n, s), (m, t) = dnum(a[0]), dnum(a[1])
    sub = fn.name.endswith("sub")
    out = []
    for x, g in same_scale(E, st, s, t, True):
        out.append((x, ok(("d", n - m if sub else n + m, s)) if g else errv(E, rty)))
    return out


def op_at(E, op, up, a, b, sc):
    """product / quotient as the result scale keeps it"""
    if E.field:
        return a * b if op == "mul" else a * inv(b)
    if not up and sc.const() == 12:
        return d_mul(a, b) if op == "mul" else d_div(a, b)
    if not a.m or (op == "mul" and not b.m):
        return ZERO
    if b is ONE:
        return a
    sa, a = sgn_canon(a)
    sb, b = sgn_canon(b)
    nm = op + ("up" if up else "dn")
    r = pa(app(nm, a, b, sc, sort=REAL))
    return r if sa * sb > 0 else -r


def _mk(op, up):
    REBUILD[op + ("up" if up else "dn")] = lambda a, sort: op_at(_NF, op, up, a[0], a[1], a[2])
    ABOUNDS[op + ("up" if up else "dn")] = EN._sign_b


class _NF:
    field = False


for _o in ("mul", "div"):
    for _u in (False, True):
        _mk(_o, _u)


@dm("Mul<Decimal>.mul", "MulUp.mul_up", "Mul<u128>.mul")
def d_mulm(E, st, fr, fn, a, sp, rty):
    n, s = dnum(a[0])
    if isinstance(a[1], Poly):
        k = a[1]
        if E.field or k.const() is not None:
            return ("d", n * k, s)
        return ("d", d_mulint(n, k), s)
    m, t = dnum(a[1])
    if t.const() == 0 and (m.is_int() or s.const() == 0):
        return ("d", n * m, s)          # whole number of units: exact
    return ("d", op_at(E, "mul", fn.name.endswith("_up"), n, m, s), s)


def d_mulint(n, k):
    return n * k


@dm("Div.div", "DivUp.div_up", "DivScale.div_to_scale")
def d_divm(E, st, fr, fn, a, sp, rty):
    n, s = dnum(a[0])
    m, t = dnum(a[1])
    good, bad = st.split(c_ne(m))
    if bad is not None and E.on_panic:
        E.on_panic(E, fr, sp, "division by zero", bad)
    if good is None:
        return []
    n, m = good.norm(n), good.norm(m)
    sc = a[2] if fn.name.endswith("to_scale") else s
    if sc.const() == 0 and n.is_int() and m.is_int() and good.ge0(n) and good.ge0(m):
        return [(good, ("d", EN.p_fdiv(n + m - ONE, m) if fn.name.endswith("_up") else EN.p_fdiv(n, m), sc))]
    return [(good, ("d", op_at(E, "div", fn.name.endswith("_up"), n, m, sc), sc))]


CM = {"eq": "eq", "lt": "lt", "gt": "gt", "gte": "ge", "lte": "le"}


@dm("Compare.eq", "Compare.lt", "Compare.gt", "Compare.gte", "Compare.lte")
def d_cmp(E, st, fr, fn, a, sp, rty):
    (n, s), (m, t) = dnum(a[0]), dnum(a[1])
    c = c_cmp(CM[fn.name.rsplit("::", 1)[1]], n, m)
    return [(x, ok(x.norm(c)) if g else errv(E, rty)) for x, g in same_scale(E, st, s, t, True)]


@dm("PartialEq.eq", "PartialEq.ne")
def d_peq(E, st, fr, fn, a, sp, rty):
    (n, s), (m, t) = dnum(a[0]), dnum(a[1])
    c = c_and(c_eq(n - m), c_eq(s - t))
    return c if fn.name.endswith("eq") else c_not(c)


@dm("Compare.min", "Compare.max")
def d_minmax(E, st, fr, fn, a, sp, rty):
    (n, s), (m, t) = dnum(a[0]), dnum(a[1])
    out = []
    for x, g in same_scale(E, st, s, t, True):
        if not g:
            if E.on_panic:
                E.on_panic(E, fr, sp, "scale", x)
            continue
        out.extend((y, ("d", v, s)) for y, v in m_minmax(E, x, x.norm(n), x.norm(m), fn.name[-3:]))
    return out


def p_sqrt(n, s):
    k = n.const()
    if k in (0, 1):
        return n
    return pa(app("dsqrt", n, s, sort=REAL))


REBUILD["dsqrt"] = lambda a, sort: p_sqrt(*a)
ABOUNDS["dsqrt"] = lambda st, a, depth: (1 if (st.quick(a.args[0])[0] or 0) >= 1 else 0, False, None, False)


@dm("Sqrt.sqrt")
def d_sqrt(E, st, fr, fn, a, sp, rty):
    n, s = dnum(a[0])
    out = []
    for t, k in sign_cases(st, n):
        if k > 0:
            out.append((t, ok(("d", p_sqrt(t.norm(n), s), s))))
        else:
            out.append((t, errv(E, rty)))
    return out


def _factors(n):
    """n = constant * product of atom powers * product of polynomial powers with leading coefficient one"""
    at, polys = [], []
    mono = None
    for mo in n.m:
        d = dict(mo)
        if mono is None:
            mono = d
        else:
            mono = {a: min(mono.get(a, 0), d.get(a, 0)) for a in set(mono) | set(d)}
    mono = {a: e for a, e in mono.items() if e}
    q = n * mk({tuple(sorted((a, -e) for a, e in mono.items())): 1})
    c = 1
    if len(q.m) == 1 and () in q.m:
        c = q.m[()]
    else:
        c = q.m[lead(q)] if lead(q) in q.m else 1
        polys.append((q.scale(Fraction(1) / c), 1))
    for a, e in sorted(mono.items()):
        x = ATOMS[a]
        if x.op == "inv":
            polys.append((x.args[0], -e))
        else:
            at.append((a, e))
    return c, at, polys


def p_ln(E, n, s):
    if n is ONE:
        return ZERO
    if E.field and n.m:
        # ln of a product of powers: constant, atoms and polynomials (the argument is positive)
        c, at, polys = _factors(n)
        if c < 0 and polys:
            polys[0] = (-polys[0][0], polys[0][1])
            c = -c
        r = ZERO if c == 1 else pa(app("dln", num(c), s, sort=REAL))
        for a, e in at:
            r = r + pa(app("dln", pa(ATOMS[a]), s, sort=REAL)).scale(e)
        for q, e in polys:
            r = r + pa(app("dln", q, s, sort=REAL)).scale(e)
        return r
    return pa(app("dln", n, s, sort=REAL))


def p_pow(E, n, e, s):
    k = e.const()
    if k == 0:
        return ONE
    if k == 1 or n.const() == 1:
        return n
    if E.field:
        if isinstance(k, int) and -12 < k < 12:
            return ppow(n, k)
        sg, e2 = sgn_canon(e)
        if sg < 0:
            return inv(pa(app("dpow", n, e2, s, sort=REAL)))
    return pa(app("dpow", n, e, s, sort=REAL))


@dm("Ln.ln")
def d_ln(E, st, fr, fn, a, sp, rty):
    n, s = dnum(a[0])
    good, bad = st.split(c_gt(n))
    out = []
    if good is not None:
        n = good.norm(n)
        out.append((good, ok(("d", p_ln(E, n, s), s))))
    if bad is not None:
        out.append((bad, errv(E, rty)))
    return out


@dm("Pow<u128>.pow", "Pow<Decimal>.pow")
def d_pow(E, st, fr, fn, a, sp, rty):
    n, s = dnum(a[0])
    e = a[1] if isinstance(a[1], Poly) else dnum(a[1])[0]
    return ("d", p_pow(E, n, e, s), s)


def _pow_b(st, a, depth):
    b = st.quick(a.args[0])
    if b[0] is not None and b[0] >= 1:
        return (1, False, None, False)
    if b[0] is not None and b[0] >= 0:
        return (0, False, None, False)
    return TOP


ABOUNDS["dpow"] = _pow_b


def _re_pow(args, sort):
    """a power whose exponent became known"""
    k = args[1].const() if isinstance(args[1], Poly) else None
    if k == 0:
        return ONE
    if k == 1:
        return args[0]
    return app("dpow", *args, sort=sort)


REBUILD["dpow"] = _re_pow
