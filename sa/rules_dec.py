"""Rules over the decimal library, read as integer arithmetic on (value, scale, negative)."""
from rulekit import *
import re
import terms
import strmodels
from engine import p_pow10, p_mod

D = "hmmcl_sandbox::decimal::Decimal"
U128 = 2 ** 128 - 1
U64 = 2 ** 64 - 1


def op(tr, name, par=D):
    return "<%s as hmmcl_sandbox::decimal::%s<%s>>::%s" % (D, tr, par, name)


def inherent(n):
    return D + "::" + n


# ---------------------------------------------------------------- normal forms
def canon(p):
    """merge nested floor divisions and products of powers of ten"""
    out = ZERO
    for mono, c in p.m.items():
        t = num(c)
        e10 = ZERO
        for aid, e in mono:
            a = ATOMS[aid] if not isinstance(aid, Atom) else aid
            q = canon_atom(a)
            x = q.atom()
            if x is not None and x.op == "pow10":
                for _ in range(e):
                    e10 = e10 + x.args[0]
            else:
                t = t * ppow(q, e)
        if e10.m:
            t = t * p_pow10(e10)
        out = out + t
    return out


def canon_atom(a):
    if a.op == "pow10":
        return p_pow10(canon(a.args[0]))
    if a.op == "fdiv":
        n, d = canon(a.args[0]), canon(a.args[1])
        x = n.atom()
        if x is not None and x.op == "fdiv":
            n, d = x.args[0], canon(x.args[1] * d)
        return p_fdiv(n, d)
    return pa(a)


def same(st, a, b):
    d = st.norm(a - b)
    if d.const() == 0 or st.decide(c_eq(d)) is True:
        return True
    d = st.norm(canon(st.norm(a)) - canon(st.norm(b)))
    return d.const() == 0 or st.decide(c_eq(d)) is True


def is_floor(st, got, n, d):
    return same(st, got, p_fdiv(st.norm(n), st.norm(d)))


def is_ceil(st, got, n, d):
    n, d = st.norm(n), st.norm(d)
    if same(st, got, p_fdiv(n + d - ONE, d)):
        return True
    q = p_fdiv(n, d)
    rest = c_eq(st.norm(n - q * d))
    if same(st, got, q):
        return st.decide(rest) is True
    if same(st, got, q + ONE):
        return st.decide(rest) is False
    if same(st, got, p_fdiv(n - ONE, d) + ONE):
        return st.decide(c_gt(n)) is True
    return False


# ---------------------------------------------------------------- views
class Dec:
    """value, scale, sign of a decimal in a state"""

    def __init__(self, st, v):
        if not (isinstance(v, tuple) and len(v) == 4 and v[0] == "s"):
            raise Stuck("decimal expected: " + vshow(v)[:60])
        self.st, self.raw = st, v
        self.v, self.s = st.norm(v[1]), st.norm(v[2])
        self.neg = v[3] if isinstance(v[3], bool) else st.norm(v[3])

    def cases(self):
        """[(state, signed value)]"""
        out = []
        for s, b in split_all(self.st, [self.neg]):
            v = s.norm(self.v)
            out.append((s, -v if b[0] else v))
        return out


def signed(st, vals):
    """[(state, [signed values])] for raw decimals"""
    todo = [(st, [])]
    for x in vals:
        nxt = []
        for s, acc in todo:
            for s2, y in Dec(s, x).cases():
                nxt.append((s2, acc + [y]))
        todo = nxt
    return [(s, [s.norm(y) for y in acc]) for s, acc in todo]


def ok_of(v):
    """Ok payload of a Result value, or None for Err"""
    if not (isinstance(v, tuple) and v[0] == "e"):
        raise Stuck("result expected: " + vshow(v)[:60])
    return v[2] if v[1] == 0 else None


def truth(st, c):
    """[(state, bool)]"""
    return [(s, b[0]) for s, b in split_all(st, [c])]


class Ctx:
    def __init__(self, rep, m, name, pre=None, empty=False, **kw):
        self.rep, self.m = rep, m
        self.fn = m.one("^" + re.escape(name) + "$")
        self.w = where_fn(m, self.fn)
        self.panics = []

        def on_panic(E, fr, sp, what, st):
            self.panics.append((st, what))
        kw.setdefault("keep", 40)
        self.E, self.args, self.out = run_fn(rep, m, self.fn, pre=pre, decnum=False, on_panic=on_panic, **kw)
        self.out = [y for st, v in self.out for y in settle(st, v)]
        self.tag = re_tag(self.fn.name)
        if not self.out and not empty:
            self.check(False, "reach", "the operation completes for some operands")

    def check(self, ok, rule, text, detail=""):
        k = "%s.%s.%s" % (self.rep.pid, self.tag, rule)
        self.rep.check(ok, k, self.w, text, key=k, detail="" if ok else detail)

    def dec(self, st, i):
        return Dec(st, st.norm_val(self.args[i]))


def re_tag(n):
    par = ""
    if " as " in n and "<" in n.split(" as ", 1)[1]:
        par = n.split(" as ", 1)[1].split("<", 1)[1].split(">")[0].rsplit("::", 1)[-1]
        par = "" if par == "Decimal" else "-" + par
    return n.rsplit("::", 1)[-1] + par


def shv(*xs):
    return " ".join(show(x)[:90] if isinstance(x, Poly) else str(x)[:60] for x in xs)


# ---------------------------------------------------------------- D01
def addsub(name, tr, sgn):
    def run(rep, m):
        c = Ctx(rep, m, op(tr, name))
        a0, b0 = c.args
        for st, v in c.out:
            r = ok_of(v)
            same_scale = c_eq(Dec(st, a0).s - Dec(st, b0).s)
            if r is None:
                c.check(st.decide(same_scale) is False, "err", "an error is returned only for operands of different scales", shv(Dec(st, a0).s))
                continue
            c.check(st.decide(same_scale) is True, "scale-guard", "a value is returned only for operands of the same scale")
            c.check(same(st, Dec(st, r).s, Dec(st, a0).s), "scale", "the result has the operands' scale")
            for s, (a, b, x) in signed(st, [a0, b0, r]):
                c.check(same(s, x, a + b.scale(sgn)), "exact", "the result is the exact signed %s" % ("sum" if sgn > 0 else "difference"), shv(x, s.norm(a + b.scale(sgn))))
        for st, what in c.panics:
            for s, (a, b) in signed(st, [a0, b0]):
                t = s.norm(a + b.scale(sgn))
                over = s.decide(c_gt(t - num(U128))) is True or s.decide(c_gt(-t - num(U128))) is True
                c.check(over and s.decide(c_eq(Dec(s, a0).s - Dec(s, b0).s)) is True, "abort", "the operation aborts only when the exact magnitude does not fit", what)
    return run


def neg(rep, m):
    c = Ctx(rep, m, "<%s as std::ops::Neg>::neg" % D)
    for st, v in c.out:
        d, a = Dec(st, v), c.dec(st, 0)
        c.check(same(st, d.v, a.v) and same(st, d.s, a.s), "magnitude", "negation keeps magnitude and scale")
        for s, (x, y) in signed(st, [c.args[0], v]):
            c.check(same(s, y, -x), "opposite", "negation yields the opposite number", shv(x, y))
    c.check(not c.panics, "abort", "negation never aborts")


# ---------------------------------------------------------------- D02
REL = {"eq": c_eq, "lt": lambda d: c_gt(-d), "gt": c_gt, "gte": c_ge, "lte": lambda d: c_ge(-d)}


def compare(name):
    def run(rep, m):
        c = Ctx(rep, m, op("Compare", name))
        a0, b0 = c.args
        for st, v in c.out:
            r = ok_of(v)
            same_scale = c_eq(Dec(st, a0).s - Dec(st, b0).s)
            if r is None:
                c.check(st.decide(same_scale) is False, "err", "an error is returned only for operands of different scales")
                continue
            c.check(st.decide(same_scale) is True, "scale-guard", "decimals of different scale are never compared")
            for s0, got in truth(st, r):
                zeros = [c_eq(Dec(s0, x).v) for x in (a0, b0)]
                for s, (a, b) in [y for s1, _ in split_all(s0, zeros) for y in signed(s1, [a0, b0])]:
                    want = s.decide(REL[name](s.norm(a - b)))
                    c.check(want is got, "order", "the comparison agrees with the order of the signed numbers", "returns %s for %s" % (got, shv(a, b)))
        c.check(not c.panics, "abort", "a comparison never aborts", str([w for _, w in c.panics][:3]))
    return run


def minmax(name):
    def run(rep, m):
        c = Ctx(rep, m, op("Compare", name))
        a0, b0 = c.args
        for st, v in c.out:
            c.check(st.decide(c_eq(Dec(st, a0).s - Dec(st, b0).s)) is True, "scale-guard", "a value is returned only for operands of the same scale")
            for s, (a, b, x) in signed(st, [a0, b0, v]):
                c.check(same(s, Dec(s, v).s, Dec(s, a0).s), "scale", "the result has the operands' scale")
                c.check(same(s, x, a) or same(s, x, b), "operand", "the result is one of the operands", shv(x))
                g = (lambda p: c_ge(s.norm(p))) if name == "min" else (lambda p: c_ge(s.norm(-p)))
                c.check(s.decide(g(a - x)) is True and s.decide(g(b - x)) is True, "extreme", "no operand is %s than the result" % ("smaller" if name == "min" else "larger"), shv(x, a, b))
        for st, what in c.panics:
            c.check(st.decide(c_eq(Dec(st, a0).s - Dec(st, b0).s)) is False, "abort", "it aborts only for operands of different scales", what)
    return run


def sign_tests(rep, m):
    for name, rel in (("is_positive", c_gt), ("is_negative", lambda d: c_gt(-d)), ("is_zero", c_eq)):
        c = Ctx(rep, m, inherent(name))
        for st, v in c.out:
            for s0, got in truth(st, v):
                for s, (a,) in signed(s0, [c.args[0]]):
                    c.check(s.decide(rel(a)) is got, "sign", "%s agrees with the denoted number" % name, "returns %s for %s" % (got, shv(a)))
        c.check(not c.panics, "abort", "a sign test never aborts")
    c = Ctx(rep, m, inherent("is_integer"))
    for st, v in c.out:
        for s, got in truth(st, v):
            a = c.dec(s, 0)
            u = p_pow10(a.s)
            whole = s.decide(c_eq(s.norm(a.v - p_fdiv(a.v, u) * u)))
            if whole is None and got:
                whole = same(s, a.v, canon(p_fdiv(a.v, u) * u)) or s.decide(c_eq(a.s)) is True or None
            if whole is None and s.decide(c_eq(a.s)) is True:
                whole = True
            c.check(whole is got, "integer", "is_integer says whether the fraction is zero", "%s %s" % (got, shv(a.v)))


# ---------------------------------------------------------------- D03
def product(rep_name, tr, kind):
    def run(rep, m):
        c = Ctx(rep, m, op(tr, rep_name))
        a0, b0 = c.args[0], c.args[1]
        for st, v in c.out:
            d, a, b = Dec(st, v), Dec(st, a0), Dec(st, b0)
            sc = st.norm(c.args[2]) if len(c.args) > 2 else a.s
            c.check(same(st, d.s, sc), "scale", "the result has the receiver's (or requested) scale", shv(d.s))
            for s, (x, y, z) in signed(st, [a0, b0, v]):
                dd = Dec(s, v)
                xa, ya = Dec(s, a0), Dec(s, b0)
                minus = (x.lead_neg() if hasattr(x, "lead_neg") else not same(s, x, xa.v)) != (not same(s, y, ya.v))
                zero = same(s, dd.v, ZERO) or same(s, xa.v, ZERO) or same(s, ya.v, ZERO)
                want = -dd.v if minus else dd.v
                c.check(zero or same(s, z, want), "sign", "the result has the sign of the exact result", shv(z, want))
            if kind.startswith("div"):
                c.check(st.split(c_eq(b.v))[0] is None, "zero-divisor", "a division by zero never returns a value")
            u = p_pow10(b.s)
            if kind == "mul":
                ok, text = is_floor(st, d.v, a.v * b.v, u), "the magnitude is the exact product rounded down"
            elif kind == "mul_up":
                ok, text = is_ceil(st, d.v, a.v * b.v, u), "the magnitude is the exact product rounded up"
            elif kind == "div":
                ok, text = is_floor(st, d.v, a.v * u, b.v), "the magnitude is the exact quotient rounded down"
            elif kind == "div_up":
                ok, text = is_ceil(st, d.v, a.v * u, b.v), "the magnitude is the exact quotient rounded up"
            else:
                # a/10^sa : b/10^sb at scale t = a * 10^(t+sb-sa) / b
                e = st.norm(sc + b.s - a.s)
                text = "the magnitude is the exact quotient at the requested scale, rounded down"
                if st.decide(c_ge(e)) is True:
                    ok = is_floor(st, d.v, a.v * p_pow10(e), b.v)
                elif st.decide(c_gt(-e)) is True:
                    ok = is_floor(st, d.v, a.v, b.v * p_pow10(-e))
                else:
                    ok = is_floor(st, d.v, a.v * p_pow10(e), b.v) or is_floor(st, d.v, a.v * p_pow10(sc + b.s), b.v * p_pow10(a.s))
            c.check(ok, "magnitude", text, shv(d.v))
    return run


def mul_int(rep, m):
    c = Ctx(rep, m, op("Mul", "mul", "u128"))
    for st, v in c.out:
        k = st.norm(c.args[1])
        c.check(same(st, Dec(st, v).s, c.dec(st, 0).s), "scale", "the scale is kept")
        for s, (a, z) in signed(st, [c.args[0], v]):
            c.check(same(s, z, a * k), "exact", "multiplying by an unsigned integer is exact", shv(z))


# ---------------------------------------------------------------- D04
def rescale_to(st, c, a, v, t, up, rule):
    d = Dec(st, v)
    c.check(same(st, d.s, t), rule + "-scale", "the result has the requested scale", shv(d.s))
    c.check(magnitude_at(st, d.v, a, t, up), rule + "-magnitude", "the magnitude is rescaled, rounded %s when digits are dropped" % ("up" if up else "down"), shv(d.v))
    for s, (x, z) in signed(st, [a.raw, v]):
        aa = Dec(s, a.raw)
        want = Dec(s, v).v if same(s, x, aa.v) else -Dec(s, v).v
        c.check(same(s, aa.v, ZERO) or same(s, Dec(s, v).v, ZERO) or same(s, z, want), rule + "-sign", "rescaling keeps the sign", shv(x, z))


def magnitude_at(st, got, a, t, up):
    e = st.norm(a.s - t)
    if st.decide(c_ge(-e)) is True:
        return same(st, got, a.v * p_pow10(-e))
    if st.decide(c_ge(e)) is True:
        return (is_ceil if up else is_floor)(st, got, a.v, p_pow10(e))
    # both: only if no case distinction was made on the path
    return all(magnitude_at(s, s.norm(got), Dec(s, a.raw), t, up) for s, _ in truth(st, c_gt(e)))


def rescale(name, up):
    def run(rep, m):
        c = Ctx(rep, m, inherent(name))
        for st, v in c.out:
            rescale_to(st, c, c.dec(st, 0), v, st.norm(c.args[1]) if len(c.args) > 1 else num(12), up, "rescale")
    return run


def amounts(rep, m):
    for name, up in (("abs", False), ("abs_up", True), ("to_scaled_amount", False), ("to_scaled_amount_up", True)):
        c = Ctx(rep, m, inherent(name))
        for st, v in c.out:
            t = st.norm(c.args[1]) if len(c.args) > 1 else ZERO
            c.check(magnitude_at(st, st.norm(v), c.dec(st, 0), t, up), "amount", "%s returns the magnitude at that scale, rounded %s" % (name, "up" if up else "down"), shv(v))
    for name, lim in ((inherent("to_u64"), U64), ("<%s as std::convert::Into<u64>>::into" % D, U64), ("<%s as std::convert::Into<u128>>::into" % D, U128),
                      ("<%s as std::convert::Into<usize>>::into" % D, U64)):
        c = Ctx(rep, m, name)
        for st, v in c.out:
            c.check(same(st, st.norm(v), c.dec(st, 0).v), "raw", "the conversion returns all digits", shv(v))
        for st, what in c.panics:
            c.check(st.decide(c_gt(c.dec(st, 0).v - num(lim))) is True, "raw-abort", "the conversion aborts only if the digits do not fit", what)
    c = Ctx(rep, m, "<%s as std::convert::Into<i32>>::into" % D)
    for st, v in c.out:
        for s, (a,) in signed(st, [c.args[0]]):
            c.check(same(s, s.norm(v), a), "signed", "the signed conversion returns the signed digits", shv(v, a))
    c = Ctx(rep, m, "<%s as std::convert::Into<f64>>::into" % D)
    for st, v in c.out:
        for s, (a,) in signed(st, [c.args[0]]):
            c.check(same(s, s.norm(v), d_div(a, p_pow10(c.dec(s, 0).s))), "float", "the floating-point conversion keeps the sign and divides by ten to the scale", shv(v, a))
    c = Ctx(rep, m, inherent("denominator"))
    for st, v in c.out:
        c.check(same(st, st.norm(v), p_pow10(c.dec(st, 0).s)), "unit", "the denominator is ten to the scale", shv(v))


def constructors(rep, m):
    for name in ("from_u64", "from_u128", "from_scaled_amount"):
        c = Ctx(rep, m, inherent(name))
        for st, v in c.out:
            d = Dec(st, v)
            t = st.norm(c.args[1]) if len(c.args) > 1 else ZERO
            c.check(same(st, d.v, st.norm(c.args[0])) and same(st, d.s, t) and (d.neg is False), "denotes", "%s denotes exactly the given number" % name, shv(d.v, d.s))
        c.check(not c.panics, "abort", "constructors never abort")
    c = Ctx(rep, m, inherent("new"))
    for st, v in c.out:
        d = Dec(st, v)
        ok = same(st, d.v, st.norm(c.args[0])) and same(st, d.s, st.norm(c.args[1]))
        for s, b in truth(st, c.args[2]):
            ok = ok and all(x is b for _, x in truth(s, v[3]))
        c.check(ok, "denotes", "new stores the given parts", shv(d.v, d.s))
    for name, k in (("one", 1), ("two", 2)):
        c = Ctx(rep, m, inherent(name))
        for st, v in c.out:
            d = Dec(st, v)
            c.check(same(st, d.v, num(k) * p_pow10(d.s)) and d.neg is False, "denotes", "%s is %d" % (name, k), shv(d.v))
    c = Ctx(rep, m, "<%s as std::default::Default>::default" % D)
    for st, v in c.out:
        c.check(same(st, Dec(st, v).v, ZERO), "denotes", "the default is zero")


# ---------------------------------------------------------------- D06
ODD = lambda n: c_eq(p_mod(n, num(2)) - ONE)


def sign_of(E, st, d, neg):
    """precondition: the decimal is negative / zero / positive or zero"""
    if neg == "zero":
        st.assume(c_eq(d[1]))
    elif neg:
        st.assume(d[3])
        st.assume(c_gt(d[1]))
    else:
        st.assume(c_not(d[3]))


def domain(name, tr, bad):
    def run(rep, m):
        for case in bad:
            c = Ctx(rep, m, op(tr, name), pre=lambda E, st, a: sign_of(E, st, a[0], case), empty=True)
            for st, v in c.out:
                c.check(ok_of(v) is None, "zero" if case == "zero" else "negative", "%s returns no value for %s" % (name, "zero" if case == "zero" else "a negative number"), vshow(v)[:80])
            rep.check(True, "%s.%s.cases" % (rep.pid, name), c.w, "analysed")
    return run


def sqrt_sign(rep, m):
    for case in ("zero", False):
        c = Ctx(rep, m, op("Sqrt", "sqrt"), pre=lambda E, st, a: sign_of(E, st, a[0], case))
        for st, v in c.out:
            r = ok_of(v)
            if r is not None:
                for s, (x,) in signed(st, [r]):
                    c.check(s.decide(c_ge(x)) is True, "root-sign", "a square root is never negative", shv(x))
                c.check(same(st, Dec(st, r).s, Dec(st, c.args[0]).s), "root-scale", "the root keeps the scale")


def powsign(c, st, base, n, v, rule):
    """sign of a whole-number power"""
    for s, b in split_all(st, [c_eq(st.norm(base[1])), base[3], ODD(st.norm(n))]):
        d = Dec(s, s.norm_val(v))
        want = b[1] and b[2] and not b[0]
        for s2, neg in truth(s, d.neg):
            ok = neg is want or s2.decide(c_eq(d.v)) is True or b[0]
            c.check(ok, rule, "a whole-number power is negative exactly for a negative base and an odd exponent", "sign %s for base %s, exponent %s" % (neg, "negative" if b[1] else "positive", "odd" if b[2] else "even"))


def is_one(st, v):
    d = Dec(st, v)
    return same(st, d.v, p_pow10(d.s)) and (d.neg is False or st.decide(c_not(d.neg)) is True)


def pow_int(rep, m):
    for neg in (False, True):
        for odd in (None, False, True):
            def pre(E, st, a):
                st.assume(a[0][3] if neg else c_not(a[0][3]))
                if odd is None:
                    st.assume(c_eq(a[1]))
                else:
                    st.assume(c_gt(a[1]))
                    st.assume(ODD(a[1]) if odd else c_not(ODD(a[1])))
            c = Ctx(rep, m, op("Pow", "pow", "u128"), pre=pre, boolkey=True)
            for st, v in c.out:
                c.check(same(st, Dec(st, v).s, Dec(st, c.args[0]).s), "pow-scale", "a power keeps the scale")
                if odd is None:
                    c.check(is_one(st, st.norm_val(v)), "pow-zero", "any number to the power zero is one", shv(st.norm(v[1])))
                else:
                    powsign(c, st, st.norm_val(c.args[0]), c.args[1], st.norm_val(v), "pow-sign")


def over_sqrt(E, st, fr, fn, args, sp, rty):
    d = deref_dec(E, st, args[0])
    neg = c_and(d[3], c_gt(d[1]))
    out = []
    for s, b in split_all(st, [neg]):
        if not b[0]:
            v = pa(app("sqrt_digits", s.norm(d[1]), s.norm(d[2]), sort=("i", 0, U128)))
            out.append((s.copy(), ("e", 0, ("s", v, s.norm(d[2]), False))))
        out.append((s, ("e", 1, ("e", 0))))
    return out


def over_powint(E, st, fr, fn, args, sp, rty):
    d, n = deref_dec(E, st, args[0]), st.norm(args[1])
    out = []
    for s, b in split_all(st, [c_eq(n)]):
        if b[0]:
            out.append((s, ("s", p_pow10(s.norm(d[2])), s.norm(d[2]), False)))
        else:
            v = pa(app("pow_digits", s.norm(d[1]), s.norm(d[2]), s.norm(n), sort=("i", 0, U128)))
            out.append((s, ("s", v, s.norm(d[2]), s.norm(c_and(d[3], ODD(n))) if not isinstance(d[3], bool) else (ODD(s.norm(n)) if d[3] else False))))
    return out


def deref_dec(E, st, v):
    import models
    return st.norm_val(models.deref(E, st, v))


def pow_dec(rep, m):
    over = {op("Sqrt", "sqrt"): over_sqrt, op("Pow", "pow", "u128"): over_powint}
    c = Ctx(rep, m, op("Pow", "pow"), over=over)
    for st, v in c.out:
        a, x = Dec(st, c.args[0]), Dec(st, c.args[1])
        c.check(same(st, Dec(st, v).s, a.s), "powdec-scale", "a power keeps the scale")
        y, n = st.split(c_eq(x.v))
        if y is not None:
            c.check(is_one(y, y.norm_val(v)), "powdec-zero", "any number to the power zero is one", shv(y.norm(v[1])))
        if n is None:
            continue
        u = p_pow10(n.norm(x.s))
        xv = n.norm(x.v)
        whole, _ = n.split(c_eq(n.norm(xv - p_fdiv(xv, u) * u)))
        if whole is not None:
            powsign(c, whole, whole.norm_val(c.args[0]), p_fdiv(whole.norm(x.v), whole.norm(u)), whole.norm_val(v), "powdec-sign")


# ---------------------------------------------------------------- D08, D09
TWELVE = 10 ** 12
LN2 = 693147180559


def ln_off(got, n, d):
    """distance of an entry from ln(n/d) * 10^12"""
    from decimal import Decimal as PD, getcontext
    getcontext().prec = 60
    return abs(PD(got) - (PD(n) / PD(d)).ln() * TWELVE)


def over_table(E, st, fr, fn, args, sp, rty):
    st.event("table", args[0], args[1])
    return [(st, pa(app("table", st.norm(args[0]), st.norm(args[1]), sort=("i", 0, U128))))]


LT = "hmmcl_sandbox::decimal::log_table"
LTV = "hmmcl_sandbox::decimal::log_table_value"


def table_cells(rep, m):
    fn = m.one("^" + LT + "$")
    w = where_fn(m, fn)
    for r in range(9):
        for c in range(12):
            E, args, out = run_fn(None, m, fn, args=[num(r), num(c)], decnum=False)
            vals = [s.norm(v).const() for s, v in out]
            k = "%s.cell.%d.%d" % (rep.pid, r, c)
            ok = len(vals) == 1 and vals[0] is not None and ln_off(int(vals[0]), 10 ** (c + 1) + r + 1, 10 ** (c + 1)) < 1
            rep.check(ok, k, w, "the table cell for 1 + %d/10^%d holds ln of it to twelve decimals" % (r + 1, c + 1), key=k, detail=str(vals))
    rep.use(E)


def lookup(rep, m):
    """the row is the digit its argument has at its column"""
    fn = m.one("^" + re.escape(LTV) + "$")
    w = where_fn(m, fn)
    for col in range(10):
        F = 10 ** (col + 1)
        E = Engine(m, strict=True, decnum=False, keep=40)
        E.models[LT] = over_table
        st = State()
        s0, t0 = (pa(app("sym", x, sort=("i", 0, U128))) for x in ("s", "t"))
        st.assume(c_ge(t0 - ONE))
        st.assume(c_ge(s0 - t0))
        out = E.run(st, fn, [("s", s0, num(12), False), ("s", t0, num(12), False), num(col)])
        rep.use(E)
        rep.paths += len(out)
        rep.check(bool(out), rep.pid + ".lookup.reach", w, "the lookup completes")
        for st, v in out:
            sv, tv, lx = Dec(st, v[1]), Dec(st, v[2]), st.norm(v[3])
            one = num(TWELVE)
            ok = all(d.neg is False and same(st, d.s, num(12)) for d in (sv, tv)) and is_floor(st, sv.v, s0.scale(TWELVE), t0)
            rep.check(ok, rep.pid + ".lookup.quotient", w, "the reduced argument is the exact quotient", key=rep.pid + ".lookup.quotient")
            ok = st.decide(c_ge(sv.v - one)) is True and st.decide(c_ge(tv.v - one)) is True and st.decide(c_ge(sv.v - tv.v)) is True
            rep.check(ok, rep.pid + ".lookup.range", w, "the reduced argument stays at least its factor, and the factor at least one", key=rep.pid + ".lookup.range", detail="" if ok else shv(sv.v, tv.v))
            digits = st.norm(p_fdiv(sv.v.scale(F), one) - num(F))          # digits after the leading one
            ok = same(st, tv.v, p_fdiv(sv.v.scale(F), one).scale(TWELVE // F))
            rep.check(ok, rep.pid + ".lookup.factor", w, "the factor is the argument cut after the column's digit", key=rep.pid + ".lookup.factor", detail="" if ok else shv(tv.v))
            ev = [e for e in st.events() if e[0] == "table"]
            k = rep.pid + ".lookup.row"
            if ev:
                ok = len(ev) == 1 and same(st, ev[0][1] + ONE, digits) and same(st, ev[0][2], num(col)) and same(st, lx, app_table(st, ev[0]))
                ok = ok and st.decide(c_ge(num(9) - digits)) is True
                rep.check(ok, k, w, "the table is read at the digit's row and at its own column, and that entry is used", key=k, detail="" if ok else shv(digits, lx))
            else:
                ok = lx.const() == 0 and (st.decide(c_eq(digits)) is True or st.decide(c_gt(digits - num(9))) is True)
                rep.check(ok, k + ".none", w, "no entry is used only for digit zero or beyond the table", key=k + ".none", detail="" if ok else shv(digits, lx))


def app_table(st, e):
    return pa(app("table", st.norm(e[1]), st.norm(e[2]), sort=("i", 0, U128)))


def over_bits(E, st, fr, fn, args, sp, rty):
    v = pa(app("sym", "bits", sort=("i", 0, 1023)))
    return [(st, ("e", 0, ("s", v, ZERO, c_atom(app("sym", "bits_negative", sort=BOOL)))))]


def over_lookup(E, st, fr, fn, args, sp, rty):
    n = sum(1 for e in st.events() if e[0] == "lookup")
    s, t, col = st.norm_val(args[0]), st.norm_val(args[1]), st.norm(args[2])
    st.event("lookup", s, t, col)
    one = num(TWELVE)
    sv, tv, lx = (pa(app("sym", "%s%d" % (x, n), sort=("i", TWELVE if x != "l" else 0, 10 ** 30 if x == "l" else U128))) for x in "stl")
    st.assume(c_ge(sv - tv))
    return [(st, ("s", ("s", sv, num(12), False), ("s", tv, num(12), False), lx))]


def reduction(rep, m):
    over = {op("BitLength", "bit_length"): over_bits, LTV: over_lookup}
    c = Ctx(rep, m, op("Ln", "ln"), pre=lambda E, st, a: (st.assume(c_not(a[0][3])), st.assume(c_gt(a[0][1]))), over=over, keep=40)
    n = 0
    for st, v in c.out:
        r = ok_of(v)
        if r is None:
            continue
        n += 1
        ev = [e for e in st.events() if e[0] == "lookup"]
        ok = len(ev) == 10 and all(st.norm(e[3]).const() == i for i, e in enumerate(ev))
        c.check(ok, "columns", "one lookup per table column, in order", str([st.norm(e[3]).const() for e in ev]))
        if not ev:
            continue
        x, t = Dec(st, st.norm_val(ev[0][1])), Dec(st, st.norm_val(ev[0][2]))
        a = c.dec(st, 0)
        c.check(same(st, x.s, num(12)) and same(st, t.s, num(12)) and magnitude_at(st, x.v, a, num(12), False), "argument", "the reduction starts from the argument at twelve decimals", shv(x.v))
        c.check(st.decide(c_ge(x.v - t.v)) is True and t.neg is False, "power-below", "the power of two divided by does not exceed the argument", shv(x.v, t.v))
        for i in range(1, len(ev)):
            p = [pa(app("sym", "%s%d" % (q, i - 1), sort=("i", TWELVE, U128))) for q in "st"]
            ok = same(st, Dec(st, st.norm_val(ev[i][1])).v, p[0]) and same(st, Dec(st, st.norm_val(ev[i][2])).v, p[1])
            c.check(ok, "chain", "each column continues with the previous column's quotient and factor")
        # which power of two
        # (where the power equals the argument, the power's own term may have been rewritten to the argument's)
        gone = [terms.ATOMS[i] for i in st.sub]
        e = [q.args[1] for q in list(subatoms(t.v, ("ipow",))) + [g for g in gone if g.op == "ipow"] + [q for g in gone if g.op == "fdiv" for q in subatoms(g.args[1], ("ipow",))] if q.args[0].const() == 2]
        bl = None
        for x2 in e:
            two = pa(app("ipow", num(2), x2, sort=("i", None, None))).scale(TWELVE)
            k = st.norm(x2)
            bl = k if same(st, t.v, st.norm(two)) else -k if same(st, t.v, st.norm(p_fdiv(num(TWELVE * TWELVE), two))) else None
            if bl is not None:
                break
        if bl is None and t.v.const():
            q = t.v.const()
            bl = next((num(i) for i in range(-40, 128) if q == (2 ** i * TWELVE if i >= 0 else TWELVE // 2 ** -i)), None)
        c.check(bl is not None, "power", "the argument is divided by a power of two", shv(t.v))
        if bl is None:
            continue
        above = p_two(st, bl + ONE)
        c.check(any(st.decide(c_gt(y - x.v)) is True for y in above), "power-above", "the next power of two exceeds the argument", shv(x.v))
        lx = ZERO
        for i in range(len(ev)):
            lx = lx + pa(app("sym", "l%d" % i, sort=("i", 0, 10 ** 30)))
        total = bl.scale(LN2) + lx
        for s, b in split_all(st, [c_gt(-st.norm(total))]):
            tt = s.norm(-total if b[0] else total)
            for s2, (z,) in signed(s, [s.norm_val(r)]):
                aa = Dec(s2, ("s", s2.norm(tt), num(12), False))
                c.check(magnitude_at(s2, Dec(s2, s2.norm_val(r)).v, aa, Dec(s2, s2.norm_val(r)).s, False), "sum", "the result is exponent times ln 2 plus the table entries", shv(Dec(s2, r).v, tt))
                c.check(same(s2, z, -Dec(s2, s2.norm_val(r)).v if b[0] else Dec(s2, s2.norm_val(r)).v) or same(s2, z, ZERO), "sum-sign", "with the sign of that sum", shv(z, tt))
        c.check(same(st, Dec(st, r).s, a.s), "result-scale", "the logarithm keeps the argument's scale")
    c.check(n > 0, "values", "some logarithm is returned")
    k = rep.pid + ".ln2"
    rep.check(ln_off(LN2, 2, 1) < 1, k, c.w, "the constant for ln 2", key=k)


def p_two(st, e):
    """terms for ten^12 * 2^e"""
    from engine import p_ipow
    e = st.norm(e)
    return [p_ipow(num(2), e).scale(TWELVE), p_fdiv(num(TWELVE * TWELVE), p_ipow(num(2), -e).scale(TWELVE))]


# ---------------------------------------------------------------- D07
def parsing(rep, m):
    c = Ctx(rep, m, "<%s as std::str::FromStr>::from_str" % D, text=True, pre=lambda E, st, a: st.assume(c_ge(num(2 ** 63 - 1) - a[0][3])))
    for st, what in c.panics:
        c.check(False, "abort", "parsing never aborts", what)
    if not c.panics:
        c.check(True, "abort", "parsing never aborts")
    n = 0
    for st, v in c.out:
        r = ok_of(v)
        if r is None:
            continue
        n += 1
        d = Dec(st, r)
        ev = [e for e in st.events() if e[0] == "parsed"]
        ev = [(st.norm_val(e[1]), st.norm(e[2]), st.norm(e[3])) for e in ev]
        digits = [e for e in ev if e[2].m and any(pa(a) == e[2] for a in subatoms(d.v, ("parse",)))]
        digits.sort(key=lambda e: grammar(st, e[0]) is None)
        if not digits:
            zero = [e for e in ev if st.decide(c_eq(e[2])) is True]
            c.check(bool(zero) and same(st, d.v, ZERO), "digits", "the value comes from the digits of the text", shv(d.v))
            continue
        p, radix, num_ = digits[0]
        c.check(radix.const() == 10, "radix", "digits are decimal")
        g = grammar(st, p)
        c.check(g is not None, "text", "the digits are the text's, without a leading sign and around one point", str(p)[:200])
        if g is None:
            continue
        whole, first, end, frac = g
        for s, b in truth(st, d.neg):
            c.check(b is (first == 1), "sign", "the number is negative exactly if the text starts with a minus sign", "%s %s" % (b, first))
        if first == 1:
            c.check(found_at(st, whole, "-", ZERO), "minus", "a skipped first character is a minus sign")
        c.check(no_plus(st, p), "plus", "digits never start with a plus sign (the integer parser would accept it)", str(p)[:200])
        n_ = st.norm(strmodels.plen(strmodels.pieces(c.E, st, c.args[0])))
        if st.decide(c_eq(end - n_)) is True:
            X = ZERO
        else:
            ex = [e for e in ev if len(e[0]) == 1 and e[0][0][0] == "sub" and e[0][0][1] is whole
                  and st.decide(c_eq(e[0][0][2] - end - ONE)) is True and st.decide(c_eq(e[0][0][3] - n_)) is True]
            c.check(bool(ex) and found_at(st, whole, "eE", end), "exponent-text", "the digits end at the end of the text or at the exponent sign", shv(end))
            if not ex:
                continue
            X = ex[0][2]
        k = st.norm(X - frac + d.s)
        sc = st.decide(c_and(c_ge(d.s), c_ge(num(255) - d.s)))
        c.check(sc is True and no_trunc(st, d.s), "scale", "the number of decimals is not narrowed", shv(d.s))
        c.check(st.decide(c_ge(k)) is True and same(st, d.v, num_ * p_pow10(k)), "denotes", "the decimal is the text's number", shv(d.v, d.s))
    c.check(n > 0, "values", "some text is accepted")


# ---------------------------------------------------------------- D10
def printing(rep, m):
    c = Ctx(rep, m, "<%s as std::fmt::Display>::fmt" % D, text=True)
    for st, what in c.panics:
        c.check(False, "abort", "printing never aborts", what)
    n = 0
    for st, v in c.out:
        ev = [e for e in st.events() if e[0] == "print"]
        c.check(len(ev) == 1, "once", "the number is printed once", str(len(ev)))
        if len(ev) != 1:
            continue
        n += 1
        sign, pieces = ev[0][1], st.norm_val(ev[0][2])
        sref = c.args[0]
        d = Dec(st, st.norm_val(c.E.read(st, sref[1], sref[2])))
        lead = pieces and pieces[0][0] == "lit" and pieces[0][1][:1] == "-"
        if lead:
            pieces = strmodels.join((("lit", pieces[0][1][1:]),) + pieces[1:])
        for s, (nonneg, neg) in split_all(st, [sign if not isinstance(sign, tuple) else True, d.neg if not isinstance(d.neg, bool) else d.neg]):
            minus = lead or not nonneg
            c.check(minus is neg or s.decide(c_eq(d.v)) is True, "sign", "a minus sign is printed exactly for negative numbers", "%s %s" % (minus, neg))
        whole, frac, dots = [], [], 0
        for x in pieces:
            if x[0] == "lit":
                parts = x[1].split(".")
                dots += len(parts) - 1
                if len(parts) > 1:
                    whole += [("lit", parts[0])]
                    frac += [("lit", "".join(parts[1:]))]
                    continue
            (frac if dots else whole).append(x)
        whole, frac = strmodels.join(tuple(whole)), strmodels.join(tuple(frac))
        c.check(dots <= 1, "point", "at most one decimal point", str(pieces)[:200])
        c.check(st.decide(c_eq(strmodels.plen(frac) - d.s)) is True, "decimals", "as many decimals as the scale says", str(pieces)[:200])
        c.check(st.decide(c_ge(strmodels.plen(whole) - ONE)) is True, "whole", "a digit in front of the point", str(pieces)[:200])
        rest = list(strmodels.join(whole + frac))
        while rest and (rest[0][0] in ("lit", "rep") and set(rest[0][1]) <= {"0"}):
            rest.pop(0)
        ok = len(rest) == 1 and rest[0][0] == "sub" and rest[0][1].op == "digits_of" and same(st, rest[0][1].args[0], d.v) \
            and st.decide(c_eq(rest[0][2])) is True and st.decide(c_eq(rest[0][3] - st.norm(strmodels.count(rest[0][1].args[0])))) is True
        c.check(ok or (not rest and st.decide(c_eq(d.v)) is True), "digits", "exactly the number's digits, after zeros", str(pieces)[:300])
    c.check(n > 0, "values", "something is printed")


def no_trunc(st, v):
    return not subatoms(v, ("wrap", "trunc"))


def grammar(st, p):
    """(text, index of the first digit, end, fraction length) of digit pieces"""
    if not (1 <= len(p) <= 2) or any(x[0] != "sub" for x in p) or any(x[1] is not p[0][1] for x in p):
        return None
    w = p[0][1]
    first = next((i for i in (0, 1) if st.decide(c_eq(p[0][2] - num(i))) is True), None)
    if first is None:
        return None
    if len(p) == 1:
        return w, first, p[0][3], ZERO
    if st.decide(c_eq(p[1][2] - p[0][3] - ONE)) is not True or not found_at(st, w, ".", p[0][3]):
        return None
    return w, first, p[1][3], p[1][3] - p[1][2]


def found_at(st, w, chars, pos):
    """the character of text w at pos is one of chars: some search of a slice of w found it there"""
    import itertools
    pats = [q for k in range(1, len(chars) + 1) for q in itertools.permutations(chars, k)]
    pats += [("str", c) for c in chars]
    slices = []
    for e in st.events():
        if e[0] in ("bnd", "searched"):
            q = st.norm_val(e[1])
            if len(q) == 1 and q[0][0] == "sub" and q[0][1] is w and q not in slices:
                slices.append(q)
    for q in slices:
        for pat in pats:
            for op in ("find", "rfind"):
                args = (op, ("S", q), pat)
                if st.decide(c_eq(st.norm(pa(app("find", *args, sort=strmodels.models.USIZE))) + q[0][2] - pos)) is True \
                        and st.norm(c_atom(app("has", *args, sort=BOOL))) is True:
                    return True
    return False


def no_plus(st, p):
    """no plus sign at the start of the digits"""
    t = strmodels.join(p)
    for pat in (("+",), ("str", "+")):
        k = app("find", "find", ("S", t), pat, sort=strmodels.models.USIZE)
        h = c_atom(app("has", "find", ("S", t), pat, sort=BOOL))
        h = st.norm(h)
        if h is False or st.norm(strmodels.starts(t, pat)) is False or st.decide(st.norm(c_and(h, c_eq(pa(k))))) is False:
            return True
    return False


RULES = {
    "D10": [("display", printing)],
    "D07": [("from_str", parsing)],
    "D08": [("cells", table_cells), ("lookup", lookup)],
    "D09": [("reduction", reduction), ("lookup", lookup), ("cells", table_cells)],
    "D06": [("sqrt", domain("sqrt", "Sqrt", (True,))), ("ln", domain("ln", "Ln", (True, "zero"))), ("bit_length", domain("bit_length", "BitLength", (True,))),
            ("sqrt_sign", sqrt_sign), ("pow_int", pow_int), ("pow_dec", pow_dec)],
    "D01": [("add", addsub("add", "Add", 1)), ("sub", addsub("sub", "Sub", -1)), ("neg", neg)],
    "D02": [(n, compare(n)) for n in REL] + [(n, minmax(n)) for n in ("min", "max")] + [("sign", sign_tests)],
    "D03": [("mul", product("mul", "Mul", "mul")), ("mul_up", product("mul_up", "MulUp", "mul_up")), ("div", product("div", "Div", "div")),
            ("div_up", product("div_up", "DivUp", "div_up")), ("div_to_scale", product("div_to_scale", "DivScale", "div_to_scale")), ("mul_int", mul_int)],
    "D04": [("to_scale", rescale("to_scale", False)), ("to_scale_up", rescale("to_scale_up", True)), ("compute", rescale("to_compute_scale", False)),
            ("amounts", amounts), ("constructors", constructors)],
}
