"""D11: a power is the product of as many copies of its base as the exponent says.

The decimals are read through the map  base^k -> one + k * (base - one) : it sends one to itself, the base to itself,
a product to the sum of the counts k, a quotient to the difference and a square root to the half.  A decimal that has
nothing to do with the base is an ordinary number and is computed as usual."""
from rulekit import *
from rules_dec import *
from rules_dec import deref_dec
from fixpoint import key_of, leaf_at

PRODUCTS = [(op("Mul", "mul"), 1), (op("MulUp", "mul_up"), 1), (op("Div", "div"), -1), (op("DivUp", "div_up"), -1)]
COMPARED = ["<%s as std::cmp::PartialEq>::eq" % D, inherent("is_zero")] + [op("Compare", n) for n in ("eq", "lt", "gt", "lte", "gte")]
ROOT, IPOW, DPOW = op("Sqrt", "sqrt"), op("Pow", "pow", "u128"), op("Pow", "pow")


class Counts:
    def __init__(self, always):
        self.always = always        # every decimal is a power of the base
        self.base = None

    def pre(self, E, st, a):
        self.base = a[0]
        self.v = a[0][1]
        st.assume(c_not(a[0][3]))
        st.assume(c_gt(self.v))

    def coded(self, *ds):
        return self.always or any(d[1].deps & self.v.deps for d in ds)

    def one(self, d):
        return p_pow10(d[2])

    def binary(self, sgn):
        def f(E, st, fr, fn, args, sp, rty):
            a, b = (deref_dec(E, st, x) for x in args)
            if not self.coded(a, b):
                return NotImplemented
            return [(st, ("s", st.norm(a[1] + (b[1] - self.one(b)).scale(sgn)), a[2], a[3] if b[3] is False else c_xor(a[3], b[3])))]
        return f

    def root(self, E, st, fr, fn, args, sp, rty):
        a = deref_dec(E, st, args[0])
        if not self.coded(a):
            return NotImplemented
        one = self.one(a)
        return [(st, ("e", 0, ("s", st.norm(one + (a[1] - one).scale(Fraction(1, 2))), a[2], False)))]

    def ipow(self, E, st, fr, fn, args, sp, rty):
        a, n = deref_dec(E, st, args[0]), st.norm(args[1])
        if not self.coded(a):
            return NotImplemented
        one = self.one(a)
        return [(st, ("s", st.norm(one + (a[1] - one) * n), a[2], False))]

    def compared(self, E, st, fr, fn, args, sp, rty):
        """what a product looks like next to another number is not known"""
        ds = [deref_dec(E, st, x) for x in args]
        if not any(self.derived(st, d) for d in ds):
            return NotImplemented
        c = c_atom(fresh("looks", BOOL))
        if E.types[rty]["k"] == "bool":
            return [(st, c)]
        return [(st, ("e", 0, c))]

    def derived(self, st, d):
        v = st.norm(d[1])
        if v == st.norm(self.v) or v.const() is not None or v == st.norm(self.one(d)):
            return False
        return self.coded(d)

    def over(self, roots):
        d = {n: self.binary(s) for n, s in PRODUCTS}
        d.update({n: self.compared for n in COMPARED})
        if roots:
            d[ROOT] = self.root
            d[IPOW] = self.ipow
        return d


def split_division(st, d):
    """the difference d with quotients by constants expressed through their known remainder"""
    for _ in range(4):
        for aid in sorted(d.deps):
            a = ATOMS[aid]
            k = a.args[1].const() if a.op == "fdiv" and isinstance(a.args[1], Poly) else None
            if k is None or k <= 1 or not any(aid == i for mono in d.m for i, _ in mono):
                continue
            rem = st.norm(a.args[0] - pa(a).scale(k))
            left = [0] if same(st, rem, ZERO) else [] if k > 16 else [j for j in range(int(k)) if st.decide(c_eq(rem - num(j))) is not False]
            if len(left) == 1:
                d = st.norm(subst(d, {aid: (a.args[0] - num(left[0])).scale(Fraction(1, int(k)))}, {}))
                break
        else:
            return d
    return d


def agree(st, a, b):
    return same(st, a, b) or split_division(st, st.norm(a - b)).const() == 0


def conserved(E, c, parts, entry):
    """loop leaves r, b, e with (r - one) + (b - one) * e the same in every round -> ([values at the heads], value at entry)"""
    keys = None
    for H, _, _ in parts:
        sk, lv = key_of(E, H)
        ks = {k for k, x in lv.items() if isinstance(x, Poly)}
        keys = ks if keys is None else keys & ks
    sk, le = key_of(E, entry)
    ks = sorted((k for k in keys if k in le and any(leaf_at(E, H, k) != le[k] for H, _, _ in parts)), key=str)

    def at(s, k):
        return s.norm(leaf_at(E, s, k))

    # the second factor: a changed number, or the base itself counted up or down
    for r in ks + [None]:
        for b, e, sg in [(b, e, 1) for b in ks for e in ks if len({r, b, e}) == 3] + [(None, e, sg) for e in ks if e != r for sg in (1, -1)]:
            def q(s):
                one = s.norm(p_pow10(s.norm(c.base[2])))
                f = at(s, b) if b else s.norm(c.base[1])
                return s.norm((at(s, r) - one if r else ZERO) + ((f - one) * at(s, e)).scale(sg))
            try:
                if all(agree(s, q(s), s.norm(q(H))) for H, back, _ in parts for s in back):
                    return q
            except (KeyError, IndexError, TypeError, Infeasible):
                continue
    return None


def whole(rep, m):
    c = Counts(True)
    n = {"loops": 0}

    def on_loop(E, fr, head, parts, exits, entry):
        q = conserved(E, c, parts, entry)
        if q is None:
            return
        n["loops"] += 1
        q0 = q(entry)
        for H, _, exs in parts:
            for s in exs:
                s.assume(c_eq(s.norm(q(H) - q0)))
    x = Ctx(rep, m, IPOW, pre=c.pre, over=c.over(False), on_loop=on_loop)
    for st, v in x.out:
        d, a = Dec(st, v), x.dec(st, 0)
        one = st.norm(p_pow10(a.s))
        want = st.norm((a.v - one) * st.norm(x.args[1]))
        x.check(agree(st, st.norm(d.v - one), want), "factors", "a whole-number power multiplies as many copies of the base as the exponent says", shv(d.v))


def general(rep, m):
    for scale in range(0, 39):
        c = Counts(False)

        def pre(E, st, a):
            c.pre(E, st, a)
            st.assume(c_eq(a[0][2] - num(scale)))
        x = Ctx(rep, m, DPOW, pre=pre, over=c.over(True), empty=True)
        for st, v in x.out:
            a, e = Dec(st, x.args[0]), Dec(st, x.args[1])
            for s, (ev,) in signed(st, [x.args[1]]):
                d = Dec(s, s.norm_val(v))
                one = num(10 ** scale)
                got = s.norm((d.v - one) * p_pow10(s.norm(e.s)))
                want = s.norm((s.norm(a.v) - one) * ev)
                x.check(agree(s, got, want), "factors", "a power multiplies as many copies of the base as the exponent says (roots count halves)",
                        "scale %d, exponent %s: %s" % (scale, shv(ev), shv(d.v)))




# ---------------------------------------------------------------- D12: accuracy of the square root
LZ = "core::num::<impl u128>::leading_zeros"


def newton(E, parts):
    """leaves (a, b) and a term S with  a = floor((b + floor(S / b)) / 2), b > 0  after every round"""
    backs = [s for _, back, _ in parts for s in back]
    if not backs:
        return None
    ks = None
    for s in backs + [H for H, _, _ in parts]:
        k = {k for k, x in key_of(E, s)[1].items() if isinstance(x, Poly)}
        ks = k if ks is None else ks & k
    ks = sorted(ks, key=str)
    s0 = backs[0]

    def at(s, k):
        # a sum that may wrap is D05's
        x = s.norm(leaf_at(E, s, k))
        w = {i: ATOMS[i].args[0] for i in x.deps if ATOMS[i].op == "wrap"}
        return s.norm(subst(x, w, {})) if w else x
    for b in ks:
        vb = at(s0, b)
        for a in ks:
            if a == b:
                continue
            va = at(s0, a)
            for aid in sorted(va.deps):
                q = ATOMS[aid]
                if q.op != "fdiv" or s0.norm(q.args[1]) != vb:
                    continue
                S = q.args[0]

                def holds(s):
                    x, y = at(s, b), at(s, a)
                    return s.decide(c_gt(x)) is True and same(s, y, p_fdiv(x + p_fdiv(s.norm(S), x), num(2)))
                if all(holds(s) for s in backs):
                    return a, b, S
    return None


def root_exact(rep, m):
    info = {"newton": 0}

    def once(bits):
        used = []

        def lz(E, st, fr, fn, args, sp, rty):
            n = st.norm(args[0])
            if used and used[0] != n:
                for rx, f in E.rmodels:
                    if rx.search(fn.name):
                        return f(E, st, fr, fn, args, sp, rty)
            used[:] = [n]
            try:
                st.assume(c_ge(n - num(2 ** (bits - 1))))
                st.assume(c_ge(num(2 ** bits - 1) - n))
            except Infeasible:
                return []
            return [(st, num(128 - bits))]

        def on_loop(E, fr, head, parts, exits, entry):
            r = newton(E, parts)
            if r is None:
                return
            info["newton"] += 1
            a, b, S = r
            heads = {id(s): H for H, _, exs in parts for s in exs}
            sk, le = key_of(E, entry)
            for t in list(exits):
                out = []
                for s in exits[t]:
                    H = heads[id(s)]
                    # no round was run: the state as it came in
                    z = s.copy()
                    try:
                        for k, x in key_of(E, H)[1].items():
                            if isinstance(x, Poly) and k in le and le[k] != x:
                                z.assume(c_eq(z.norm(x - le[k])))
                        out.append(z)
                    except Infeasible:
                        pass
                    # at least one round: the last one gave a from b
                    x0, y0, n0 = leaf_at(E, H, b), leaf_at(E, H, a), S
                    x, y, n = s.norm(x0), s.norm(y0), s.norm(n0)
                    try:
                        s.assume(c_gt(x))
                        cases = split_all(s, [c_gt(y - x)])
                    except Infeasible:
                        continue
                    for s, _ in cases:
                        x, y, n = s.norm(x0), s.norm(y0), s.norm(n0)
                        try:
                            if s.decide(c_ge(y - x + ONE)) is True and s.decide(c_ge(x - y + ONE)) is True:
                                # with d = b - a in {-1, 0, 1}: floor(S / b) is a - d or a - d + 1, so (a - d)(a + d) <= S < (a - d + 2)(a + d)
                                s.assume(c_ge(s.norm(n - y * y + ONE)))
                                s.assume(c_ge(s.norm(y * y + y.scale(2) - n)))
                            out.append(s)
                        except Infeasible:
                            pass
                exits[t][:] = out
        x = Ctx(rep, m, ROOT, empty=True, on_loop=on_loop, over={LZ: lz}, word=U128)
        for st, v in x.out:
            a = Dec(st, x.args[0])
            S = st.norm(a.v * p_pow10(a.s))
            r = ok_of(v)
            if r is None:
                for s, (sv,) in signed(st, [x.args[0]]):
                    x.check(s.decide(c_gt(-sv)) is True or s.decide(c_gt(S - num(U128))) is True, "root-refused", "a root is refused only for negative numbers or if the digits do not fit", shv(S))
                continue
            y = Dec(st, r).v
            bd = st.bound(y)
            if bd[0] is not None and bd[0] == bd[2]:
                y = num(bd[0])
            lo = st.decide(c_ge(st.norm(S - y * y + ONE))) is True or st.decide(c_ge(st.norm(S - y * y + y.scale(2) - ONE))) is True
            hi = st.decide(c_ge(st.norm(y * y + y.scale(2) - S))) is True or st.decide(c_ge(st.norm(y * y + y.scale(2) + ONE - S))) is True
            x.check(lo and hi, "root-exact", "the root is within one unit of its last digit", shv(y, S))
        return bool(used)
    for bits in range(1, 129):
        if not once(bits):
            break


RULES = {
    "D11": [("whole", whole), ("general", general)],
    "D12": [("root", root_exact)],
}
