"""Rules over pricing formulas, single swap steps and the next-tick search of both pool engines."""
from rulekit import *
from rules_pool import FIX, FLT, OTHER, pool_view, pre_pool, dec
import models
import re
import decmodels
from fractions import Fraction


def val(st, v):
    return st.norm(v if isinstance(v, Poly) else v[1])


def case2(st, c):
    """[(state, bool)]"""
    return [(s, b[0]) for s, b in split_all(st, [c])]


# ---------------------------------------------------------------- P10 formulas
class Ref:
    """the documented formulas as exact terms"""

    def __init__(self, E, sc):
        self.E, self.sc = E, sc

    def pow(self, n, e):
        return decmodels.p_pow(self.E, n, e, self.sc)

    def ln(self, n):
        return decmodels.p_ln(self.E, n, self.sc)

    def clamp(self, st, p, a, b):
        out = []
        for s, lo in case2(st, c_gt(a - p)):
            if lo:
                out.append((s, a))
                continue
            out.extend((t, b if hi else p) for t, hi in case2(s, c_gt(p - b)))
        return out

    def lx(self, x, a, b):
        return x * a * b * inv(b - a)

    def ly(self, y, a, b):
        return y * inv(b - a)

    # each: (state, numbers) -> [(state, [(condition-description, term)...])]
    def liq_x_only(self, st, x, a, b):
        return [(st, self.lx(x, a, b))]

    def liq_y_only(self, st, y, a, b):
        return [(st, self.ly(y, a, b))]

    def x_from_l_rp_rng(self, st, l, p, a, b):
        return [(s, l * (b - q) * inv(q * b)) for s, q in self.clamp(st, p, a, b)]

    def y_from_l_rp_rng(self, st, l, p, a, b):
        return [(s, l * (q - a)) for s, q in self.clamp(st, p, a, b)]

    def dx_from_l_drp(self, st, l, o, n):
        return [(st, l * (o - n) * inv(o * n))]

    def dy_from_l_drp(self, st, l, o, n):
        return [(st, l * (n - o))]

    def rp_new_from_l_dx(self, st, l, p, dx):
        return [(st, l * p * inv(dx * p + l))]

    def rp_new_from_l_dy(self, st, l, p, dy):
        return [(st, dy * inv(l) + p)]

    def rpa_from_l_rp_y(self, st, l, p, y):
        return [(st, p - y * inv(l))]

    def rpb_from_l_rp_x(self, st, l, p, x):
        return [(st, l * p * inv(l - p * x))]

    def rpa_from_x_y_rp_rpb(self, st, x, y, p, b):
        return [(st, y * inv(b * x) + p - y * inv(p * x))]

    def rpb_from_x_y_rp_rpa(self, st, x, y, p, a):
        return [(st, p * y * inv((a - p) * p * x + y))]

    def dx_from_l_drp_hmm(self, st, l, o, n, c, r, raw=False):
        if raw:
            return [l * inv(r) * (self.ln(o) - self.ln(n)), l * inv(self.pow(r, c)) * (self.pow(n, c - ONE) - self.pow(o, c - ONE)) * inv(ONE - c)]
        out = []
        for s, same in case2(st, c_eq(o - n)):
            if same:
                out.append((s, ZERO))
                continue
            for t, one in case2(s, c_eq(c - ONE)):
                if one:
                    out.append((t, l * inv(r) * (self.ln(o) - self.ln(n))))
                else:
                    out.append((t, l * inv(self.pow(r, c)) * (self.pow(n, c - ONE) - self.pow(o, c - ONE)) * inv(ONE - c)))
        return out

    def dy_from_l_drp_hmm(self, st, l, o, n, c, r, raw=False):
        if raw:
            return [l * r * (self.ln(n) - self.ln(o)), l * self.pow(r, c) * (self.pow(n, ONE - c) - self.pow(o, ONE - c)) * inv(ONE - c)]
        out = []
        for s, same in case2(st, c_eq(o - n)):
            if same:
                out.append((s, ZERO))
                continue
            for t, one in case2(s, c_eq(c - ONE)):
                if one:
                    out.append((t, l * r * (self.ln(n) - self.ln(o))))
                else:
                    out.append((t, l * self.pow(r, c) * (self.pow(n, ONE - c) - self.pow(o, ONE - c)) * inv(ONE - c)))
        return out


FORMULAS = ("liq_x_only", "liq_y_only", "x_from_l_rp_rng", "y_from_l_rp_rng", "dx_from_l_drp", "dy_from_l_drp", "rp_new_from_l_dx",
            "rp_new_from_l_dy", "rpa_from_l_rp_y", "rpb_from_l_rp_x", "rpa_from_x_y_rp_rpb", "rpb_from_x_y_rp_rpa",
            "dx_from_l_drp_hmm", "dy_from_l_drp_hmm")
RANGED = {"liq_x_only": (1, 2), "liq_y_only": (1, 2), "x_from_l_rp_rng": (2, 3), "y_from_l_rp_rng": (2, 3), "liq_from_x_y_rp_rng": (3, 4)}
BASES = {"x_from_l_tick_rng": ("x_from_l_rp_rng", 1), "y_from_l_tick_rng": ("y_from_l_rp_rng", 1), "liq_from_x_y_tick_rng": ("liq_from_x_y_rp_rng", 2)}


def fz(st, p):
    p = st.norm(p)
    return field_zero(p) or st.decide(c_eq(p)) is True


class Impl:
    """one implementor of a pricing trait"""

    def __init__(self, e, prefix):
        self.tag, self.prefix, self.fix = e.tag, prefix, e is FIX

    def math(self, m, n):
        return m.one("^" + re.escape(self.prefix + n) + "$")


def formulas(e):
    def run(rep, m):
        suffix = " as hmmcl_sandbox::%s::cl_math::PoolMath>::" % e.mod
        impls = sorted({f.name[:f.name.index(suffix) + len(suffix)] for f in m.fns.values() if f.name.endswith(suffix + "tick_to_rp") and f.blocks})
        rep.check(e.math(m, "tick_to_rp").name.rsplit("tick_to_rp", 1)[0] in impls, "P10.%simpls" % e.tag, "cl_math", "the pool prices by the analysed formulas")
        for i in impls:
            formulas_of(Impl(e, i), rep, m)
    return run


def formulas_of(e, rep, m):
    sc = num(12) if e.fix else num(-1)

    def report(fn, ok, rule, text, detail=""):
        rep.check(ok, "P10.%s" % rule, where_fn(m, fn), text, key="P10.%s%s" % (e.tag, rule), detail=detail)
    names = [n for n in FORMULAS + ("liq_from_x_y_rp_rng",)]
    for name in names:
        fn = e.math(m, name)

        def pre(E, st, a):
            ns = [val(st, x) for x in a]
            for n in ns:
                st.assume(c_ge(n))
            for i in RANGED.get(name, ()):
                st.assume(c_gt(ns[i]))
            if name in RANGED:
                i, j = RANGED[name]
                st.assume(c_gt(ns[j] - ns[i]))
            if name.endswith("_hmm") or name.startswith(("dx_", "dy_")):
                st.assume(c_gt(ns[1]))
                st.assume(c_gt(ns[2]))
            if name.endswith("_hmm"):
                st.assume(c_ge(ns[3] - ONE))
                st.assume(c_gt(ns[4]))
        E, args, out = run_fn(rep, m, fn, pre=pre, field=True)
        R = Ref(E, sc)
        if not out:
            report(fn, False, name + ".reach", "%s completes for some input" % name)
        for st, v in out:
            ns = [val(st, a) for a in args]
            got = val(st, v)
            if name == "liq_from_x_y_rp_rng":
                x, y, p, a, b = ns
                for s, lo in case2(st, c_ge(a - p)):
                    if lo:
                        report(fn, fz(s, got - R.lx(x, a, b)), name + ".below", "below the range liquidity is the first token's", show(got)[:160])
                        continue
                    for t, hi in case2(s, c_ge(p - b)):
                        if hi:
                            report(fn, fz(t, got - R.ly(y, a, b)), name + ".above", "above the range liquidity is the second token's", show(got)[:160])
                            continue
                        lx, ly = R.lx(x, p, b), R.ly(y, a, p)
                        k = (fz(t, got - lx) and t.decide(c_ge(t.norm(ly - lx))) is True) or (fz(t, got - ly) and t.decide(c_ge(t.norm(lx - ly))) is True)
                        report(fn, k, name + ".inside", "inside the range liquidity is the smaller of both tokens'", show(got)[:160])
                continue
            for s, want in getattr(R, name)(st, *ns):
                d = s.norm(got) - s.norm(want)
                report(fn, fz(s, d), name, "%s computes its formula" % name, "" if fz(s, d) else "off by %s" % show(s.norm(d))[:220])
    for name, (base, i) in BASES.items():
        fn, bfn, t2r = e.math(m, name), e.math(m, base), e.math(m, "tick_to_rp")
        E, args, out = run_fn(rep, m, fn, field=True)
        for st, v in out:
            todo = [(st, list(args[:i]))]
            for a in args[i:]:
                todo = [(s2, l + [r]) for s, l in todo for s2, r in E.run(s.copy(), t2r, [s.norm_val(a)])]
            for s, l in todo:
                for s2, w in E.run(s.copy(), bfn, l):
                    d = val(s2, v) - val(s2, w)
                    report(fn, fz(s2, d), name, "%s uses the root prices of its ticks" % name, "" if fz(s2, d) else show(s2.norm(d))[:200])
    # root price of a tick
    fn = e.math(m, "tick_to_rp")
    E, args, out = run_fn(rep, m, fn, field=True)
    for st, v in out:
        base = decmodels.p_sqrt(num(Fraction(10001, 10000)), sc)
        got, t = val(st, v), val(st, args[0])
        for s, zero_t in case2(st, c_eq(t)):
            want = ONE if zero_t else pa(app("dpow", base, t, sc, sort=REAL))
            ok = fz(s, s.norm(got) - want) or (zero_t and fz(s, s.norm(got) - pa(app("dpow", base, ZERO, sc, sort=REAL))))
            report(fn, ok, "tick_to_rp", "a tick's root price is sqrt(1.0001) to the tick", show(s.norm(got))[:160])


# ---------------------------------------------------------------- P11, P12, P14 one step inside a range
def callees(m, fn):
    """ids of functions reachable from fn"""
    seen, todo = set(), [fn]
    while todo:
        f = todo.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        for b in f.blocks or ():
            c = b["t"][1] if b["t"][0] == "call" else None
            i = c.get("inst") if isinstance(c, dict) else None
            if i is not None and i in m.fns and m.fns[i].blocks:
                todo.append(m.fns[i])
    return seen


def step_fn(e, m, side):
    try:
        return e.pool(m, "swap_within_tick_from_" + side)
    except Exception:
        pass
    res = e.type(m, "SwapWithinResult")
    top = e.pool(m, "execute_swap_from_" + side)
    r = [m.fns[i] for i in callees(m, top) if m.fns[i].locals[0] == res and m.fns[i].argc == 6]
    if len(r) != 1:
        raise Stuck("the function computing one step was not found")
    return r[0]


STEP_ARGS = {"start_rp": 1, "goal_tick": 2, "liq": 3, "amount": 4, "rp_oracle": 5}


def step_args(fn, args, side):
    names = {argname(fn, i): i for i in range(fn.argc)}
    r = {}
    for k, i in STEP_ARGS.items():
        n = "d" + side if k == "amount" else k
        r[k] = args[names.get(n, i)]
    return r


def in_step(want, side, e):
    other = OTHER[side]
    down = side == "x"

    def run(rep, m):
        fn, t2r = step_fn(e, m, side), e.math(m, "tick_to_rp")
        w = where_fn(m, fn)
        seen = set()

        def report(ok, rule, text, detail=""):
            rep.check(ok, "%s.%s%s.%s" % (rep.pid, e.tag, side, rule), w, text, key="%s.%s%s.%s" % (rep.pid, e.tag, side, rule), detail="" if ok else detail)

        def pre(E, st, a):
            pre_pool(E, st, a, fn)
            p = pool_view(E, st, a, fn)
            r = step_args(fn, a, side)
            for k in ("start_rp", "liq"):
                st.assume(c_gt(val(st, r[k])))
            for k in ("amount", "rp_oracle"):
                st.assume(c_ge(val(st, r[k])))
            f, c = p.f("fee_rate").n(), p.f("c").n()
            st.assume(c_ge(f))
            st.assume(c_gt(ONE - f))
            st.assume(c_ge(c))
        E, args, out = run_fn(rep, m, fn, pre=pre, field=want != "avg", keep=60)
        R = Ref(E, num(12) if e is FIX else num(-1))
        if not out:
            report(False, "reach", "a step completes for some input")
        for st, v in out:
            o = V(E, st, v, fn.locals[0])
            p = pool_view(E, st, args, fn)
            r = step_args(fn, args, side)
            f, c = p.f("fee_rate").n(), p.f("c").n()
            for s, cross in case2(st, st.norm(o.f("cross").v)) if not isinstance(o.f("cross").v, bool) else [(st, o.f("cross").v)]:
                n = lambda k: s.norm(o.f(k).n())
                start, liq, amount, oracle = (val(s, r[k]) for k in ("start_rp", "liq", "amount", "rp_oracle"))
                goal_t = val(s, r["goal_tick"])
                recv, send, adj, fee, end = n("recv_amount"), n("send_amount"), n("send_hmm_adj"), n("recv_fee"), n("end_rp")
                for s2, g in E.run(s.copy(), t2r, [s.norm_val(r["goal_tick"])]):
                    one(E, R, s2, val(s2, g), cross, start, liq, amount, oracle, goal_t, recv, send, adj, fee, end, n("end_tick"), f, c, p, report)

    def one(E, R, s, goal, cross, start, liq, amount, oracle, goal_t, recv, send, adj, fee, end, end_t, f, c, p, report):
        is0 = lambda q, rule, text: report(fz(s, q), rule, text, show(s.norm(q))[:200])
        sgn = ONE if down else -ONE
        if want == "tick":
            if cross:
                is0(end_t - goal_t, "tick-limit", "a step that stops at its limit ends at the limit's tick")
                is0(end - goal, "price-limit", "a step that stops at its limit ends at the limit's price")
            else:
                now = p.f("global_state").f("tick").n()
                if down:
                    report(ge0(s, end_t - goal_t), "tick-inside", "a step that ends before its limit keeps the tick at or above the limit", show(s.norm(end_t - goal_t))[:160])
                    for t, b in case2(s, c_ge(now - goal_t)):
                        if b:
                            report(ge0(t, now - end_t), "tick-direction", "a downward step does not raise the tick", show(t.norm(now - end_t))[:160])
                else:
                    for t, b in case2(s, c_gt(goal_t)):
                        if b:
                            report(gt0(t, goal_t - end_t), "tick-inside", "a step that ends before its limit keeps the tick below the limit", show(t.norm(goal_t - end_t))[:160])
                    for t, b in case2(s, c_gt(goal_t - now)):
                        if b:
                            report(ge0(t, end_t - now), "tick-direction", "an upward step does not lower the tick", show(t.norm(end_t - now))[:160])
                report(ge0(s, sgn * (end - goal)), "price-inside", "the price does not pass the limit", show(s.norm(end - goal))[:160])
            report(ge0(s, sgn * (start - end)), "price-direction", "the price moves in the trade's direction", show(s.norm(start - end))[:160])
            return
        if want == "avg":
            if fz(s, recv) or fz(s, send):
                return
            paid = s.norm(recv + fee)
            for t, bs in split_all(s, [c_eq(recv), c_eq(send)]):
                if bs[0] or bs[1]:
                    continue
                sq = [t.norm(q) for q in (d_mul(start, start), pa(app("dpow", start, num(2), num(12), sort=REAL)))]
                if down:
                    q = t.norm(d_div(-send, paid))
                    ok = any(ge0(t, x - q) for x in sq)
                else:
                    q = t.norm(d_div(paid, -send))
                    ok = any(ge0(t, q - x) for x in sq)
                report(ok, "average", "the average price, fee included, is not better than the starting price", show(q)[:200])
            return
        # ---- P11
        total = ONE - f
        if cross:
            is0(end - goal, "limit", "a step stopped at its limit ends at the limit's price")
            move = R.dx_from_l_drp(s, liq, start, goal) if down else R.dy_from_l_drp(s, liq, start, goal)
            is0(recv - move[0][1], "input-limit", "a step stopped at its limit takes in the amount the move to the limit needs")
            is0(fee - recv * inv(total) * f, "fee-limit", "the fee of a step stopped at its limit is charged on the input it used")
        else:
            is0(fee - amount * f, "fee-all", "a step using up the input charges the fee rate on all of it")
            is0(recv - amount * total, "input-all", "a step using up the input moves the price by the rest of it")
            new = R.rp_new_from_l_dx(s, liq, start, amount * total) if down else R.rp_new_from_l_dy(s, liq, start, amount * total)
            is0(end - new[0][1], "price-all", "the price after using up the input follows the formula")
        cpmm = R.dy_from_l_drp if down else R.dx_from_l_drp
        hmm = R.dy_from_l_drp_hmm if down else R.dx_from_l_drp_hmm
        whole = ONE if e is FIX else num(1 - Fraction(1, 10 ** 12))

        def same(t, a, rule, text):
            d = t.norm(send) - t.norm(a) * whole
            ok = fz(t, d)
            report(ok, rule, text, "" if ok else show(t.norm(d))[:240])
        base = cpmm(s, liq, start, end)[0][1]
        d = s.norm(send - adj) - base * whole
        report(fz(s, d), "split", "the adjustment is the part of the output beyond the constant-product amount", show(s.norm(d))[:200])
        report(ge0(s, adj), "adj-sign", "the adjustment is never negative", show(adj)[:160])
        still = [(t, b) for t, b in case2(s, c_eq(start - end))]
        for t, b in still:
            if b:
                part = lambda x, y: hmm(t, liq, x, y, c, oracle, True)
                outs = [ZERO, base]
                for k in (0, 1):
                    outs += [part(start, end)[k], part(start, oracle)[k] + cpmm(t, liq, oracle, end)[0][1]]
                ok = any(fz(t, t.norm(send) - t.norm(x) * whole) for x in outs)
                report(ok, "no-move", "a step that does not move the price sends nothing", show(t.norm(send))[:160])
        s = next((t for t, b in still if not b), None)
        if s is None:
            return
        towards = c_gt(start - oracle) if down else c_gt(oracle - start)
        for t, (c0, o0, tw) in split_all(s, [c_eq(c), c_eq(oracle), towards]):
            if c0 or o0 or not tw:
                same(t, base, "unadjusted", "without coefficient, oracle price or convergence the output is the constant-product amount")
                is_ = fz(t, adj)
                report(is_, "no-adj", "without coefficient, oracle price or convergence nothing is adjusted", show(t.norm(adj))[:160])
                continue
            beyond = c_gt(end - oracle) if down else c_gt(oracle - end)
            for u, b in case2(t, beyond):
                if b:
                    for x, h in hmm(u, liq, start, end, c, oracle):
                        same(x, h, "adjusted-all", "a move that stays short of the oracle price is priced by the adjusted formula")
                else:
                    for x, h in hmm(u, liq, start, oracle, c, oracle):
                        same(x, h + cpmm(x, liq, oracle, end)[0][1], "adjusted-part", "only the part of the move before the oracle price is adjusted")
    return run


def stepped(want, engs=(FIX, FLT)):
    return [(e.tag + "step-" + d, in_step(want, d, e)) for e in engs for d in "xy"]

# ---------------------------------------------------------------- P13 next-tick search
def search_fn(e, m, left):
    try:
        return e.pool(m, "get_%s_limit_of_swap_within" % ("left" if left else "right"))
    except Exception:
        pass
    top = e.pool(m, "execute_swap_from_" + ("x" if left else "y"))
    r = [m.fns[i] for i in callees(m, top) if m.types[m.fns[i].locals[0]]["name"].startswith("std::option::Option<u")
         and m.fns[i].argc == (2 if left else 3) and m.fns[i].local and "Pool" in m.fns[i].name]
    if len(r) != 1:
        raise Stuck("the next-tick search was not found")
    return r[0]


def search(left, e):
    def run(rep, m):
        fn = search_fn(e, m, left)
        w = where_fn(m, fn)
        side = "left" if left else "right"

        def report(ok, rule, text, detail=""):
            k = "%s.%s%s.%s" % (rep.pid, e.tag, side, rule)
            rep.check(ok, k, w, text, key=k, detail="" if ok else detail)

        def args_of(E, st, a):
            p = pool_view(E, st, a, fn)
            g = p.f("global_state").f("tick").n()
            sp = p.f("tick_spacing").n()
            start = val(st, a[1])
            if not left:
                g = val(st, a[2])
            rd = lambda x: st.norm(sp * p_fdiv(x, sp))
            return p, start, g, rd

        case = [None]

        def pre(E, st, a):
            pre_pool(E, st, a, fn)
            p, start, g, rd = args_of(E, st, a)
            for x in (start, g):  # ticks of representable prices lie far below 2^31
                st.assume(c_ge(x))
                st.assume(c_ge(num(2 ** 31) - x))
            if not left:
                # the price never is below the current tick (P09, P14); rounding down is monotone
                st.assume(c_ge(start - g))
                st.assume(c_ge(rd(start) - rd(g)))
            # which keys may be skipped depends on this comparison: each outcome is analysed on its own
            if left:
                st.assume([c_gt(start - g), c_gt(g - start), c_eq(start - g)][case[0]])
            else:
                st.assume([c_ne, c_eq][case[0]](rd(start) - rd(g)))
        aborts = []

        def on_panic(E, fr, sp, what, st):
            aborts.append("%s: %s" % (fr.fn.name, what))
        runs = []
        for b in (2, 1, 0) if left else (1, 0):
            case[0] = b
            E, args, out = run_fn(rep, m, fn, pre=pre, on_panic=on_panic)
            runs.append((b, E, args, out))
        if not left:
            report(not aborts, "abort", "a search that starts at or above the current tick never aborts", "; ".join(aborts)[:300])
        for b, E, args, out in runs:
            if not out:
                report(False, "reach", "the search returns for some input")
            for st, v in out:
                p, start, g, rd = args_of(E, st, args)
                found = isinstance(v, tuple) and v[0] == "e" and v[1] == 1
                if not (isinstance(v, tuple) and v[0] == "e"):
                    raise Stuck("search result " + vshow(v)[:60])
                evs = [x for x in st.events() if x[0] in ("iter", "iterend")]
                bef = lambda x, c: x is not None and st.decide(st.norm(c)) is True
                if left:
                    base = start if b else g
                    B = rd(base)
                    # exclusive upper bound of what may be skipped: keys above B
                    okprev = lambda pv: pv is None or st.decide(c_gt(st.norm(pv - B))) is True
                else:
                    B = rd(start)
                    okprev = lambda pv: pv is None or st.decide(c_ge(st.norm(B - pv)) if b else c_gt(st.norm(B - pv))) is True
                if found:
                    k = val(st, v[2])
                    ev = [x for x in evs if x[0] == "iter" and st.norm(x[4] - k).const() == 0]
                    report(bool(ev), "active", "the reported limit is an initialised tick", show(k)[:80])
                    if not ev:
                        continue
                    x = ev[-1]
                    report("active_ticks" in show(x[1][1]), "map", "the search runs over the initialised ticks", show(x[1][1])[:120])
                    if left:
                        ok = st.decide(c_ge(st.norm(base - k))) is True
                        report(ok, "side", "the limit is not above the search start nor above the current tick", show(k)[:120])
                    else:
                        ok = st.decide(c_gt(st.norm(k - B)) if b else c_ge(st.norm(k - B))) is True
                        report(ok, "side", "the limit is above the current tick when the search starts there, else at or above the search start", show(k)[:120])
                    report(x[2] == (-1 if left else 1) and okprev(x[3]), "nearest", "no initialised tick between the search start and the reported limit is passed over", str(x[3])[:160])
                else:
                    ev = [x for x in evs if x[0] == "iterend"]
                    x = ev[-1] if ev else None
                    ok = x is not None and x[2] == (-1 if left else 1) and okprev(x[3]) and x[4] is None
                    report(ok, "none", "no limit is reported only after every initialised tick on that side was looked at", str(x)[:160])
    return run


RULES = {
    "P13": [(e.tag + ("left" if l else "right"), search(l, e)) for e in (FIX, FLT) for l in (True, False)],
    "P11": stepped("fee"),
    "P12": stepped("avg", (FIX,)),
    "P14": stepped("tick"),
    "P10": [(e.tag + "formulas", formulas(e)) for e in (FIX, FLT)],
}
