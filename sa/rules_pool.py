"""Rules over the fixed-point pool engine (module cl_pool)."""
from rulekit import *
from fractions import Fraction
import models


class Eng:
    """one of the two pool engines"""

    def __init__(self, mod, tag):
        self.mod, self.tag = mod, tag
        self.p = r"^hmmcl_sandbox::%s::Pool::<.*>::%%s$" % mod
        self.m = r"^<hmmcl_sandbox::%s::Pool<.*> as hmmcl_sandbox::%s::cl_math::PoolMath>::%%s$" % (mod, mod)

    def pool(self, m, n):
        return m.one(self.p % n)

    def math(self, m, n):
        return m.one(self.m % n)

    def type(self, m, n):
        return type_id(m, "hmmcl_sandbox::%s::cl_components::%s" % (self.mod, n))

    def num(self, p):
        return dec(p) if self.tag == "" else p


FIX, FLT = Eng("cl_pool", ""), Eng("cl_pool_float", "float-")


def pool_view(E, st, args, fn, i=0):
    return V(E, st, args[i], fn.locals[1 + i])


RESERVES = ("x", "y", "x_adj", "y_adj", "x_fee", "y_fee")


def pre_pool(E, st, args, fn):
    """representation invariant of a pool: no reserve or pot is negative (kept by every public operation)"""
    p = pool_view(E, st, args, fn)
    for n in RESERVES:
        st.assume(c_ge(p.f(n).n()))
    st.assume(c_ge(p.f("tick_spacing").n() - ONE))


def swap_paths(rep, m, side, e, **kw):
    fn = e.pool(m, "execute_swap_from_" + side)
    E, args, out = run_fn(rep, m, fn, pre=lambda E, st, a: pre_pool(E, st, a, fn), **kw)
    st0 = State()
    return fn, E, args, out, st0


def out_view(E, st, v, fn):
    return V(E, st, v, fn.locals[0])


OTHER = {"x": "y", "y": "x"}


def p03(side, e=FIX):
  def run(rep, m):
        other = OTHER[side]
        fn, E, args, out, st0 = swap_paths(rep, m, side, e)
        w = where_fn(m, fn)
        p0 = pool_view(E, st0, args, fn)
        if not out:
            rep.violate("P03.reach@" + side, w, "no completed swap path was found")
        for st, v in out:
            o = out_view(E, st, v, fn)
            p1 = pool_view(E, st, args, fn)
            d = lambda n: p1.f(n).n() - st.norm(p0.f(n).n())
            recv, send, adj, fee = (o.f(k).n() for k in ("recv_amount", "send_amount", "send_hmm_adj", "recv_fee"))
            for rule, txt, p in (
                ("recv", "input reserve + fee pot grow by exactly the reported received amount", d(side) + d(side + "_fee") - recv),
                ("fee", "input fee pot grows by exactly the reported fee", d(side + "_fee") - fee),
                ("send", "output reserve + adjustment pot change by exactly the reported sent amount", d(other) + d(other + "_adj") - send),
                ("adj", "output adjustment pot grows by exactly the reported adjustment", d(other + "_adj") - adj),
                ("in-adj", "input adjustment pot is unchanged", d(side + "_adj")),
                ("out-fee", "output fee pot is unchanged", d(other + "_fee")),
            ):
                ok = zero(st, p)
                rep.check(ok, "P03.%s.%s" % (side, rule), w, txt, detail="" if ok else "off by " + show(st.norm(p))[:200])
  return run


def p04(side, e=FIX):
  def run(rep, m):
        other = OTHER[side]
        fn, E, args, out, st0 = swap_paths(rep, m, side, e)
        w = where_fn(m, fn)
        if not out:
            rep.violate("P04.reach@" + side, w, "no completed swap path was found")
        p0 = pool_view(E, st0, args, fn)
        dxi = V(E, st0, args[1], fn.locals[2]).n()
        for st, v in out:
            o = out_view(E, st, v, fn)
            p1 = pool_view(E, st, args, fn)
            recv, send, adj, fee = (o.f(k).n() for k in ("recv_amount", "send_amount", "send_hmm_adj", "recv_fee"))
            chk = lambda ok, r, t, p: rep.check(ok, "P04.%s.%s" % (side, r), w, t, detail="" if ok else show(st.norm(p))[:160])
            chk(gt0(st, dxi), "offered", "only positive offered amounts complete", dxi)
            chk(ge0(st, recv), "recv", "received amount is not negative", recv)
            chk(ge0(st, dxi - recv), "limit", "received amount does not exceed the offered amount", dxi - recv)
            chk(ge0(st, -send), "send", "sent amount is not positive", send)
            chk(ge0(st, fee), "fee", "fee is not negative", fee)
            chk(ge0(st, adj), "adj", "adjustment is not negative", adj)
            y1 = p1.f(other).n()
            y0 = st.norm(p0.f(other).n())
            ok = ge0(st, y1)
            chk(ok, "drain", "a reserve that was paid from stays non-negative", y1)
  return run


# ---------------------------------------------------------------- deposits and withdrawals
KINDS = (("x", "f"), ("y", "f"), ("x", "h"), ("y", "h"))


def type_id(m, path):
    l = m.type_by_path(path)
    if len(l) != 1:
        raise KeyError("type " + path)
    return l[0]["id"]


def has_atom(base, key):
    return c_atom(app("has", base, key, sort=BOOL))


class MapDelta:
    """what happened to one key of a map"""

    def __init__(self, key):
        self.key = key
        self.had = self.now = None      # bool or Cond
        self.old = self.new = None      # V


def map_changes(E, st, v0, v1, vty):
    """keys of a map whose content may differ between the values v0 (entry) and v1 (exit) -> (same?, [MapDelta])"""
    if v1[1] is not v0[1]:
        return None
    out = []
    keys = []
    for k, pres in v1[2]:
        if k not in keys:
            keys.append(k)
    for c in st.env:
        if c[0] == "M" and c[1] is v1[1] and c[2] not in keys:
            keys.append(c[2])
    for k in keys:
        d = MapDelta(k)
        h = st.norm(has_atom(v0[1], k))
        d.had = h
        d.now = h
        for kk, pres in v1[2]:
            if kk == k:
                d.now = pres
        old = st.norm_val(E.opaque("mapval", (v0[1], k), vty))
        new = st.norm_val(st.env.get(("M", v1[1], k), old))
        d.old = V(E, st, old, vty)
        d.new = V(E, st, new, vty)
        if d.now is d.had and old == new:
            continue
        out.append(d)
    return out


def call_ref(E, st, fn, args):
    """[(state, number)] of a reference function of the code base"""
    return [(s, s.norm(v if isinstance(v, Poly) else v[1])) for s, v in E.run(st.copy(), fn, args)]


def dec(p):
    return ("d", p, num(12))


def growth_cases(E, st, p0, lo, hi, tty):
    """states where the fee growth inside [lo, hi) is a term, for the entry pool p0 -> [(state, {kind: term})]"""
    base = p0.f("active_ticks").v[1]
    gs = p0.f("global_state")
    cur = gs.f("tick").n()
    cond = [has_atom(base, lo), c_ge(cur - lo), has_atom(base, hi), c_ge(cur - hi)]
    out = []
    for s, (hl, cl, hh, ch) in split_all(st, cond):
        g = {}
        for t, k in KINDS:
            fg = s.norm(V(E, s, gs.v, gs.ty).f("%sg_%s" % (k, t)).n())

            def o(key):
                return s.norm(V(E, s, E.opaque("mapval", (base, key), tty), tty).f("%s0_%s" % (k, t)).n())
            below = fg if not hl else (o(lo) if cl else fg - o(lo))
            above = ZERO if not hh else (fg - o(hi) if ch else o(hi))
            g[t, k] = s.norm(fg - below - above)
        out.append((s, g))
    return out


def safety_factor(E, st, amount, paid):
    """constant k < 1 with paid = amount * k (rounded), None if there is none"""
    todo, seen = [paid], set()
    ks = set()
    while todo:
        x = todo.pop()
        if isinstance(x, Atom):
            if x.id in seen:
                continue
            seen.add(x.id)
            todo.extend(a for a in x.args if isinstance(a, (Poly, Atom)))
        elif isinstance(x, Poly):
            c = x.const()
            if c is not None and Fraction(99, 100) < c < 1:
                ks.add(c)
            for mono in x.m:
                todo.extend(ATOMS[i] for i, _ in mono)
    for k in sorted(ks):
        if zero(st, paid - st.norm(d_mul(amount, num(k)))):
            return k
    return None


def positions(op, want, e=FIX):
    """obligations on every completed path of deposit / withdraw; `want` selects the rule groups"""
    def run(rep, m):
        fn = e.pool(m, op)
        E, args, out = run_fn(rep, m, fn, pre=lambda E, st, a: pre_pool(E, st, a, fn), cap=3000)
        w = where_fn(m, fn)
        xf, yf, t2r = e.math(m, "x_from_l_rp_rng"), e.math(m, "y_from_l_rp_rng"), e.math(m, "tick_to_rp")
        tty, pty = e.type(m, "TickState"), e.type(m, "PositionState")

        def chk(group, st, ok, rule, text, p=None):
            if group in want:
                rep.check(ok, "%s.%s" % (rep.pid, rule), w, text, key="%s.%s@%s" % (rep.pid, rule, op),
                          detail="" if ok or p is None else "off by " + show(st.norm(p) if isinstance(p, Poly) else p)[:220])

        def eqz(group, st, p, rule, text):
            chk(group, st, zero(st, p), rule, text, p)
        if not out:
            rep.violate("%s.reach@%s" % (rep.pid, op), w, "no completed path was found")
        for st1, _ in out:
            p1v = pool_view(E, st1, args, fn)
            p0 = pool_view(E, State(), args, fn)
            pd = map_changes(E, st1, p0.f("positions").v, p1v.f("positions").v, pty)
            td = map_changes(E, st1, p0.f("active_ticks").v, p1v.f("active_ticks").v, tty)
            if pd is None or td is None:
                chk("liq", st1, False, "maps", "positions or ticks are replaced wholesale")
                continue
            chk("liq", st1, len(pd) <= 1, "one-position", "at most one position changes")
            if len(pd) > 1:
                continue
            # amounts that do not depend on which position it is
            if not pd:
                # no position changed: then nothing else may have
                for n in RESERVES:
                    if n in ("x", "y"):
                        continue
                    eqz("amount", st1, p1v.f(n).n() - st1.norm(p0.f(n).n()), "pot-idle." + n, "pot %s is unchanged when no position is" % n)
                continue
            d = pd[0]
            user, lo, hi = d.key[1], d.key[2], d.key[3]
            lo, hi = st1.norm(lo), st1.norm(hi)
            chk("liq", st1, st1.norm_val(user) == st1.norm_val(args[1]), "owner", "the position belongs to the calling user")
            chk("liq", st1, gt0(st1, hi - lo), "range", "the range is not empty", hi - lo)
            conds = [c for c in (d.had, d.now) if isinstance(c, Cond)]
            for s0, _b in split_all(st1, conds):
                for st, G in growth_cases(E, s0, p0, lo, hi, tty):
                    one_position(e, E, st, rep, op, args, fn, p0, d, lo, hi, td, G, chk, eqz, (xf, yf, t2r), tty)
    return run


def truth(st, c):
    return c if isinstance(c, bool) else st.decide(st.norm(c))


def one_position(e, E, st, rep, op, args, fn, p0, d, lo, hi, td, G, chk, eqz, refs, tty):
    xf, yf, t2r = refs
    p1 = pool_view(E, st, args, fn)
    n0 = lambda n: st.norm(p0.f(n).n())
    n1 = lambda n: p1.f(n).n()
    gs0, gs1 = p0.f("global_state"), p1.f("global_state")
    had, now = truth(st, d.had), truth(st, d.now)
    old = V(E, st, st.norm_val(d.old.v), d.old.ty)
    new = V(E, st, st.norm_val(d.new.v), d.new.ty)
    L0 = old.f("liq").n() if had else ZERO
    L1 = new.f("liq").n() if now else ZERO
    dL = st.norm(L1 - L0)
    # ---- bookkeeping of liquidity
    if op == "withdraw":
        liq = st.norm(V(E, st, args[2], fn.locals[3]).n())
        eqz("liq", st, dL + liq, "delta", "the position loses exactly the requested liquidity")
        chk("liq", st, had, "delta-known", "only an existing position is withdrawn from") if gt0(st, liq) else None
    elif e is FIX:
        chk("liq", st, ge0(st, dL), "delta-sign", "a deposit never lowers a position's liquidity", dL)
    if had:
        chk("liq", st, (not now) or st.decide(c_ne(L1)) is True, "empty-position", "a position whose liquidity drops to zero is removed", L1)
        chk("liq", st, ge0(st, L1), "position-sign", "a position's liquidity stays non-negative", L1)
    touched = []
    for t in td:
        isl, ish = st.decide(c_eq(st.norm(t.key) - lo)), st.decide(c_eq(st.norm(t.key) - hi))
        if isl is True:
            touched.append("lo")
        elif ish is True:
            touched.append("hi")
        else:
            chk("liq", st, False, "other-tick", "no tick other than the range ends changes", st.norm(t.key))
    for name, key, sgn in (("lower", lo, 1), ("upper", hi, -1)):
        base = p0.f("active_ticks").v[1]
        th = st.decide(st.norm(has_atom(base, key)))
        told = V(E, st, st.norm_val(E.opaque("mapval", (base, key), tty)), tty)
        tn, tnew = th, told
        for t in td:
            if st.decide(c_eq(st.norm(t.key) - key)) is True:
                tn = truth(st, t.now)
                tnew = V(E, st, st.norm_val(t.new.v), tty)
        if th is None:
            chk("liq", st, False, "tick-unknown." + name, "the %s range end is looked up" % name)
            continue
        g0, l0 = (told.f("liq_gross").n(), told.f("liq_net").n()) if th else (ZERO, ZERO)
        if tn:
            eqz("liq", st, tnew.f("liq_gross").n() - g0 - dL, "gross." + name, "gross liquidity of the %s end changes like the position's" % name)
            eqz("liq", st, tnew.f("liq_net").n() - l0 - dL.scale(sgn), "net." + name, "net liquidity of the %s end changes by %s the position's change" % (name, "plus" if sgn > 0 else "minus"))
            chk("liq", st, st.decide(c_ne(tnew.f("liq_gross").n())) is True, "empty-tick." + name, "a range end without gross liquidity is removed", tnew.f("liq_gross").n())
            cur = st.norm(gs0.f("tick").n())
            for s2, (above,) in split_all(st, [c_ge(cur - key)]):
                for tok, k in KINDS:
                    f = "%s0_%s" % (k, tok)
                    nv = s2.norm(V(E, s2, tnew.v, tty).f(f).n())
                    if th:
                        eqz("growth", s2, nv - s2.norm(V(E, s2, told.v, tty).f(f).n()), "outside-kept." + f, "outside counter of an existing range end is not changed")
                    else:
                        g = s2.norm(V(E, s2, gs0.v, gs0.ty).f("%sg_%s" % (k, tok)).n())
                        eqz("growth", s2, nv - (g if above else ZERO), "outside-new." + f, "outside counter of a new range end starts by convention")
        else:
            eqz("liq", st, g0 + dL, "removed-tick." + name, "a range end is only removed when its gross liquidity drops to zero")
    cur = st.norm(gs0.f("tick").n())
    dG = gs1.f("liq").n() - st.norm(gs0.f("liq").n())
    for s2, (a, b) in split_all(st, [c_ge(cur - lo), c_gt(hi - cur)]):
        eqz("liq", s2, s2.norm(dG) - (s2.norm(dL) if a and b else ZERO), "in-range", "in-range liquidity changes exactly when the current tick is inside the range")
    # ---- price and growth untouched
    for n in ("rp", "tick", "fg_x", "fg_y", "hg_x", "hg_y"):
        eqz("amount", st, gs1.f(n).n() - st.norm(gs0.f(n).n()), "frozen." + n, "%s is not changed" % n)
    for n in ("c", "fee_rate", "tick_spacing"):
        eqz("amount", st, n1(n) - n0(n), "frozen." + n, "%s is not changed" % n)
    # ---- checkpoints and credits
    for tok, k in KINDS:
        f = "%sr_%s" % (k, tok)
        if now:
            eqz("ckpt", st, new.f(f).n() - G[tok, k], "checkpoint." + f, "the checkpoint %s moves to the current growth inside the range" % f)
            ck = new.f(f).n()
        else:
            ck = G[tok, k]
        c0 = old.f(f).n() if had else ck
        cred = st.norm(d_mul(L0, st.norm(ck - c0))) if had else ZERO
        cref = st.norm(d_mul(L0, st.norm(G[tok, k] - c0))) if had else ZERO
        pot = "%s_%s" % (tok, "fee" if k == "f" else "adj")
        eqz("amount", st, n0(pot) - n1(pot) - cred, "pot." + pot, "pot %s falls by exactly the credited fees" % pot)
        eqz("ckpt", st, n0(pot) - n1(pot) - cref, "credit." + pot, "credited from %s: old liquidity times growth since the checkpoint" % pot)
        if e is FIX:
            chk("amount", st, ge0(st, n1(pot)), "overdrawn." + pot, "pot %s is not overdrawn" % pot, n1(pot))
    # ---- amounts
    rp0 = st.norm(gs0.f("rp").n())
    for s2, ra in E.run(st.copy(), t2r, [lo]):
        for s3, rb in E.run(s2, t2r, [hi]):
            for tok, ref, ai in (("x", xf, 2), ("y", yf, 3)):
                for s4, X in call_ref(E, s3, ref, [e.num(s3.norm(dL if op == "deposit" else -dL)), e.num(s3.norm(rp0)), ra, rb]):
                    got = s4.norm(n1(tok) - n0(tok))
                    if op == "deposit":
                        eqz("amount", s4, got - X, "reserve." + tok, "reserve %s grows by the amount the added liquidity requires" % tok)
                        offer = s4.norm(V(E, s4, args[ai], fn.locals[1 + ai]).n())
                        chk("amount", s4, ge0(s4, offer - X), "offered." + tok, "the required amount of %s does not exceed the offered one" % tok, offer - X)
                    else:
                        k = safety_factor(E, s4, X, s4.norm(-got)) if X.m else (1 if zero(s4, got) else None)
                        chk("amount", s4, k is not None, "reserve." + tok, "reserve %s falls by the represented amount times the safety factor" % tok, got)
                        if e is FIX:
                            chk("amount", s4, ge0(s4, s4.norm(n1(tok))), "overdrawn." + tok, "reserve %s is not overdrawn" % tok, n1(tok))


# ---------------------------------------------------------------- swap steps (one iteration of any loop that moves the pool)
X = ("X", "pre")


class Step:
    """the pool at the last checkpoint (a snapshot) and in a state"""

    def __init__(self, E, fn, args, x, s):
        self.E, self.st = E, s
        ty = E.pointee(fn.locals[1])
        pv, cells = x[1], {c[1]: c[2] for c in x[2][1:]}
        base = pv[1 + E.mir.field_index(ty, "active_ticks")]
        nv = E.read(s, args[0][1], args[0][2])
        self.same = nv == pv and not any(s.env.get(("M", base[1], k)) not in (None, v) for k, v in cells.items())
        self.pre = V(E, s, s.norm_val(pv), ty)
        self.now = V(E, s, s.norm_val(nv), ty)
        self.base0, self.base1 = base, self.now.f("active_ticks").v
        self.cells = cells

    def crossed(self, tty):
        """[(key, old, new, present)] of tick cells that differ"""
        E, s = self.E, self.st
        if self.base1[1] is not self.base0[1]:
            return None
        out = []
        pre = {s.norm_val(k): s.norm_val(v) for k, v in self.cells.items()}
        now = {s.norm_val(c[2]): v for c, v in s.env.items() if c[0] == "M" and c[1] is self.base1[1]}
        for k in pre:
            if k not in now:        # back to what the map held at first
                now[k] = E.opaque("mapval", (self.base1[1], k), tty)
        for k, v in now.items():
            old = pre.get(k)
            if old is None:
                old = s.norm_val(E.opaque("mapval", (self.base1[1], k), tty))
            new = s.norm_val(v)
            if new != old:
                out.append((k, V(E, s, old, tty), V(E, s, new, tty), models.map_present(E, s, self.base1, k)))
        return out


def swap_steps(side, want, e=FIX):
    other = OTHER[side]

    def run(rep, m):
        fn = e.pool(m, "execute_swap_from_" + side)
        tty = e.type(m, "TickState")
        t2r = e.math(m, "tick_to_rp")
        w = where_fn(m, fn)
        a0 = []
        n = {"steps": 0}
        dty = fn.locals[2]

        def snap(E, s):
            args = a0[0]
            i = E.mir.field_index(E.pointee(fn.locals[1]), "active_ticks")
            pv = E.read(s, args[0][1], args[0][2])
            b = pv[1 + i][1]
            return ("s", pv, ("s",) + tuple(("s", c[2], v) for c, v in s.env.items() if c[0] == "M" and c[1] is b))

        def note_at(E, lw):
            def note(ok, rule, text, detail=""):
                E.log.append((ok is True, "%s.%s.%s" % (rep.pid, side, rule), lw, text, detail))
            return note

        # the pool is compared with its last checkpoint: the head of the enclosing loop that moves it,
        # or the end of a loop that has moved it
        def on_head(E, H):
            H.env[X] = snap(E, H)

        def on_loop(E, fr, head, parts, exits, entry):
            args = a0[0]
            note = note_at(E, "%s (%s)" % (short(fr.fn.name), m.src(fr.fn.span)))
            moved = False
            for H, back, exs in parts:
                for s in back + exs:
                    t = Step(E, fn, args, s.env[X], s)
                    if s.env[X] is not H.env[X]:
                        moved = True
                    if t.same:
                        continue
                    moved = True
                    one_step(E, fr, t, s, args, note)
            if moved:
                t = Step(E, fn, args, entry.env[X], entry)
                if not t.same:
                    one_step(E, fr, t, entry, args, note)
            for ss in exits.values():
                for s in ss:
                    s.env[X] = snap(E, s) if moved else entry.env[X]

        def one_step(E, fr, t, s, args, note):
            n["steps"] += 1
            pre, now = t.pre, t.now
            g0, g1 = pre.f("global_state"), now.f("global_state")
            d = lambda f: s.norm(now.f(f).n() - pre.f(f).n())
            dg = lambda f: s.norm(g1.f(f).n() - g0.f(f).n())
            z = lambda p, rule, text: note(zero(s, p), rule, text, "off by " + show(s.norm(p))[:200])
            L = g0.f("liq").n()
            cr = t.crossed(tty)
            if cr is None:
                note(False, "ticks", "tick states are replaced wholesale within a step")
                return
            recv, fee, adj = s.norm(d(side) + d(side + "_fee")), d(side + "_fee"), d(other + "_adj")
            # ---- which tick
            if "cross" in want:
                note(len(cr) <= 1, "one-crossing", "a step changes at most one tick", str([show(k) for k, *_ in cr])[:150])
            if len(cr) > 1:
                return
            key = cr[0][0] if cr else None
            if "cross" in want:
                if cr:
                    k, old, new, pres = cr[0]
                    note(truth(s, pres) is True, "initialised", "only an initialised tick is crossed", show(k))
                    for f in ("liq_net", "liq_gross"):
                        z(new.f(f).n() - old.f(f).n(), "kept." + f, "%s of a crossed tick is not changed" % f)
                    for tok, kd in KINDS:
                        f0, fg = "%s0_%s" % (kd, tok), "%sg_%s" % (kd, tok)
                        z(new.f(f0).n() + old.f(f0).n() - g1.f(fg).n(), "flip." + f0, "%s becomes the global counter minus its old value" % f0)
                    net = old.f("liq_net").n()
                    z(g1.f("liq").n() - L + (net if side == "x" else -net), "net", "in-range liquidity changes by the crossed tick's net liquidity, by direction")
                    tk = g1.f("tick").n()
                    if side == "x":
                        note(ge0(s, k - ONE - tk), "tick", "after a downward crossing the current tick is strictly below the crossed one", show(s.norm(k - tk)))
                    else:
                        z(tk - k, "tick", "after an upward crossing the current tick is the crossed one")
                else:
                    z(g1.f("liq").n() - L, "uncrossed", "in-range liquidity only changes when a tick is crossed")
            if "accrue" in want:
                for tok, kd, amount in ((side, "f", fee), (other, "h", adj), (side, "h", None), (other, "f", None)):
                    f = "%sg_%s" % (kd, tok)
                    inc = dg(f)
                    if amount is None:
                        z(inc, "growth-idle." + f, "%s is not changed by this swap direction" % f)
                        continue
                    for s2, (pos,) in split_all(s, [c_gt(L)]):
                        exp = d_div(s2.norm(amount), s2.norm(L)) if pos else ZERO
                        ok = zero(s2, s2.norm(inc) - s2.norm(exp))
                        note(ok, "growth." + f, "%s grows by the step's fee per unit of in-range liquidity" % f, "off by " + show(s2.norm(inc - exp))[:200])
            if "price" in want or "cross" in want:
                traded = not zero(s, recv) or not zero(s, d(other)) or not zero(s, adj)
                rp0, rp1 = g0.f("rp").n(), g1.f("rp").n()
                if cr and "price" not in want:
                    pass
                elif cr:
                    for s2, v in E.run(s.copy(), t2r, [key]):
                        r = s2.norm(v if isinstance(v, Poly) else v[1])
                        note(zero(s2, s2.norm(rp1) - r), "at-limit", "a crossing happens exactly at the crossed tick's price", show(s2.norm(rp1 - r))[:160])
                elif traded or not zero(s, rp1 - rp0):
                    used = s.norm(now.f(side).n() + now.f(side + "_fee").n() - s.norm(tot0[0]))
                    offered = s.norm(off[0])
                    z(used - offered, "used-up", "a step without a crossing uses up the offered amount")
                if traded and "price" in want:
                    p = rp0 - rp1 if side == "x" else rp1 - rp0
                    note(ge0(s, p), "direction", "the price moves only in the trade's direction", show(s.norm(p))[:160])

        tot0, off = [], []

        def pre(E, st, a):
            a0.append(a)
            pre_pool(E, st, a, fn)
            p = pool_view(E, st, a, fn)
            tot0.append(p.f(side).n() + p.f(side + "_fee").n())
            off.append(V(E, st, a[1], dty).n())
            st.env[X] = snap(E, st)
        E, args, out = run_fn(rep, m, fn, pre=pre, on_loop=on_loop, on_head=on_head)
        for s, _ in out:
            t = Step(E, fn, args, s.env[X], s)
            if not t.same:
                one_step(E, None, t, s, args, note_at(E, w))
        for ok, rule, lw, text, detail in E.log:
            rep.check(ok, rule, lw, text, key="%s@%s" % (rule, short(fn.name)), detail="" if ok else detail)
        if not n["steps"] or not E.log:
            rep.violate("%s.%s.reach@swap" % (rep.pid, side), w, "no step of the swap loop was found")
    return run


def sided(f):
    return [(e.tag + d, f(d, e)) for e in (FIX, FLT) for d in "xy"]


def dw(*groups, ops=("deposit", "withdraw")):
    return [(e.tag + op, positions(op, groups, e)) for e in (FIX, FLT) for op in ops]


def steps(*want):
    return [(e.tag + "swap-" + d, swap_steps(d, want, e)) for e in (FIX, FLT) for d in "xy"]


RULES = {
    "P01": dw("amount", ops=("deposit",)),
    "P02": dw("amount", ops=("withdraw",)),
    "P03": sided(p03), "P04": sided(p04),
    "P05": dw("liq"),
    "P06": steps("cross"),
    "P07": dw("ckpt") + steps("accrue"),
    "P08": dw("growth", "ckpt"),
    "P09": steps("price"),
}
