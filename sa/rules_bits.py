"""B01, B02: the tick bitmap. Ticks are split by their remainder modulo eight; the word they fall in stays symbolic.
Bytes of the stored array are eight unknown bits each (bytebits.py)."""
from fractions import Fraction

from rulekit import *
from bytebits import byte_of, bits_of

B = "hmmcl_sandbox::state::tick_bitmap::PoolTickBitmap"
FAR = 2 ** 28          # words a 32-bit tick can name on either side of zero


def fn_of(m, n):
    return m.one("^%s::%s$" % (B, n))


def words(m):
    """length of the stored array, and the array's field position"""
    t = [t for t in m.types.values() if t["k"] == "adt" and t.get("path") == B]
    if len(t) != 1:
        raise Stuck("the bitmap's type was not found")
    for i, (n, ft) in enumerate(t[0]["variants"][0]["fields"]):
        if m.types[ft]["k"] == "array" and m.types[m.types[ft]["elem"]]["name"] == "u8":
            return m.types[ft]["len"], i, [n for n, _ in t[0]["variants"][0]["fields"]]
    raise Stuck("the bitmap's array was not found")


def word(lo, hi):
    return pa(app("sym", "q", sort=("i", lo, hi)))


def run_bits(rep, m, name, lo, hi, r, extra=(), **kw):
    fn = fn_of(m, name)
    q = word(lo, hi)
    panics = []

    def pre(E, st, a):
        a[1] = q.scale(8) + num(r)
        for i, x in enumerate(extra):
            a[2 + i] = x
    kw.setdefault("bits", lambda E, st, i: None)
    E, a, out = run_fn(rep, m, fn, pre=pre, decnum=False, keep=40, on_panic=lambda E, fr, sp, w, st: panics.append(w), **kw)
    return fn, E, a, [y for st, v in out for y in settle(st, v)] if out else [], panics, q


def bit_atom(p):
    """(array, index, position) of the bit a condition tests"""
    x = p.atom()
    return x.args if x is not None and x.op == "bitat" else None


def tested(st, v):
    """(bit, truth when the bit is one) of a returned truth value"""
    if isinstance(v, bool) or v is None:
        return None
    ats = subatoms(v, ("bitat",))
    if len(ats) != 1:
        return None
    b = pa(next(iter(ats)))
    one, zero = st.split(c_eq(b - ONE))
    if one is None or zero is None:
        return None
    y, n = one.decide(one.norm_val(v)), zero.decide(zero.norm_val(v))
    return (next(iter(ats)).args, y) if y is True and n is False else None


def positions(rep, m, chk):
    """remainder -> (index offset, bit) the membership test looks at"""
    n, _, _ = words(m)
    pos = {}
    for r in range(8):
        fn, E, a, out, panics, q = run_bits(rep, m, "tick_is_active", 0, n - 1, r)
        chk(bool(out) and not panics, fn, "test-range", "every tick of the range can be tested", str(panics)[:100])
        for st, v in out:
            p = tested(st, v)
            chk(p is not None, fn, "test-bit", "the test of a tick looks at one bit", vshow(v)[:120])
            if p is None:
                continue
            (arr, i, j), _ = p
            d = st.norm(i) - st.norm(q)
            chk(d.const() is not None and pos.setdefault(r, (d.const(), j.const())) == (d.const(), j.const()), fn, "test-bit", "the tested bit depends on the tick alone", show(i))
    vals = list(pos.values())
    fn = fn_of(m, "tick_is_active")
    chk(len(set(vals)) == 8 and len({d for d, _ in vals}) == 1, fn, "test-distinct", "different ticks have different bits", str(pos))
    return pos


def checker(rep, m):
    def chk(ok, fn, rule, text, detail=""):
        k = "%s.%s.%s" % (rep.pid, fn.name.rsplit("::", 1)[-1], rule)
        rep.check(ok, k, where_fn(m, fn), text, key=k, detail="" if ok else detail)
    return chk


def agree(rep, m):
    chk = checker(rep, m)
    n, fi, names = words(m)
    pos = positions(rep, m, chk)
    for name, want in (("activate_tick", 1), ("unset_tick", 0)):
        for r in range(8):
            fn, E, a, out, panics, q = run_bits(rep, m, name, 0, n - 1, r)
            chk(bool(out) and not panics, fn, "range", "every tick of the range can be %s" % ("marked" if want else "cleared"), str(panics)[:100])
            for st, _ in out:
                v = E.read(st, a[0][1], a[0][2])
                chk(isinstance(v, tuple) and v[0] == "s" and len(v) == len(names) + 1, fn, "shape", "the bitmap is written field by field", vshow(v)[:100])
                for i, fnm in enumerate(names):
                    x = v[1 + i]
                    if i != fi:
                        chk(untouched(st, x, fnm), fn, "other-fields", "no other stored field changes", "%s = %s" % (fnm, vshow(x)[:80]))
                        continue
                    if not (isinstance(x, tuple) and x and x[0] == "A"):
                        chk(same_when(st, x, q, pos.get(r), want), fn, "bit", "the tick's bit is %s" % ("set" if want else "cleared"), "array not written")
                        continue
                    for idx, val in x[2]:
                        idx = st.norm(idx)
                        chk(r in pos and st.decide(c_eq(idx - st.norm(q) - num(pos[r][0]))) is True, fn, "word", "only the tick's own word is written", show(idx))
                        bs = bits_of(st.norm(val))
                        if bs is None or r not in pos:
                            chk(False, fn, "bit", "the tick's bit is %s" % ("set" if want else "cleared"), show(val)[:120])
                            continue
                        for j in range(8):
                            if j == pos[r][1]:
                                chk(bs[j].const() == want or st.decide(c_eq(bs[j] - num(want))) is True, fn, "bit", "the tick's bit is %s" % ("set" if want else "cleared"), show(bs[j])[:80])
                            else:
                                b = st.norm(pa(app("bitat", x[1], idx, num(j), sort=("i", 0, 1))))
                                chk(bs[j] == b or st.decide(c_eq(bs[j] - b)) is True, fn, "others", "no other tick's bit changes", "bit %d: %s" % (j, show(bs[j])[:60]))
    for name in ("tick_is_active", "activate_tick", "unset_tick"):
        for lo, hi in ((n, FAR - 1), (-FAR, -1)):
            for r in range(8):
                fn, E, a, out, panics, q = run_bits(rep, m, name, lo, hi, r)
                chk(not out, fn, "outside", "ticks outside the range abort", "ticks from %d to %d" % (8 * lo, 8 * hi + 7))


def untouched(st, x, name):
    """the value the field had before the call"""
    return vshow(x).endswith("." + name)


def same_when(st, x, q, pos, want):
    """nothing written: fine where the bit already had the value"""
    if pos is None or not isinstance(x, Atom):
        return False
    b = pa(app("bitat", x, st.norm(q + num(pos[0])), num(pos[1]), sort=("i", 0, 1)))
    return st.decide(c_eq(b - num(want))) is True


# ---------------------------------------------------------------- B02
Z, C = ("G", "zero"), ("G", "read")


def search(direction, rems):
    """ghost: all words in [lo, hi) are empty; extended whenever the word just read is known to be empty"""
    up = direction == 1

    def go(rep, m):
        chk = checker(rep, m)
        n, fi, names = words(m)
        pos = positions(rep, m, chk)
        for r in rems:
            if r not in pos:
                continue
            off = pos[r][0]
            bitno = {x: pos[x][1] for x in pos}
            holder = {}

            def zero(st, i, j):
                return st.decide(c_eq(st.norm(pa(app("bitat", holder["map"], st.norm(i), num(j), sort=("i", 0, 1)))))) is True

            def settle_ghost(E, st):
                c = st.env.pop(C, None)
                if c is None or "map" not in holder:
                    return
                if Z not in st.env:
                    return
                i = st.norm(c[1])
                lo, hi = (st.norm(x) for x in st.env[Z][1:])
                if all(zero(st, i, j) for j in range(8)):
                    if st.decide(c_eq(i - hi)) is True:
                        hi = i + ONE
                    elif st.decide(c_eq(i - lo + ONE)) is True:
                        lo = i
                st.env[Z] = ("s", lo, hi)

            def on_read(E, st, i):
                if Z not in st.env:
                    start = word(0, n - 1) + num(off)
                    start = start + ONE if up else start
                    st.env[Z] = ("s", st.norm(start), st.norm(start))
                settle_ghost(E, st)
                st.env[C] = ("s", st.norm(i))

            fn = fn_of(m, "get_next_tick")

            q0 = word(0, n - 1)
            panics = []

            def pre(E, st, a):
                a[1] = q0.scale(8) + num(r)
                a[2] = num(direction)
            holder["map"] = array_atom(m, fn, fi)
            E, a, out = run_fn(rep, m, fn, pre=pre, decnum=False, keep=40, bits=on_read, on_key=settle_ghost, on_panic=lambda E, fr, sp, w, st: panics.append(w))
            tick = q0.scale(8) + num(r)
            chk(bool(out) and not panics, fn, "completes", "a search from any tick of the range completes", str(panics)[:100])
            for st, v in out:
                q = st.norm(q0) + num(off)
                near = [x for x in (range(r + 1, 8) if up else range(r))]
                own = all(zero(st, q, bitno[x]) for x in near if x in bitno)
                if not (isinstance(v, tuple) and v[0] == "e"):
                    raise Stuck("the search's result")
                if v[1] == 0:
                    settle_ghost(E, st)
                    lo, hi = (st.norm(x) for x in st.env[Z][1:]) if Z in st.env else (None, None)
                    ok = own and lo is not None and (st.decide(c_ge(q + ONE - lo)) is True and st.decide(c_eq(hi - num(n))) is True if up else
                                                      st.decide(c_eq(lo)) is True and st.decide(c_ge(hi - q)) is True)
                    ok = ok or own and (st.decide(c_eq(q - num(n - 1))) is True if up else st.decide(c_eq(q)) is True)
                    chk(ok, fn, "none", "no tick is reported only if every word on that side is empty", "own word empty: %s, empty words %s to %s" % (own, lo and show(lo), hi and show(hi)))
                    continue
                t = st.norm(v[2])
                chk(st.decide(c_gt(t - tick) if up else c_gt(tick - t)) is True, fn, "side", "the tick found lies strictly on the requested side", show(t))
                k = t.m.get((), 0)
                rest = t - num(k)
                if any(c % 8 for c in rest.m.values()):
                    chk(False, fn, "active", "the tick found is active", show(t))
                    continue
                j = int(k) % 8
                idx = st.norm((t - num(j)).scale(Fraction(1, 8)) + num(off))
                one = lambda i, x: st.decide(c_eq(st.norm(pa(app("bitat", holder["map"], st.norm(i), num(bitno[x]), sort=("i", 0, 1)))) - ONE)) is True
                here = st.decide(c_eq(idx - q)) is True
                c = st.env.get(C)
                if not here and c is not None and st.decide(c_eq(idx - st.norm(c[1]))) is True:
                    idx = st.norm(c[1])
                chk(one(q if here else idx, j), fn, "active", "the tick found is active", show(t))
                if here:
                    between = range(r + 1, j) if up else range(j + 1, r)
                    chk(all(zero(st, q, bitno[x]) for x in between), fn, "nearest", "no active tick lies between", show(t))
                    continue
                between = range(0, j) if up else range(j + 1, 8)
                lo, hi = (st.norm(x) for x in st.env[Z][1:]) if Z in st.env else (ZERO, ZERO)
                ok = own and all(zero(st, idx, bitno[x]) for x in between)
                far = st.decide(c_ge(q + ONE - lo)) is True and st.decide(c_ge(hi - idx)) is True if up else st.decide(c_ge(hi - q)) is True and st.decide(c_ge(idx + ONE - lo)) is True
                chk(ok and far, fn, "nearest", "no active tick lies between", "own word empty: %s, empty words %s to %s, found in %s" % (own, show(lo), show(hi), show(idx)))
    return go


def array_atom(m, fn, fi):
    """the stored array as the analysis names it"""
    E = Engine(m, strict=True, bits=lambda E, st, i: None)
    a = E.opaque("sym", (argname(fn, 0),), fn.locals[1])
    return E.read(State(), a[1], a[2])[1 + fi]


RULES = {
    "B01": [("agree", agree)],
    "B02": [("%s-%d" % ("up" if d else "down", r), search(d, (r,))) for d in (0, 1) for r in range(8)],
}
