"""D05: every integer operation that could lose bits silently, function by function.

A site is an addition, subtraction, multiplication, negation, shift or integer conversion in the compiler's output for
the release configuration (no implicit overflow checks), or a call of a standard function that wraps. A site whose
result always fits by its types alone is discharged at once. For the others the function is analysed with arbitrary
arguments; a site that is not safe for arbitrary arguments is safe if it is in every caller's context, followed upwards
until functions that can be called with anything (trait implementations, the public operations, uncalled functions)."""
from rulekit import *
import re
from rules_dec import inherent
import rules_chain

SCOPE = re.compile(r"/src/(decimal\.rs|cl_pool/\w+\.rs|instructions/\w+\.rs|state/(?!tick_bitmap)\w+\.rs)$")
SCOPE_IX = re.compile(r"/src/(instructions|state)/")
FIXED = {"Add", "Sub", "Mul", "Shl", "Shr", "AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked"}
WRAPS = re.compile(r"^core::num::<impl [ui]\w+>::(wrapping_\w+|overflowing_\w+|unchecked_\w+|pow|abs|next_power_of_two|strict_\w+)$|^core::intrinsics::(wrapping|unchecked)_\w+$")
ARITH = re.compile(r"^(std|core)::(ops::(Add|Sub|Mul|Shl|Shr|Neg|AddAssign|SubAssign|MulAssign|ShlAssign|ShrAssign)::\w+|iter::(Iterator|Sum|Product)::(sum|product))$|^core::iter::traits::(iterator::Iterator|accum::(Sum|Product))::(sum|product)$")
PUBLIC = {inherent(n) for n in ("new", "one", "two", "from_u64", "to_u64", "from_u128", "abs", "abs_up", "from_scaled_amount", "to_scaled_amount", "to_scaled_amount_up",
                                "to_scale", "to_scale_up", "to_compute_scale", "denominator", "is_positive", "is_negative", "is_zero", "is_integer")}


def width(m, ty):
    t = m.types[ty]
    if t["k"] == "bool":
        return (0, 1)
    if t["k"] == "char":
        return (0, 0x10FFFF)
    if t["k"] not in ("int", "uint"):
        return None
    b = {"usize": 64, "isize": 64}.get(t["name"]) or int(t["name"][1:])
    return (-2 ** (b - 1), 2 ** (b - 1) - 1) if t["k"] == "int" else (0, 2 ** b - 1)


class Sites:
    """the sites of one function that are not safe by types and constants alone"""

    def __init__(self, m, fn):
        self.all, self.open = 0, {}
        consts = self.constants(m, fn)

        def rng(o):
            if o[0] == "K":
                v = o[2].get("v") if isinstance(o[2], dict) else None
                return (v, v) if isinstance(v, int) and not isinstance(v, bool) else width(m, o[1])
            if not o[1][1] and o[1][0] in consts:
                return (consts[o[1][0]],) * 2
            ty = fn.locals[o[1][0]] if not o[1][1] else None
            return width(m, ty) if ty is not None else None
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv, sp = s[2], tuple(s[3])
                dst = width(m, fn.locals[s[1][0]]) if not s[1][1] else None
                if rv[0] == "bin" and rv[1] in FIXED:
                    if dst is None and s[1][1] == []:
                        continue        # floats
                    x, y = rng(rv[2]), rng(rv[3])
                    self.site(sp, rv[1], self.fits(rv[1], x, y, dst))
                elif rv[0] == "un" and rv[1] == "Neg" and (dst or s[1][1]):
                    x = rng(rv[2])
                    self.site(sp, "Neg", bool(x and dst and -x[1] >= dst[0] and -x[0] <= dst[1]))
                elif rv[0] == "cast" and rv[1] == "IntToInt":
                    x, d = rng(rv[2]), width(m, rv[3])
                    self.site(sp, "cast", bool(x and d and x[0] >= d[0] and x[1] <= d[1]))
            t = b["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("def"):
                d = t[1]["def"]
                if WRAPS.match(d) or (ARITH.match(d) and t[1]["krate"] in ("core", "std") and width(m, fn.locals[t[3][0]]) and not t[3][1]):
                    self.site(tuple(b["sp"]), d.rsplit("::", 1)[1], False)

    def constants(self, m, fn):
        n, v = {}, {}
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] == "=":
                    n[s[1][0]] = n.get(s[1][0], 0) + 1
                    if not s[1][1] and s[2][0] == "use" and s[2][1][0] == "K" and isinstance(s[2][1][2], dict) and isinstance(s[2][1][2].get("v"), int):
                        v[s[1][0]] = s[2][1][2]["v"]
                    if s[2][0] in ("ref", "addr"):
                        n[s[2][-1][0]] = 9
            t = b["t"]
            if t[0] == "call":
                l = t[3][0]
                n[l] = n.get(l, 0) + 1
                c = t[1] if isinstance(t[1], dict) else {}
                if c.get("def") == "std::mem::size_of" and not t[3][1] and m.types[c["args"][0]].get("size") is not None:
                    v[l] = m.types[c["args"][0]]["size"]
        return {k: x for k, x in v.items() if n.get(k) == 1 and k > fn.argc}

    def fits(self, op_, x, y, d):
        if x is None or y is None or d is None:
            return False
        if op_.startswith(("Shl", "Shr")):
            bits = (d[1] - d[0]).bit_length()
            return y[0] >= 0 and y[1] < bits and (op_.startswith("Shr") or (x[0] >= 0 and (x[1] << y[1]) <= d[1]))
        f = {"A": lambda a, b: a + b, "S": lambda a, b: a - b, "M": lambda a, b: a * b}[op_[0]]
        c = [f(a, b) for a in x for b in y]
        return min(c) >= d[0] and max(c) <= d[1]

    def site(self, sp, what, ok):
        self.all += 1
        if not ok:
            self.open[(sp, what)] = self.open.get((sp, what), 0) + 1


def pure(m, fn):
    """returns a value and cannot write to anything of its caller's"""
    if "{" in fn.name or not any(m.types[t].get("path", "").endswith("decimal::Decimal") for t in fn.locals[1:1 + fn.argc]):
        return False
    return fn.argc > 0 and all(m.types[t]["k"] in ("int", "uint", "bool", "char") or m.types[t].get("path", "").endswith("decimal::Decimal") for t in fn.locals[1:1 + fn.argc])


def anything(E, st, fr, fn, args, sp, rty):
    return [(st, E.opaque("any", (fn.name,) + tuple(args), rty))]


def cut(m, st, v, a, b):
    """the conversion to fewer bits was made safe by first dropping the high bits of a number that may have some"""
    src, dst = width(m, a), width(m, b)
    if not isinstance(v, Poly) or not src or not dst or src[1] <= dst[1]:
        return False
    for at in subatoms(v, ("fdiv",)):
        if at.args[1].const() == dst[1] + 1 and same_poly(v, at.args[0] - pa(at).scale(dst[1] + 1)):
            return st.decide(c_ge(num(dst[1]) - at.args[0])) is not True
    return False


def same_poly(a, b):
    return not (a - b).m


def visited(E, st, fr, fn, args, sp, rty):
    """analyse the function for its operations, forget what it returns"""
    return anything(E, st, fr, fn, args, sp, rty) if E.run(st.copy(), fn, args) else []


class Run:
    """one function analysed with arbitrary arguments; bad: operations that may lose bits, by place"""

    def __init__(self, rep, m, fn, focus=None, instruction=None):
        self.bad, self.stuck, self.seen = {}, None, set()
        if instruction:
            focus = None
        over = {} if focus is None else {g.name: anything for g in m.fns.values() if g.local and g.blocks is not None and g.id != fn.id and pure(m, g)}
        for i in focus or ():
            if m.fns[i].name in over and i != fn.id:
                over[m.fns[i].name] = visited

        def put(fr, sp, op_, ok, shown):
            k = (fr.fn.id, tuple(sp) if sp else None)
            self.seen.add(k)
            if ok is False:
                self.bad.setdefault(k, "%s of %s" % (op_, shown[:120]))

        def on_arith(E, fr, sp, op_, p, ty, ok, st):
            f = fr.fn
            if f.local or ARITH.match(f.defp):
                put(fr, sp, op_, ok, show(st.norm(p)))

        def on_cast(E, fr, sp, v, a, b, ok, st):
            put(fr, sp, "conversion", ok and not cut(m, st, st.norm(v), a, b), show(st.norm(v)))
        src = m.src(fn.span)
        kw = dict(decnum=False) if "decimal.rs" in src else {}
        try:
            if instruction:
                rules_chain.Run(rep, m, instruction, on_arith=on_arith, on_cast=on_cast)
                return

            def pre(E, st, args):
                for a in args:
                    if isinstance(a, tuple) and len(a) == 4 and a[0] == "r" and isinstance(a[3], Poly):
                        st.assume(c_ge(num(2 ** 63 - 1) - a[3]))        # no slice or text is longer
            E, args, out = run_fn(rep, m, fn, pre=pre, keep=40, on_arith=on_arith, on_cast=on_cast, over=over, text=True, **kw)
            for st, v in out:
                w = vshow(st.norm_val(v))
                for e in st.events():
                    if e[0] == "wrapped" and "wrap" in w:
                        self.bad.setdefault((e[1], e[2]), "%s that wraps" % e[3])
        except Stuck as e:
            self.stuck = str(e)


def call_graph(m):
    callers, called = {}, {}
    for f in m.fns.values():
        if f.blocks is None or not f.local:
            continue
        for b in f.blocks:
            t = b["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("inst") in m.fns:
                callers.setdefault(t[1]["inst"], set()).add(f.id)
    return callers


def above(callers, i, m):
    """functions from which a function can be reached"""
    seen, todo = set(), [i]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += callers.get(x, ())
        p = parent(m, m.fns[x])
        if p:
            todo.append(p.id)
    return seen


def is_root(fn, callers):
    return fn.name.startswith("<") or fn.name in PUBLIC or not callers.get(fn.id)


def parent(m, fn):
    """the function a closure is written in"""
    n = fn.name.rsplit("::{closure", 1)[0]
    r = [g for g in m.fns.values() if g.name == n and g.blocks is not None]
    return r[0] if len(r) == 1 and n != fn.name else None


def in_scope(m, rx):
    for f in m.fns.values():
        if f.local and f.blocks is not None and f.span and SCOPE.search("/" + m.src(f.span).rsplit(":", 1)[0]) and re.search(rx, m.src(f.span)):
            yield f


def sites(rx, shard=0, shards=1):
    """functions of the files matching rx; a shard takes every so many of them"""
    def run(rep, m):
        callers = call_graph(m)
        runs = {}

        def safe(fn, key, depth=0, via=()):
            """None, or what may be lost: the operation at `key` with every context fn is used in"""
            if via:
                k = (fn.id, via)
                if k not in runs:
                    runs[k] = Run(rep, m, fn, {fn.id} | set(via))
                r = runs[k]
                if r.stuck is None and key not in r.bad and key in r.seen:
                    return None
            if fn.id not in runs:
                runs[fn.id] = Run(rep, m, fn)
            r = runs[fn.id]
            if r.stuck is None and key not in r.bad:
                if depth and key not in r.seen:
                    stuck.append("the operation at %s was not met in the analysis of %s" % (m.src(key[1]), short(fn.name)))
                return None
            if SCOPE_IX.search("/" + m.src(fn.span)):
                for i in rules_chain.instructions(m):
                    e = rules_chain.entry(m, i)
                    if e.id not in above(callers, fn.id, m):
                        continue
                    if i not in runs:
                        runs[i] = Run(rep, m, e, instruction=i)
                    q = runs[i]
                    if q.stuck:
                        stuck.append("%s (for the operation at %s): %s" % (i, m.src(key[1]), q.stuck))
                    elif key in q.bad:
                        return q.bad[key] + " in instruction " + i
                    elif key not in q.seen:
                        stuck.append("the operation at %s was not met in the analysis of %s" % (m.src(key[1]), i))
                return None
            par = parent(m, fn)
            up = {par.id} if par else callers.get(fn.id, set()) - {fn.id} - set(via)
            if (is_root(fn, callers) and not par) or depth > 6 or not up:
                if r.stuck is not None and key not in r.bad:
                    stuck.append("%s (for the operation at %s): %s" % (short(fn.name), m.src(key[1]), r.stuck))
                    return None
                return r.bad[key] + " in " + short(fn.name)
            for c in sorted(up):
                w = safe(m.fns[c], key, depth + 1, via + (fn.id,))
                if w:
                    return w
            return None
        stuck = []
        n = 0
        for fn in sorted(in_scope(m, rx), key=lambda f: f.name):
            s = Sites(m, fn)
            n += 1
            if n % shards != shard:
                continue
            w = where_fn(m, fn)
            if s.all - sum(s.open.values()):
                for _ in range(s.all - sum(s.open.values())):
                    rep.check(True, "D05.types", w, "fits by its types")
            for (sp, what), _k in s.open.items():
                bad = safe(fn, (fn.id, sp))
                rep.check(bad is None, "D05.site", "%s %s" % (short(fn.name), m.src(sp)), "an integer operation cannot lose bits silently",
                          key="D05.%s.%s" % (fn.name.rsplit("::", 1)[-1] if "{" not in fn.name else fn.name.rsplit("::", 2)[-2], what), detail="" if bad is None else "%s (%s): %s" % (what, m.src(sp), bad))
        rep.check(n > 0, "D05.scope", rx, "functions were found")
        for s in stuck:
            rep.undecided.append(s[:600])
    return run


RULES = {"D05": [("decimal-%d" % i, sites(r"/decimal\.rs", i, 4)) for i in range(4)] + [("engine", sites(r"/cl_pool/")), ("program", sites(r"/(instructions|state)/"))]}
