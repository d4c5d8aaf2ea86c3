"""Transfer functions for library functions without interesting bodies, and the number-level Decimal API."""
import re
from fractions import Fraction
from terms import *
from state import State, Infeasible, AXIOMS, ABOUNDS, TOP
import engine as EN
from engine import (Stuck, USIZE, p_fdiv, p_mod, p_pow10, p_ipow, bitop, c_ite, d_mul, d_div, p_mant, p_dec, vshow, sgn_canon)

NONE = ("e", 0)


def some(v):
    return ("e", 1, v)


def ok(v):
    return ("e", 0, v)


def err(v):
    return ("e", 1, v)


UNIT = ("s",)
NM = {}
RX = []


def model(*names):
    def d(f):
        for n in names:
            NM[n] = f
        return f
    return d


def rmodel(rx):
    def d(f):
        RX.append((re.compile(rx), f))
        return f
    return d


def register(E):
    E.models.update(NM)
    E.rmodels.extend(RX)
    if E.decnum:
        import decmodels
        decmodels.register(E)
    if E.cfg.get("text"):
        import strmodels
        strmodels.register(E)
    import chain
    chain.register(E)


def self_ty(E, fn):
    """type id of argument/return 0 by signature (models for functions whose MIR may be absent)"""
    return fn


def optty(E, rty):
    """payload type of Option<T>"""
    return E.types[rty]["variants"][1]["fields"][0][1]


# ---------------------------------------------------------------- machine integers
def in_range(s, p):
    return c_and(c_ge(p - num(s[1])), c_ge(num(s[2]) - p))


@rmodel(r"^core::num::<impl [ui](8|16|32|64|128|size)>::checked_(add|sub|mul|div|rem|pow|neg|div_euclid)$")
def m_checked(E, st, fr, fn, args, sp, rty):
    op = fn.defp.split("checked_")[1]
    ty = optty(E, rty)
    s = E.sort(ty)
    a = args[0]
    b = args[1] if len(args) > 1 else None
    out = []
    if op in ("div", "rem", "div_euclid"):
        nz, z = st.split(c_ne(b))
        if z is not None:
            out.append((z, NONE))
        if nz is not None:
            a, b = nz.norm(a), nz.norm(b)
            if s[1] == 0 or (nz.ge0(a) and nz.ge0(b)):
                q = p_fdiv(a, b)
            else:
                q = E.tdiv(nz, a, b)
                good, bad = nz.split(in_range(s, q))
                if bad is not None:
                    out.append((bad, NONE))
                nz = good
            if nz is not None:
                out.append((nz, some(q if op != "rem" else a - q * b)))
        return out
    p = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "pow": lambda: p_ipow(a, b), "neg": lambda: -a}[op]()
    good, bad = st.split(in_range(s, p))
    if good is not None:
        out.append((good, some(good.norm(p))))
    if bad is not None:
        out.append((bad, NONE))
    return out


@rmodel(r"^core::num::<impl [ui](8|16|32|64|128|size)>::(wrapping|saturating|overflowing)_(add|sub|mul|pow|neg|shl|shr|div|rem)$")
def m_wrapping(E, st, fr, fn, args, sp, rty):
    kind, op = fn.defp.rsplit("::", 1)[1].split("_")
    ty = rty if kind != "overflowing" else E.types[rty]["elems"][0]
    s = E.sort(ty)
    a = args[0]
    b = args[1] if len(args) > 1 else None
    if op in ("shl", "shr", "div", "rem"):
        return NotImplemented
    p = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "pow": lambda: p_ipow(a, b), "neg": lambda: -a}[op]()
    good, bad = st.split(in_range(s, p))
    out = []
    if good is not None:
        v = good.norm(p)
        out.append((good, v if kind != "overflowing" else ("s", v, False)))
    if bad is not None:
        if E.on_arith and kind != "overflowing":
            E.on_arith(E, fr, sp, kind + " " + op, p, ty, kind == "saturating", bad)
        if kind == "saturating":
            lo, hi = bad.split(c_gt(num(s[1]) - p))
            if lo is not None:
                out.append((lo, num(s[1])))
            if hi is not None:
                out.append((hi, num(s[2])))
        else:
            w = pa(app("wrap", bad.norm(p), sort=s))
            out.append((bad, w if kind != "overflowing" else ("s", w, True)))
    return out


@rmodel(r"^core::num::<impl [ui](8|16|32|64|128|size)>::pow$")
def m_pow(E, st, fr, fn, args, sp, rty):
    s = E.sort(rty)
    p = p_ipow(args[0], args[1])
    good, bad = st.split(in_range(s, p))
    out = []
    if good is not None:
        out.append((good, good.norm(p)))
    if bad is not None:
        if E.on_arith:
            E.on_arith(E, fr, sp, "pow", p, rty, False, bad)
        out.append((bad, pa(app("wrap", bad.norm(p), sort=s))))
    return out


@rmodel(r"^core::num::<impl u(8|16|32|64|128|size)>::(leading_zeros|trailing_zeros|count_ones)$")
def m_lz(E, st, fr, fn, args, sp, rty):
    op = fn.defp.rsplit("::", 1)[1]
    bits = int(re.search(r"<impl u(\w+)>", fn.defp).group(1).replace("size", "64"))
    k = args[0].const()
    if k is not None:
        r = {"leading_zeros": bits - k.bit_length(), "trailing_zeros": bits if k == 0 else (k & -k).bit_length() - 1, "count_ones": bin(k).count("1")}[op]
        return num(r)
    if E.bits and op != "count_ones":
        import bytebits as B
        bs = B.bits_of(args[0], bits)
        if bs is not None:
            return B.first_set(bs, st, bits, op == "trailing_zeros")
    return pa(app(op, args[0], num(bits), sort=("i", 0, bits)))


@rmodel(r"^core::num::<impl i(8|16|32|64|128|size)>::(abs|is_positive|is_negative|signum)$")
def m_iabs(E, st, fr, fn, args, sp, rty):
    op = fn.defp.rsplit("::", 1)[1]
    a = args[0]
    if op == "is_positive":
        return c_gt(a)
    if op == "is_negative":
        return c_gt(-a)
    p, n = st.split(c_ge(a))
    out = []
    if op == "abs":
        if p is not None:
            out.append((p, a))
        if n is not None:
            out.append((n, E.fit(n, fr, -a, rty, "abs", sp)))
        return out
    return NotImplemented


@rmodel(r"^core::num::<impl u(8|16|32|64|128|size)>::(abs_diff)$")
def m_absdiff(E, st, fr, fn, args, sp, rty):
    p, n = st.split(c_ge(args[0] - args[1]))
    out = []
    if p is not None:
        out.append((p, args[0] - args[1]))
    if n is not None:
        out.append((n, args[1] - args[0]))
    return out


@rmodel(r"^core::num::<impl [ui](8|16|32|64|128|size)>::(to|from)_(le|ne|be)_bytes$")
def m_bytes(E, st, fr, fn, args, sp, rty):
    d, e = re.search(r"(to|from)_(\w\w)_bytes", fn.defp).groups()
    e = "be" if e == "be" else "le"
    bits = int(re.search(r"<impl [ui](\w+)>", fn.defp).group(1).replace("size", "64"))
    if d == "to":
        k = args[0].const()
        if k is not None and k >= 0:
            return app("const", ("bytes", tuple(k.to_bytes(bits // 8, "little" if e == "le" else "big"))), sort=("o", rty))
        return app("bytes_" + e, args[0], sort=("o", rty))
    a = args[0]
    if isinstance(a, Atom) and a.op == "bytes_" + e:
        return a.args[0]
    return E.opaque("frombytes_" + e, (a,), rty)


@rmodel(r"^core::f64::<impl f64>::(abs|is_sign_negative|is_sign_positive|is_nan|max|min|floor|ceil|round|trunc|sqrt|powi|powf|ln|log|log10|log2|exp|signum)$|^std::f64::<impl f64>::(abs|max|min|floor|ceil|round|trunc|sqrt|powi|powf|ln|log|log10|log2|exp|signum)$")
def m_f64(E, st, fr, fn, args, sp, rty):
    op = fn.defp.rsplit("::", 1)[1]
    if op == "is_sign_negative":
        return c_gt(-args[0])
    if op == "is_nan":
        return False
    if op == "abs":
        p, n = st.split(c_ge(args[0]))
        out = []
        if p is not None:
            out.append((p, args[0]))
        if n is not None:
            out.append((n, -args[0]))
        return out
    if op in ("min", "max"):
        return m_minmax(E, st, args[0], args[1], op)
    import decmodels
    a = args[0]
    if op in ("floor", "ceil", "round", "trunc"):
        if a.is_int():
            return a
        if len(a.m) == 1:
            (mono, k), = a.m.items()
            if k == 1 and len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]].op == "ddiv" and op in ("floor", "ceil"):
                n, d = ATOMS[mono[0][0]].args[:2]
                if n.is_int() and d.is_int() and st.ge0(n) and st.ge0(d - ONE):
                    # correctly rounded quotient of two 32-bit integers has the same floor as the exact one
                    return p_fdiv(n + d - ONE if op == "ceil" else n, d)
        return pa(app("f_" + op, a, sort=REAL))
    if op in ("powf", "powi"):
        return decmodels.p_pow(E, a, args[1], num(-1))
    if op == "sqrt":
        return decmodels.p_sqrt(a, num(-1))
    if op == "ln":
        return decmodels.p_ln(E, a, num(-1))
    if op == "log":
        return E.rdiv(st, decmodels.p_ln(E, a, num(-1)), decmodels.p_ln(E, args[1], num(-1)), None)
    return E.opaque("f_" + op, tuple(args), rty)


def _round_b(st, a, depth):
    b = st.quick(a.args[0])
    return (0, False, None, False) if b[0] is not None and b[0] >= 0 else (None, False, None, False)


for _o in ("floor", "ceil", "round", "trunc"):
    ABOUNDS["f_" + _o] = _round_b


def m_minmax(E, st, a, b, op):
    p, n = st.split(c_ge(a - b))
    out = []
    if p is not None:
        out.append((p, a if op == "max" else b))
    if n is not None:
        out.append((n, b if op == "max" else a))
    return out


@rmodel(r"<impl std::cmp::Ord for [ui]\w+>::(min|max)$|^std::cmp::(min|max)$|^std::cmp::Ord::(min|max)$")
def m_ordminmax(E, st, fr, fn, args, sp, rty):
    if not isinstance(args[0], Poly):
        return NotImplemented
    return m_minmax(E, st, args[0], args[1], fn.defp.rsplit("::", 1)[1])


@rmodel(r"<impl std::cmp::(PartialOrd|PartialEq|Ord) for [ui]\w+>::(lt|gt|le|ge|eq|ne)$")
def m_cmpref(E, st, fr, fn, args, sp, rty):
    a, b = (E.read(st, x[1], x[2]) if isinstance(x, tuple) and x[0] == "r" else x for x in args[:2])
    return c_cmp(fn.defp.rsplit("::", 1)[1], a, b)


@rmodel(r"<impl std::cmp::Ord for [ui]\w+>::cmp$|<impl std::cmp::PartialOrd for [ui]\w+>::partial_cmp$")
def m_cmp(E, st, fr, fn, args, sp, rty):
    a, b = (E.read(st, x[1], x[2]) for x in args[:2])
    out = []
    lt, ge = st.split(c_gt(b - a))
    w = some if "partial" in fn.defp else (lambda v: v)
    if lt is not None:
        out.append((lt, w(("e", 0))))
    if ge is not None:
        eq, gt = ge.split(c_eq(ge.norm(a) - ge.norm(b)))
        if eq is not None:
            out.append((eq, w(("e", 1))))
        if gt is not None:
            out.append((gt, w(("e", 2))))
    return out


def deref(E, st, v, n=9):
    """value behind (nested) references"""
    while n and isinstance(v, tuple) and v and v[0] == "r":
        if v[2] and v[2][-1][0] == "sub":
            break
        v = E.read(st, v[1], v[2])
        n -= 1
    return v


@model("std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq", "std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::ne")
def m_refeq(E, st, fr, fn, args, sp, rty):
    a, b = deref(E, st, args[0]), deref(E, st, args[1])
    if isinstance(a, tuple) or isinstance(b, tuple):
        return NotImplemented
    e = E.compare(st, "Eq", a, b)
    return e if fn.defp.endswith("eq") else c_not(e)


# ---------------------------------------------------------------- text, formatting, printing: no effect on state
@rmodel(r"^core::fmt::rt::Argument|^std::fmt::Arguments|^core::fmt::rt::|^std::io::_print$|^std::io::_eprint$|^std::fmt::format|sol_log|^solana_program::log::|^std::fmt::Formatter|^alloc::fmt::format|::fmt$")
def m_fmt(E, st, fr, fn, args, sp, rty):
    k = E.types[rty]
    if k["k"] == "tuple" and not k["elems"]:
        return UNIT
    return E.opaque("fmt", (fn.defp.split("::")[-1],) + tuple(a for a in args if isinstance(a, (Atom, Poly)))[:2], rty)


@rmodel(r"^<T as std::string::ToString>::to_string$|^<std::string::String as std::convert::From<&str>>::from$|^std::string::String::as_str$|^<std::string::String as std::ops::Deref>::deref$|impl std::borrow::ToOwned for str>::to_owned$|^<std::string::String as std::clone::Clone>::clone$|^<std::string::String as std::convert::AsRef|^std::string::String::as_bytes$|^core::str::<impl str>::as_bytes$")
def m_string(E, st, fr, fn, args, sp, rty):
    v = deref(E, st, args[0])
    if not isinstance(v, Atom):
        if "ToString" in fn.defp:
            return E.opaque("to_string", (v,), rty)
        raise Stuck("string of " + vshow(v)[:60])
    if E.types[rty]["k"] == "ref":
        if args[0][0] == "r":
            # content cell of the string itself
            a = args[0]
            while True:
                w = E.read(st, a[1], a[2])
                if isinstance(w, tuple) and w[0] == "r":
                    a = w
                else:
                    break
            return ("r", a[1], a[2], pa(app("len", v, sort=USIZE)) if v.op != "const" else num(len(v.args[0][1])))
    return v


# ---------------------------------------------------------------- clone / drop / mem
@rmodel(r"^std::mem::(drop|forget)$|^core::ptr::drop_in_place|^std::ptr::drop_in_place")
def m_drop(E, st, fr, fn, args, sp, rty):
    return UNIT


@rmodel(r"^std::mem::(replace|swap|take)$")
def m_replace(E, st, fr, fn, args, sp, rty):
    op = fn.defp.rsplit("::", 1)[1]
    if op == "replace":
        v = E.read(st, args[0][1], args[0][2])
        E.write(st, args[0][1], args[0][2], args[1])
        return v
    if op == "swap":
        v = E.read(st, args[0][1], args[0][2])
        w = E.read(st, args[1][1], args[1][2])
        E.write(st, args[0][1], args[0][2], w)
        E.write(st, args[1][1], args[1][2], v)
        return UNIT
    return NotImplemented


# ---------------------------------------------------------------- ordered / hash maps
def mapbase(E, st, ref):
    v = ref
    while isinstance(v, tuple) and v[0] == "r":
        ref = v
        v = E.read(st, v[1], v[2])
    if not (isinstance(v, tuple) and v[0] == "m"):
        raise Stuck("map expected, got " + vshow(v)[:80])
    return ref, v


def keyof(E, st, k):
    return deref(E, st, k)


def keyeq(E, a, b):
    if isinstance(a, Poly):
        return c_eq(a - b)
    if isinstance(a, Atom) and isinstance(b, Atom):
        return c_eqo(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return E.value_eq(State(), a, b)
    raise Stuck("map key " + vshow(a)[:60])


def map_cases(E, st, mref, key):
    """split the state until `key` is known equal or different to every key touched so far -> [(st, key)]"""
    work = [(st, key)]
    out = []
    while work:
        s, k = work.pop()
        k = s.norm_val(k)
        _, m = mapbase(E, s, mref)
        known = [c[2] for c in s.env if c[0] == "M" and c[1] is m[1]] + [e[0] for e in m[2]]
        for o in known:
            if o is k or o == k:
                continue
            c = keyeq(E, o, k)
            d = s.decide(c)
            if d is None:
                a, b = s.split(c)
                if a is not None:
                    work.append((a, k))
                if b is not None:
                    work.append((b, k))
                break
        else:
            out.append((s, k))
    return out[::-1]


def map_present(E, st, m, k):
    for key, pres in reversed(m[2]):
        if key is k or key == k or st.decide(keyeq(E, key, k)) is True:
            return pres
    b = m[1]
    while b.op == "mapv":
        b = b.args[1]
    if b.op == "mapnew":
        return False
    return st.norm(c_atom(app("has", b, k, sort=BOOL)))


def map_valty(E, fn_or_rty, st=None):
    return None


def mapcell(E, st, m, k, vty):
    c = ("M", m[1], k)
    if c not in st.env:
        st.env[c] = E.opaque("mapval", (m[1], k), vty)
    return c


MAPS = r"std::collections::(BTreeMap|HashMap|btree_map::BTreeMap|hash_map::HashMap)::<.*>::"


@rmodel("^" + MAPS + "new$|^<std::collections::(BTreeMap|HashMap).*as std::default::Default>::default$|^" + MAPS + "with_capacity$")
def m_mapnew(E, st, fr, fn, args, sp, rty):
    return ("m", app("mapnew", E.newid(), sort=("o", rty)), ())


@rmodel("^" + MAPS + "(get|get_mut|contains_key)$|^<std::collections::(BTreeMap|HashMap)<.*> as std::ops::Index<.*>>::index$")
def m_mapget(E, st, fr, fn, args, sp, rty):
    op = fn.defp.rsplit("::", 1)[1]
    key = keyof(E, st, args[1])
    out = []
    for s, k in map_cases(E, st, args[0], key):
        ref, m = mapbase(E, s, args[0])
        pres = map_present(E, s, m, k)
        if op == "contains_key":
            out.append((s, pres))
            continue
        yes, no = s.split(pres)
        if yes is not None:
            _, m2 = mapbase(E, yes, args[0])
            k2 = yes.norm_val(k)
            vty = E.types[rty]["to"] if op == "index" else E.types[optty(E, rty)]["to"]
            p = ("r", mapcell(E, yes, m2, k2, vty), (), None)
            out.append((yes, p if op == "index" else some(p)))
        if no is not None:
            if op == "index":
                if E.on_panic:
                    E.on_panic(E, fr, sp, "map index", no)
            else:
                out.append((no, NONE))
    return out


@rmodel("^" + MAPS + "(insert|remove)$")
def m_mapins(E, st, fr, fn, args, sp, rty):
    op = fn.defp.rsplit("::", 1)[1]
    key = keyof(E, st, args[1])
    vty = optty(E, rty)
    out = []
    for s, k in map_cases(E, st, args[0], key):
        ref, m = mapbase(E, s, args[0])
        pres = map_present(E, s, m, k)
        for s2, was in zip(s.split(pres), (True, False)):
            if s2 is None:
                continue
            ref, m2 = mapbase(E, s2, args[0])
            k2 = s2.norm_val(k)
            old = NONE
            if was:
                old = some(E.cell_get(s2, mapcell(E, s2, m2, k2, vty)))
            val = None
            if op == "insert":
                val = s2.norm_val(args[2])
                s2.env[("M", m2[1], k2)] = val
            else:
                s2.env.pop(("M", m2[1], k2), None)
            es = tuple(e for e in m2[2] if e[0] != k2) + ((k2, op == "insert"),)
            E.write(s2, ref[1], ref[2], ("m", m2[1], es))
            s2.event("map" + op, m2[1], k2, val)
            out.append((s2, old))
    return out


@rmodel("^" + MAPS + "len$")
def m_maplen(E, st, fr, fn, args, sp, rty):
    _, m = mapbase(E, st, args[0])
    return pa(app("maplen", m[1], m[2], sort=USIZE))


@rmodel("^" + MAPS + "is_empty$")
def m_mapempty(E, st, fr, fn, args, sp, rty):
    _, m = mapbase(E, st, args[0])
    return c_eq(pa(app("maplen", m[1], m[2], sort=USIZE)))


# map iterators: ("it", form, map snapshot, direction, last key, lo, hi, key type, value type, stages)
# form: item per key ("k", "&k", "v", "&v", "&kv"); lo/hi: exclusive bounds or None; stages: filters and maps applied to items
IT = "it"


def _isit(v):
    return isinstance(v, tuple) and v and v[0] == IT


def _kv(E, fn):
    ts = [a for a in fn.args if isinstance(a, int)]
    m = [a for a in ts if E.is_map(a)]
    if m:
        ts = [a for a in E.types[m[0]].get("args", ()) if isinstance(a, int)]
    return (ts + [None, None])[:2]


@rmodel("^" + MAPS + "(keys|iter|values|into_keys|into_iter)$|^<&'a std::collections::(BTreeMap|HashMap).*IntoIterator>::into_iter$")
def m_keys(E, st, fr, fn, args, sp, rty):
    ref, m = mapbase(E, st, args[0])
    op = fn.defp.rsplit("::", 1)[1]
    form = {"keys": "&k", "into_keys": "k", "values": "&v"}.get(op, "&kv")
    return (IT, form, m, 1 if "BTree" in fn.defp else 0, None, None, None) + tuple(_kv(E, fn)) + ((),)


def _bound(E, st, b, side):
    """std::ops::Bound value -> exclusive integer bound or None"""
    if not (isinstance(b, tuple) and b[0] == "e"):
        raise Stuck("bound " + vshow(b)[:60])
    if b[1] == 2:
        return None
    x = deref(E, st, b[2])
    return x if b[1] == 1 else x + num(side)


@rmodel("^std::collections::BTreeMap::<.*>::range$")
def m_maprange(E, st, fr, fn, args, sp, rty):
    ref, m = mapbase(E, st, args[0])
    r = args[1]
    ty = E.types[[a for a in fn.args if isinstance(a, int)][-1]]["name"]
    lo = hi = None

    def fld(i):
        x = deref(E, st, r[1 + i])
        if not isinstance(x, Poly):
            raise Stuck("range bound")
        return x
    if ty.startswith("std::ops::RangeFull"):
        pass
    elif ty.startswith("std::ops::RangeFrom"):
        lo = fld(0) - num(1)
    elif ty.startswith("std::ops::RangeToInclusive"):
        hi = fld(0) + num(1)
    elif ty.startswith("std::ops::RangeTo<"):
        hi = fld(0)
    elif ty.startswith("std::ops::RangeInclusive"):
        lo, hi = fld(0) - num(1), fld(1) + num(1)
    elif ty.startswith("std::ops::Range<"):
        lo, hi = fld(0) - num(1), fld(1)
    elif ty.startswith("(std::ops::Bound"):
        lo, hi = _bound(E, st, r[1], -1), _bound(E, st, r[2], 1)
    else:
        raise Stuck("range " + ty)
    return (IT, "&kv", m, 1, None, lo, hi) + tuple(_kv(E, fn)) + ((),)


@rmodel("^std::collections::BTreeMap::<.*>::(first|last)_key_value$")
def m_mapends(E, st, fr, fn, args, sp, rty):
    ref, m = mapbase(E, st, args[0])
    it = (IT, "&kv", m, 1 if "first_" in fn.defp else -1, None, None, None) + tuple(_kv(E, fn)) + ((),)
    return [(s, NONE if k is None else some(item)) for s, k, item in advance(E, st, fr, sp, it)]


def _itref(E, st, v):
    """(cell ref, iterator) behind any number of references"""
    a = None
    while isinstance(v, tuple) and v and v[0] == "r":
        if v[2] and v[2][-1][0] == "sub":
            return None, None
        a = v
        v = E.read(st, a[1], a[2])
    return (a, v) if _isit(v) else (None, None)


ITER = r"(^std::iter::Iterator|as std::iter::Iterator>|as std::iter::DoubleEndedIterator>|^std::iter::DoubleEndedIterator|^core::iter::traits::iterator::Iterator)::"


@rmodel(ITER + "(rev|cloned|copied|by_ref)$|as std::iter::IntoIterator>::into_iter$|^std::vec::Vec.*::(iter|as_slice)$|^core::slice::<impl .T.>::iter$|^<std::vec::Vec<.*> as std::ops::Deref>::deref$")
def m_itadapt(E, st, fr, fn, args, sp, rty):
    v = args[0]
    op = fn.defp.rsplit("::", 1)[1]
    isref = isinstance(v, tuple) and v and v[0] == "r"
    a, w = _itref(E, st, v) if isref else (None, v)
    if not _isit(w):
        return NotImplemented
    if op in ("by_ref", "deref", "as_slice"):
        return v
    if op == "rev":
        return w[:3] + (-w[3],) + w[4:]
    if op in ("cloned", "copied"):
        if w[9] or w[1] not in ("&k", "&v"):
            return w[:9] + (w[9] + (("deref", None),),)
        return w[:1] + (w[1][1:],) + w[2:]
    if isref and op in ("iter", "into_iter"):
        if op == "into_iter" and "&" not in fn.name.split(" as ")[0] and "slice" not in fn.name:
            return w
        return w[:9] + (w[9] + (("ref", None),),) if w[9] or w[1] != "k" else w[:1] + ("&k",) + w[2:]
    return w


@rmodel(ITER + "(filter|map|skip_while)$")
def m_itstage(E, st, fr, fn, args, sp, rty):
    if not _isit(args[0]):
        return NotImplemented
    op = fn.defp.rsplit("::", 1)[1]
    if op == "skip_while":
        return NotImplemented
    cty = [a for a in fn.args if isinstance(a, int) and E.types[a]["k"] == "closure"]
    if not cty:
        return NotImplemented
    return args[0][:9] + (args[0][9] + ((op, args[1], cty[-1]),),)


@rmodel(r"^std::iter::Iterator::collect$|^<std::vec::Vec<.*> as std::iter::FromIterator<.*>>::from_iter$")
def m_collect(E, st, fr, fn, args, sp, rty):
    if _isit(args[0]):
        return args[0]
    return NotImplemented


def boxed(E, st, v):
    cell = ("H", E.newid())
    st.env[cell] = v
    return ("r", cell, (), None)


def callclo(E, st, fr, sp, clo, cty, arg):
    """call a pure closure -> [(st, value)]"""
    fn = E.mir.fns[E.types[cty]["fn"]]
    before = {c: st.env[c] for c in st.env if c[0] not in ("H",)}
    out = []
    for s, v in E.invoke(st, fr, fn, None, [clo, ("s", arg)], sp, fn.locals[0]):
        for c, x in before.items():
            if c in s.env and s.env[c] != x and s.norm_val(s.env[c]) != s.norm_val(x):
                raise Stuck("iterator closure with side effects")
        out.append((s, v))
    return out


def key_item(E, st, it, k):
    form, m = it[1], it[2]
    if form == "k":
        return k
    if form == "&k":
        return boxed(E, st, k)
    if m[2]:
        raise Stuck("iteration over an edited map's values")
    c = ("r", mapcell(E, st, m, k, it[8]), (), None)
    if form == "&v":
        return c
    if form == "v":
        return E.cell_get(st, c[1])
    return ("s", boxed(E, st, k), c)


def staged(E, st, fr, sp, it, k, pred):
    """-> [(st, item or None)] : None when a filter rejects the key"""
    out = []
    work = [(st, key_item(E, st, it, k), 0)]
    stages = it[9] + ((pred,) if pred else ())
    while work:
        s, item, i = work.pop()
        if i == len(stages):
            out.append((s, item))
            continue
        g = stages[i]
        if g[0] == "deref":
            work.append((s, deref(E, s, item), i + 1))
        elif g[0] == "ref":
            work.append((s, boxed(E, s, item), i + 1))
        elif g[0] == "map":
            for s2, v in callclo(E, s, fr, sp, g[1], g[2], item):
                work.append((s2, v, i + 1))
        else:
            arg = boxed(E, s, item) if g[0] == "filter" else item
            for s2, v in callclo(E, s, fr, sp, g[1], g[2], arg):
                c = v
                yes, no = s2.split(c)
                if yes is not None:
                    work.append((yes, item, i + 1))
                if no is not None:
                    out.append((no, None))
    return out


def it_filters(it, pred=None):
    return pred is not None or any(g[0] == "filter" for g in it[9])


def fresh_key(E, st, it, prev, d):
    """a key of the map beyond prev in direction d, inside the bounds; Infeasible when impossible"""
    m, kty = it[2], it[7]
    ks = E.sort(kty)
    k = pa(fresh("key", ks)) if ks[0] == "i" else fresh("key", ks)
    if not m[2]:
        b = m[1]
        while b.op == "mapv":
            b = b.args[1]
        if b.op == "mapnew":
            raise Infeasible()
        st.assume(c_atom(app("has", b, k, sort=BOOL)), True)
    if isinstance(k, Poly):
        if prev is not None and d:
            st.assume(c_gt((k - prev).scale(d)))
        for x, g in ((it[5], 1), (it[6], -1)):
            if x is not None:
                st.assume(c_gt((k - x).scale(g)))
    return k


def advance(E, st, fr, sp, it, d=None, pred=None):
    """next item in direction d passing the filters -> [(st, key or None, item)]; events say what was passed over"""
    d = it[3] if d is None else d
    m = it[2]
    prev, far = it[4], None
    near, farb = (it[5], it[6]) if d >= 0 else (it[6], it[5])
    if prev is None:
        prev = near
    out = []
    flt = it_filters(it, pred)
    for skip in ((False, True) if flt else (False,)):
        s0 = st.copy()
        try:
            pv = prev
            todo = [s0]
            if skip:
                p = fresh_key(E, s0, it, prev, d)
                todo = [s for s, x in staged(E, s0, fr, sp, it, p, pred) if x is None]
                pv = p
        except Infeasible:
            continue
        for s in todo:
            end = s.copy()
            end.event("iterend", m, d, pv, farb)
            out.append((end, None, None))
            try:
                k = fresh_key(E, s, it, pv, d)
                for s2, x in staged(E, s, fr, sp, it, k, pred):
                    if x is not None:
                        s2.event("iter", m, d, pv, k)
                        out.append((s2, k, x))
            except Infeasible:
                pass
    return out


@rmodel(ITER + "(next|next_back)$")
def m_next(E, st, fr, fn, args, sp, rty):
    a, v = _itref(E, st, args[0])
    if a is None:
        return NotImplemented
    back = fn.defp.endswith("next_back")
    if back and v[4] is not None:
        return NotImplemented
    if v[7] is None:
        raise Stuck("iterator key type")
    out = []
    for s, k, item in advance(E, st, fr, sp, v, -v[3] if back else v[3]):
        if k is None:
            out.append((s, NONE))
            continue
        if back:
            i = 6 if v[3] >= 0 else 5
            E.write(s, a[1], a[2], v[:i] + (k,) + v[i + 1:])
        else:
            E.write(s, a[1], a[2], v[:4] + (k,) + v[5:])
        out.append((s, some(item)))
    return out


@rmodel(ITER + "(find|any|all|find_map)$")
def m_find(E, st, fr, fn, args, sp, rty):
    a, v = _itref(E, st, args[0]) if isinstance(args[0], tuple) and args[0][0] == "r" else (None, args[0])
    if not _isit(v):
        return NotImplemented
    op = fn.defp.rsplit("::", 1)[1]
    cty = [t for t in fn.args if isinstance(t, int) and E.types[t]["k"] == "closure"]
    if op in ("all", "find_map") or not cty:
        return NotImplemented
    pred = ("filter" if op == "find" else "test", args[1], cty[-1])
    out = []
    for s, k, item in advance(E, st, fr, sp, v, v[3], pred):
        if a is not None and k is not None:
            E.write(s, a[1], a[2], v[:4] + (k,) + v[5:])
        if op == "any":
            out.append((s, k is not None))
        else:
            out.append((s, NONE if k is None else some(item)))
    return out


@rmodel(ITER + "(max|min|last)$")
def m_extreme(E, st, fr, fn, args, sp, rty):
    v = args[0]
    if not _isit(v) or not v[3] or any(g[0] == "map" for g in v[9]) or v[4] is not None or v[1] in ("v", "&v"):
        return NotImplemented
    op = fn.defp.rsplit("::", 1)[1]
    d = {"max": -1, "min": 1, "last": -v[3]}[op]
    return [(s, NONE if k is None else some(item)) for s, k, item in advance(E, st, fr, sp, v, d)]


# ---------------------------------------------------------------- ranges and slices
@rmodel(r"^std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$")
def m_rangenext(E, st, fr, fn, args, sp, rty):
    a = args[0]
    v = E.read(st, a[1], a[2])
    if not (isinstance(v, tuple) and v[0] == "s" and isinstance(v[1], Poly)):
        return NotImplemented
    out = []
    yes, no = st.split(c_gt(v[2] - v[1]))
    if yes is not None:
        v1 = E.read(yes, a[1], a[2])
        E.write(yes, a[1], a[2], ("s", v1[1] + ONE, v1[2]))
        out.append((yes, some(v1[1])))
    if no is not None:
        out.append((no, NONE))
    return out


@rmodel(r"DoubleEndedIterator for std::ops::Range<A>>::next_back$")
def m_rangeback(E, st, fr, fn, args, sp, rty):
    a = args[0]
    v = E.read(st, a[1], a[2])
    if not (isinstance(v, tuple) and v[0] == "s" and isinstance(v[1], Poly)):
        return NotImplemented
    out = []
    yes, no = st.split(c_gt(v[2] - v[1]))
    if yes is not None:
        v1 = E.read(yes, a[1], a[2])
        E.write(yes, a[1], a[2], ("s", v1[1], v1[2] - ONE))
        out.append((yes, some(v1[2] - ONE)))
    if no is not None:
        out.append((no, NONE))
    return out


@rmodel(r"^core::slice::<impl \[T\]>::(len|is_empty)$")
def m_slen(E, st, fr, fn, args, sp, rty):
    a = args[0]
    n = a[3]
    if n is None:
        n = E.alen(st, E.read(st, a[1], a[2]))
    return n if fn.defp.endswith("len") else c_eq(n)


@rmodel(r"^core::slice::<impl \[T\]>::get(_mut)?$")
def m_sget(E, st, fr, fn, args, sp, rty):
    a, i = args
    if not (isinstance(a, tuple) and a and a[0] == "r" and isinstance(i, Poly)):
        return NotImplemented
    n = a[3] if a[3] is not None else E.alen(st, E.read(st, a[1], a[2]))
    inside, outside = st.split(c_gt(n - i))
    out = []
    if inside is not None:
        out.append((inside, some(("r", a[1], E.addix(a[2], i), None))))
    if outside is not None:
        out.append((outside, NONE))
    return out


@rmodel(r"^core::slice::<impl \[T\]>::iter$|^<&'a \[T\] as std::iter::IntoIterator>::into_iter$|IntoIterator for &'a \[T; N\]>::into_iter$|IntoIterator for &'a \[T\]>::into_iter$")
def m_sliter(E, st, fr, fn, args, sp, rty):
    a = args[0]
    if not (isinstance(a, tuple) and a and a[0] == "r"):
        return NotImplemented
    n = a[3] if a[3] is not None else E.alen(st, E.read(st, a[1], a[2]))
    return ("si", a, ZERO, n)


@rmodel(r"^<std::slice::Iter<'a, T> as std::iter::(Double)?(Ended)?Iterator>::next_back$|DoubleEndedIterator for std::slice::Iter<'a, T>>::next_back$")
def m_slback(E, st, fr, fn, args, sp, rty):
    a = args[0]
    v = E.read(st, a[1], a[2])
    if not (isinstance(v, tuple) and v[0] == "si"):
        return NotImplemented
    out = []
    yes, no = st.split(c_gt(v[3] - v[2]))
    if yes is not None:
        v = E.read(yes, a[1], a[2])
        E.write(yes, a[1], a[2], ("si", v[1], v[2], v[3] - ONE))
        out.append((yes, some(("r", v[1][1], E.addix(v[1][2], v[3] - ONE), None))))
    if no is not None:
        out.append((no, NONE))
    return out


@rmodel(r"^<std::slice::Iter<'a, T> as std::iter::Iterator>::next$|Iterator for std::slice::Iter<'a, T>>::next$")
def m_slnext(E, st, fr, fn, args, sp, rty):
    a = args[0]
    v = E.read(st, a[1], a[2])
    if not (isinstance(v, tuple) and v[0] == "si"):
        return NotImplemented
    out = []
    yes, no = st.split(c_gt(v[3] - v[2]))
    if yes is not None:
        v = E.read(yes, a[1], a[2])
        E.write(yes, a[1], a[2], ("si", v[1], v[2] + ONE, v[3]))
        out.append((yes, some(("r", v[1][1], E.addix(v[1][2], v[2]), None))))
    if no is not None:
        out.append((no, NONE))
    return out


@rmodel(r"^(std|core)::array::(iter::)?<impl (std|core)::iter::IntoIterator for \[T; N\]>::into_iter$")
def m_arriter(E, st, fr, fn, args, sp, rty):
    a = args[0]
    if isinstance(a, tuple) and a and a[0] in ("s", "A", "R") or isinstance(a, Atom):
        return ("ai", a, ZERO, E.alen(st, a))
    return NotImplemented


@rmodel(r"^<(std|core)::array::IntoIter<T, N> as (std|core)::iter::(DoubleEnded)?Iterator>::next(_back)?$")
def m_arrnext(E, st, fr, fn, args, sp, rty):
    a = args[0]
    v = E.read(st, a[1], a[2])
    if not (isinstance(v, tuple) and v[0] == "ai"):
        return NotImplemented
    back = fn.defp.endswith("_back")
    out = []
    yes, no = st.split(c_gt(v[3] - v[2]))
    if yes is not None:
        v = E.read(yes, a[1], a[2])
        lo, hi = (v[2], v[3] - ONE) if back else (v[2] + ONE, v[3])
        E.write(yes, a[1], a[2], ("ai", v[1], lo, hi))
        out.append((yes, some(E.aread(yes, v[1], hi if back else v[2]))))
    if no is not None:
        out.append((no, NONE))
    return out


@rmodel(r"^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$|^std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$|^core::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$")
def m_slindex(E, st, fr, fn, args, sp, rty):
    a, i = args
    n = a[3] if a[3] is not None else E.alen(st, E.read(st, a[1], a[2]))
    to = E.types[rty]["to"] if E.types[rty]["k"] == "ref" else None
    if isinstance(i, Poly):
        good, bad = st.split(c_gt(n - i))
        if bad is not None and E.on_panic:
            E.on_panic(E, fr, sp, "index", bad)
        return [(good, ("r", a[1], E.addix(a[2], i), None))] if good is not None else []
    nm = E.types[fn.args[1]]["path"] if fn.args and len(fn.args) > 1 and isinstance(fn.args[1], int) else ""
    lo, hi = ZERO, n
    if "RangeFull" in fn.name or i == ("s",):
        pass
    elif "RangeTo<" in fn.name:
        hi = i[1]
    elif "RangeFrom<" in fn.name:
        lo = i[1]
    elif "Range<" in fn.name:
        lo, hi = i[1], i[2]
    else:
        raise Stuck("slice range " + fn.name[:80])
    good, bad = st.split(c_and(c_ge(hi - lo), c_ge(n - hi)))
    if bad is not None and E.on_panic:
        E.on_panic(E, fr, sp, "slice", bad)
    if good is None:
        return []
    proj = a[2]
    return [(good, ("r", a[1], proj if lo is ZERO else proj + (("sub", lo),), hi - lo))]


@rmodel(r"^std::option::Option::<T>::(is_some|is_none)$|^std::result::Result::<T, E>::(is_ok|is_err)$")
def m_isvar(E, st, fr, fn, args, sp, rty):
    v = deref(E, st, args[0])
    if not (isinstance(v, tuple) and v[0] == "e"):
        return NotImplemented
    op = fn.defp.rsplit("::", 1)[1]
    return v[1] == {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[op]


# two-dimensional constant arrays of ndarray
@model("ndarray::arr2")
def m_arr2(E, st, fr, fn, args, sp, rty):
    return ("nd", args[0])


@rmodel(r"^<?ndarray::.*ops::Index<.*>>?::index$")
def m_ndindex(E, st, fr, fn, args, sp, rty):
    a = E.read(st, args[0][1], args[0][2])
    i = args[1]
    if not (isinstance(a, tuple) and a[0] == "nd") or not (isinstance(i, tuple) and i[0] == "s" and len(i) == 3):
        return NotImplemented
    r = a[1]
    return ("r", r[1], E.addix(E.addix(r[2], st.norm(i[1])), st.norm(i[2])), None)


@rmodel(r"^(core|std)::array::<impl \[T; N\]>::map$")
def m_arrmap(E, st, fr, fn, args, sp, rty):
    arr, clo = args
    cty = [a for a in fn.args if isinstance(a, int) and E.types[a]["k"] == "closure"]
    if not cty or not (isinstance(arr, tuple) and arr and arr[0] == "s" and len(arr) <= 17):
        return NotImplemented
    items = arr[1:]
    f = E.mir.fns[E.types[cty[-1]]["fn"]]
    cell = ("H", E.newid())
    st.env[cell] = clo
    byref = E.types[f.locals[1]]["k"] == "ref"
    todo = [(st, ())]
    for x in items:
        nxt = []
        for s, acc in todo:
            me = ("r", cell, (), None) if byref else s.env[cell]
            for s2, v in E.invoke(s, fr, f, None, [me, ("s", s.norm_val(x))], sp, f.locals[0]):
                nxt.append((s2, acc + (v,)))
        todo = nxt
    return [(s, ("s",) + acc) for s, acc in todo]
