"""Text as a list of pieces: literals, slices of unknown texts, decimal digits of an integer, repeated zeros.

A text value is ("S", pieces); a piece is ("lit", text), ("sub", atom, lo, hi) or ("rep", text, times)."""
from terms import *
import models
from models import some, ok, err, NONE, UNIT

RX = []


def rx(p):
    def d(f):
        RX.append((re_.compile(p), f))
        return f
    return d


import re as re_


def register(E):
    E.rmodels[:0] = RX


def stuck(t):
    from engine import Stuck as S
    raise S(t)


# ---------------------------------------------------------------- values
LEN = ("i", 0, 2 ** 63 - 1)          # no text or allocation is longer than isize::MAX bytes


def pieces(E, st, v):
    meta = None
    for _ in range(9):
        if isinstance(v, tuple) and v and v[0] == "S":
            return st.norm_val(v[1])
        if isinstance(v, tuple) and v and v[0] == "r":
            if v[3] is not None and isinstance(v[3], Poly):
                meta = v[3]
            v = E.read(st, v[1], v[2])
            continue
        break
    if isinstance(v, Atom):
        if v.op == "const" and v.args[0][0] == "str":
            t = v.args[0][1]
            return (("lit", t),) if t else ()
        if v.op in ("fmt", "text", "call"):
            stuck("composed text")
        return (("sub", v, ZERO, meta if meta is not None else pa(app("len", v, sort=LEN))),)
    stuck("text expected")


def plen(p):
    n = ZERO
    for x in p:
        if x[0] == "lit":
            n = n + num(len(x[1].encode()))
        elif x[0] == "sub":
            n = n + x[3] - x[2]
        else:
            n = n + x[2].scale(len(x[1]))
    return n


def text(p):
    return ("S", join(p))


def join(p):
    out = []
    for x in p:
        if x[0] == "lit" and not x[1] or x[0] == "sub" and x[2] == x[3] or x[0] == "rep" and not x[2].m:
            continue
        if out and x[0] == "lit" and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + x[1])
        elif out and x[0] == "sub" and out[-1][0] == "sub" and out[-1][1] is x[1] and out[-1][3] == x[2]:
            out[-1] = ("sub", x[1], out[-1][2], x[3])
        else:
            out.append(x)
    return tuple(out)


def ref(p):
    return ("r", ("C", text(p)), (), plen(p))


def ascii_atom(a):
    return a.op == "digits_of"


# ---------------------------------------------------------------- positions
def boundary(E, fr, sp, st, p, k):
    """[state]: position k of the text is known not to split a character (other states abort)"""
    if st.decide(c_eq(k)) is True or st.decide(c_eq(k - plen(p))) is True:
        return True
    for x in p:
        if x[0] == "sub" and not ascii_atom(x[1]):
            break
        if x[0] == "lit" and any(ord(c) > 127 for c in x[1]):
            break
    else:
        return True
    for e in st.events():
        if e[0] == "bnd" and join(e[1]) == join(p) and st.decide(c_eq(st.norm(e[2]) - k)) is True:
            return True
        if e[0] == "bnd" and len(p) == 1 and p[0][0] == "sub" and len(e[1]) == 1 and e[1][0][0] == "sub" and e[1][0][1] is p[0][1] \
                and st.decide(c_eq(st.norm(e[2]) + e[1][0][2] - k - p[0][2])) is True:
            return True
    return False


def cut(E, fr, sp, st, p, lo, hi):
    """[(state, pieces)] of the slice; aborting states are reported"""
    n = plen(p)
    good, bad = st.split(c_and(c_and(c_ge(lo), c_ge(hi - lo)), c_ge(n - hi)))
    if bad is not None and E.on_panic:
        E.on_panic(E, fr, sp, "text slice out of range", bad)
    if good is None:
        return []
    p, lo, hi = good.norm_val(p), good.norm(lo), good.norm(hi)
    for k in (lo, hi):
        if not boundary(E, fr, sp, good, p, k):
            if E.on_panic:
                E.on_panic(E, fr, sp, "text slice may split a character", good.copy())
    if len(p) == 1 and p[0][0] == "sub":
        x = p[0]
        return [(good, (("sub", x[1], x[2] + lo, x[2] + hi),))]
    # whole pieces
    out = []
    pos = ZERO
    for x in p:
        end = pos + plen((x,))
        ge = lambda p, q: good.decide(c_ge(p - q)) is True
        if ge(lo, end) or ge(pos, hi):
            pos = end
            continue
        f = ZERO if ge(pos, lo) else lo - pos if ge(lo, pos) else None
        t = end - pos if ge(hi, end) else hi - pos if ge(end, hi) else None
        if f is None or t is None:
            stuck("slice of a composed text")
        if not f.m and t == end - pos:
            out.append(x)
        elif x[0] == "sub":
            out.append(("sub", x[1], x[2] + f, x[2] + t))
        elif x[0] == "rep" and len(x[1]) == 1:
            out.append(("rep", x[1], t - f))
        elif x[0] == "lit" and f.const() is not None and t.const() is not None:
            out.append(("lit", x[1].encode()[int(f.const()):int(t.const())].decode("utf8", "replace")))
        else:
            stuck("slice of a composed text")
        pos = end
    return [(good, join(out))]


def pattern(E, st, fn, v):
    """characters of a pattern if known, else None"""
    if isinstance(v, Poly):
        c = v.const()
        return (chr(int(c)),) if c is not None else None
    try:
        if isinstance(v, tuple) and v[0] == "r":
            w = E.read(st, v[1], v[2])
            if isinstance(w, Atom) and w.op == "const" and w.args[0][0] == "str":
                return ("str", w.args[0][1])
            if isinstance(w, tuple) and w[0] == "r":
                return pattern(E, st, fn, w)
            if isinstance(w, tuple) and w[0] == "s":
                return tuple(chr(int(x.const())) for x in w[1:])
        if isinstance(v, tuple) and v[0] == "s" and all(isinstance(x, Poly) for x in v[1:]):
            return tuple(chr(int(x.const())) for x in v[1:])
    except Exception:
        pass
    return None


def width(pat):
    """bytes matched, None if unknown"""
    if pat is None:
        return None
    if pat and pat[0] == "str" and len(pat) == 2 and len(pat[1]) != 1:
        return len(pat[1].encode())
    if pat and pat[0] == "str" and len(pat) == 2:
        pat = (pat[1],)
    return 1 if all(ord(c) < 128 for c in pat) else None


S = r"^core::str::<impl str>::"


@rx(S + r"(find|rfind)(::<.*>)?$")
def m_find(E, st, fr, fn, args, sp, rty):
    p = pieces(E, st, args[0])
    pat = pattern(E, st, fn, args[1])
    if pat is None:
        stuck("search by a closure")
    n = plen(p)
    w = width(pat)
    k = app("find", fn.defp.rsplit("::", 1)[1], ("S", p), pat if pat is not None else ("closure", args[1]), sort=models.USIZE)
    has = c_atom(app("has", k.args[0], k.args[1], k.args[2], sort=BOOL))
    yes, no = st.split(has)
    out = []
    if yes is not None:
        loc = pa(k)
        yes.assume(c_ge(loc))
        y = yes.try_assume(c_ge(n - loc - num(w or 1)))
        if y is not None:
            y.event("bnd", p, loc)
            if w:
                y.event("bnd", p, loc + num(w))
            out.append((y, some(loc)))
    if no is not None:
        out.append((no, NONE))
    return out


@rx(S + r"split_once(::<.*>)?$")
def m_split_once(E, st, fr, fn, args, sp, rty):
    p = pieces(E, st, args[0])
    w = width(pattern(E, st, fn, args[1]))
    if w is None:
        stuck("split_once")
    out = []
    for s, v in m_find(E, st, fr, _Named(fn, "find"), args, sp, rty):
        if v == NONE:
            out.append((s, NONE))
            continue
        k = v[2]
        for s2, a in cut(E, fr, sp, s, p, ZERO, k):
            for s3, b in cut(E, fr, sp, s2, p, k + num(w), plen(p)):
                out.append((s3, some(("s", ref(a), ref(b)))))
    return out


def starts(p, pat):
    return c_atom(app("starts", ("S", p), pat, sort=BOOL))


class _Named:
    def __init__(self, fn, n):
        self.fn, self.defp = fn, fn.defp.rsplit("::", 1)[0] + "::" + n

    def __getattr__(self, k):
        return getattr(self.fn, k)


@rx(S + r"strip_prefix(::<.*>)?$|" + S + r"starts_with(::<.*>)?$|" + S + r"contains(::<.*>)?$|" + S + r"ends_with(::<.*>)?$")
def m_prefix(E, st, fr, fn, args, sp, rty):
    p = pieces(E, st, args[0])
    pat = pattern(E, st, fn, args[1])
    op = fn.defp.rsplit("::", 1)[1]
    if pat is None:
        stuck("search by a closure")
    w = width(pat)
    n = plen(p)
    if op in ("contains", "ends_with"):
        c = c_atom(app("has", "find" if op == "contains" else op, ("S", p), pat, sort=BOOL)) if pat is not None else E.opaque("text", (op, ("S", p), args[1]), rty)
        return c
    k = app("find", "find", ("S", p), pat, sort=models.USIZE)
    has = c_atom(app("has", "find", ("S", p), pat, sort=BOOL))
    out = []
    known = st.decide(st.norm(c_and(has, c_eq(pa(k)))))
    for s, b in _split2(st, known if known is not None else st.norm(starts(p, pat))):
        if b and known is None:
            s = s.try_assume(c_and(has, c_eq(pa(k))))
            if s is None:
                continue
        if op == "starts_with":
            if b:
                s = s.try_assume(c_ge(n - num(w or 1)))
                if s is None:
                    continue
                s.event("bnd", p, num(w or 1))
            out.append((s, b))
        elif not b:
            out.append((s, NONE))
        else:
            s = s.try_assume(c_ge(n - num(w or 1)))
            if s is None:
                continue
            if w is None:
                stuck("strip_prefix")
            s.event("bnd", p, num(w))
            for s2, a in cut(E, fr, sp, s, p, num(w), n):
                out.append((s2, some(ref(a))))
    return out


def _split2(st, c):
    y, n = st.split(c)
    return ([(y, True)] if y is not None else []) + ([(n, False)] if n is not None else [])


@rx(r"^core::str::traits::<impl std::ops::Index<I> for str>::index$|^<std::string::String as std::ops::Index<I>>::index$|^core::str::<impl str>::(split_at|get)(::<.*>)?$")
def m_index(E, st, fr, fn, args, sp, rty):
    p = pieces(E, st, args[0])
    n = plen(p)
    if fn.defp.endswith("split_at"):
        out = []
        for s, a in cut(E, fr, sp, st, p, ZERO, args[1]):
            for s2, b in cut(E, fr, sp, s, p, args[1], n):
                out.append((s2, ("s", ref(a), ref(b))))
        return out
    if fn.defp.endswith("get"):
        stuck("text get")
    i = args[1]
    lo, hi = ZERO, n
    nm = fn.name
    if "RangeFull" in nm:
        return [(st, ref(p))]
    if "RangeToInclusive" in nm:
        stuck("inclusive range")
    if "RangeTo<" in nm:
        hi = i[1]
    elif "RangeFrom<" in nm:
        lo = i[1]
    elif "Range<" in nm:
        lo, hi = i[1], i[2]
    else:
        stuck("text index")
    return [(s, ref(q)) for s, q in cut(E, fr, sp, st, p, st.norm(lo), st.norm(hi))]


@rx(S + r"len$|^std::string::String::len$|" + S + r"is_empty$|^std::string::String::is_empty$")
def m_len(E, st, fr, fn, args, sp, rty):
    n = plen(pieces(E, st, args[0]))
    return n if fn.defp.endswith("len") else c_eq(n)


@rx(r"^<(T|str|std::string::String) as std::string::(ToString|SpecToString)>::(to_string|spec_to_string)$|^<std::string::String as std::convert::From<.*>>::from$|impl std::borrow::ToOwned for str>::to_owned$|^<std::string::String as std::clone::Clone>::clone$|" + S + r"(to_owned|into_string)$|^std::string::String::into_string$|^<T as std::borrow::ToOwned>::to_owned$")
def m_owned(E, st, fr, fn, args, sp, rty):
    if "u128" in fn.name or "u64" in fn.name or "usize" in fn.name or "u32" in fn.name or "u8 as" in fn.name:
        n = models.deref(E, st, args[0])
        a = app("digits_of", st.norm(n), sort=("o", rty))
        return text((("sub", a, ZERO, count(st.norm(n))),))
    return text(pieces(E, st, args[0]))


@rx(r"^std::string::String::(as_str|as_mut_str)$|^<std::string::String as std::ops::Deref>::deref$|^<std::string::String as std::convert::AsRef<str>>::as_ref$|^<std::string::String as std::borrow::Borrow<str>>::borrow$|" + S + r"as_str$")
def m_asstr(E, st, fr, fn, args, sp, rty):
    return ref(pieces(E, st, args[0]))


@rx(r"^std::string::String::(new|with_capacity)$")
def m_new(E, st, fr, fn, args, sp, rty):
    return text(())


def count(n):
    return pa(app("digit_count", n, sort=("i", 1, 39)))


def store(E, st, r, p):
    while True:
        w = E.read(st, r[1], r[2])
        if isinstance(w, tuple) and w and w[0] == "r":
            r = w
        else:
            break
    E.write(st, r[1], r[2], text(p))


@rx(r"^std::string::String::(push_str|push|insert|insert_str|clear|truncate)$|^<std::string::String as std::ops::AddAssign<&str>>::add_assign$")
def m_edit(E, st, fr, fn, args, sp, rty):
    op = fn.defp.rsplit("::", 1)[1]
    p = pieces(E, st, args[0])

    def ch(v):
        c = v.const()
        if c is None:
            stuck("unknown character")
        return (("lit", chr(int(c))),)
    if op == "clear":
        store(E, st, args[0], ())
        return [(st, UNIT)]
    if op in ("push_str", "add_assign"):
        store(E, st, args[0], join(p + pieces(E, st, args[1])))
        return [(st, UNIT)]
    if op == "push":
        store(E, st, args[0], join(p + ch(args[1])))
        return [(st, UNIT)]
    if op == "truncate":
        stuck("truncate")
    k = st.norm(args[1])
    new = ch(args[2]) if op == "insert" else pieces(E, st, args[2])
    out = []
    for s, a in cut(E, fr, sp, st, p, ZERO, k):
        for s2, b in cut(E, fr, sp, s, p, k, plen(p)):
            store(E, s2, args[0], join(a + new + b))
            out.append((s2, UNIT))
    return out


@rx(r"^<std::string::String as std::ops::Add<&str>>::add$")
def m_add(E, st, fr, fn, args, sp, rty):
    return text(pieces(E, st, args[0]) + pieces(E, st, args[1]))


@rx(r"^std::iter::repeat$|^std::iter::repeat_n$")
def m_repeat(E, st, fr, fn, args, sp, rty):
    try:
        p = pieces(E, st, args[0])
    except Exception:
        return NotImplemented
    return ("rp", p, args[1] if len(args) > 1 else None)


@rx(r"Repeat<.*> as std::iter::Iterator>::take$|^std::iter::Iterator::take$")
def m_take(E, st, fr, fn, args, sp, rty):
    a = args[0]
    if not (isinstance(a, tuple) and a and a[0] == "rp"):
        return NotImplemented
    return ("rp", a[1], args[1])


@rx(r"^std::iter::Iterator::collect$|Take<.*> as std::iter::Iterator>::collect")
def m_collect(E, st, fr, fn, args, sp, rty):
    a = args[0]
    if not (isinstance(a, tuple) and a and a[0] == "rp") or a[2] is None:
        return NotImplemented
    return repeat(a[1], st.norm(a[2]))


def repeat(p, k):
    if len(p) != 1 or p[0][0] != "lit":
        stuck("repeated text")
    return text((("rep", p[0][1], k),))


@rx(r"^(alloc|std)::str::<impl str>::repeat$|" + S + r"repeat$")
def m_repeat2(E, st, fr, fn, args, sp, rty):
    return repeat(pieces(E, st, args[0]), st.norm(args[1]))


@rx(r"^core::num::<impl std::str::FromStr for (\w+)>::from_str$|^core::num::<impl (\w+)>::from_str_radix$|" + S + r"parse(::<.*>)?$")
def m_parse(E, st, fr, fn, args, sp, rty):
    p = pieces(E, st, args[0])
    radix = num(10)
    if "from_str_radix" in fn.defp:
        radix = st.norm(args[1])
        good, bad = st.split(c_and(c_ge(radix - num(2)), c_ge(num(36) - radix)))
        if bad is not None and E.on_panic:
            E.on_panic(E, fr, sp, "radix", bad)
        if good is None:
            return []
        st = good
    okty = E.types[rty]["variants"][0]["fields"][0][1]
    if E.types[okty]["k"] not in ("int", "uint"):
        stuck("parse to " + E.tname(okty)) if hasattr(E, "tname") else stuck("parse")
    v = pa(app("parse", ("S", p), radix, sort=E.sort(okty)))
    c = c_atom(app("parses", ("S", p), radix, okty, sort=BOOL))
    out = []
    for s, b in _split2(st, c):
        if b:
            s.event("parsed", p, radix, v)
            out.append((s, ok(v)))
        else:
            ety = E.types[rty]["variants"][1]["fields"][0][1]
            out.append((s, err(E.opaque("parse_error", (p and str(p[0][0]) or "",), ety))))
    return out


@rx(r"^std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::(eq|ne)$|impl std::cmp::PartialEq<?.*>? for (str|std::string::String)>::(eq|ne)$|^<std::string::String as std::cmp::PartialEq.*>::(eq|ne)$|^<str as std::cmp::PartialEq.*>::(eq|ne)$|^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$")
def m_eq(E, st, fr, fn, args, sp, rty):
    try:
        a, b = pieces(E, st, args[0]), pieces(E, st, args[1])
    except Exception:
        return NotImplemented
    if a == b:
        c = True
    elif not a or not b:
        c = c_eq(plen(a or b))
    else:
        x, y = sorted((("S", a), ("S", b)), key=str)
        c = c_atom(app("sameText", x, y, sort=BOOL))
    return c if fn.defp.endswith("eq") else c_not(c)


@rx(r"^std::fmt::Formatter::<'a>::(pad_integral|pad|write_str)$|^std::fmt::Formatter::<'_>::(pad_integral|pad|write_str)$")
def m_pad(E, st, fr, fn, args, sp, rty):
    op = fn.defp.rsplit("::", 1)[1]
    if op == "pad_integral":
        st.event("print", args[1] if isinstance(args[1], bool) else st.norm(args[1]), join(pieces(E, st, args[2]) + pieces(E, st, args[3])))
    else:
        st.event("print", True, pieces(E, st, args[1]))
    return E.opaque("fmt", ("out",), rty)


# ---------------------------------------------------------------- concatenation and composed text
def elems(E, st, r):
    """the elements of a short array or slice behind a reference, or None"""
    meta = None
    v = r
    for _ in range(6):
        if not (isinstance(v, tuple) and v and v[0] == "r"):
            break
        if isinstance(v[3], Poly):
            meta = v[3]
        v = E.read(st, v[1], v[2])
    if isinstance(v, Atom) and v.op == "const" and v.args[0][0] == "bytes":
        return [num(x) for x in v.args[0][1]]
    if not isinstance(v, tuple):
        return None
    n = (meta if meta is not None else E.alen(st, v)).const()
    if n is None or n > 4096:
        return None
    return [E.aread(st, v, num(i)) for i in range(int(n))]


@rx(r"^(std|alloc|core)::slice::<impl \[.*\]>::(concat|join)$|^(std|alloc|core)::slice::<impl \[.*\]>::(concat|join)::<")
def m_concat(E, st, fr, fn, args, sp, rty):
    vs = elems(E, st, args[0])
    if vs is None or E.types[rty].get("path") != "std::string::String" and "String" not in E.types[rty].get("path", ""):
        return NotImplemented
    sep = pieces(E, st, args[1]) if len(args) > 1 else ()
    out = ()
    for i, v in enumerate(vs):
        out += (sep if i else ()) + pieces(E, st, v)
    return text(out)


@rx(r"^core::fmt::rt::Argument::<'_>::(new_display|from_usize)$")
def m_fmtarg(E, st, fr, fn, args, sp, rty):
    try:
        v = models.deref(E, st, args[0])
        if isinstance(v, Poly):
            v = st.norm(v)
            if fn.defp.endswith("from_usize"):
                return ("fa", v)
            t = E.types[fn.args[-1]] if fn.args and isinstance(fn.args[-1], int) else {}
            while t.get("k") == "ref":
                t = E.types[t["to"]]
            if t.get("k") != "uint":
                return NotImplemented
            return ("fa", (("sub", app("digits_of", v, sort=("o", rty)), ZERO, count(v)),))
        if isinstance(v, (bool, Cond)):
            return NotImplemented
        return ("fa", pieces(E, st, args[0]))
    except Exception:
        return NotImplemented


@rx(r"^std::fmt::Arguments::<'a>::(new|from_str|from_str_nonconst)$")
def m_fmtargs(E, st, fr, fn, args, sp, rty):
    if len(args) == 1:
        try:
            return ("fA", ((("lit",), pieces(E, st, args[0])),))
        except Exception:
            return NotImplemented
    tp, vs = elems(E, st, args[0]), elems(E, st, args[1])
    if tp is None or vs is None or not all(isinstance(v, tuple) and v and v[0] == "fa" for v in vs):
        return NotImplemented
    b = [int(x.const()) for x in tp]
    out = []
    i = nxt = 0
    while b[i]:
        n = b[i]
        i += 1
        if n <= 0x80:
            if n == 0x80:
                n = b[i] | b[i + 1] << 8
                i += 2
            out.append((("lit",), (("lit", bytes(b[i:i + n]).decode("utf8")),)))
            i += n
            continue
        flags, width, prec = 3 << 29 | 32, None, None
        if n & 1:
            flags = sum(b[i + j] << 8 * j for j in range(4))
            i += 4
        if n & 2:
            width = num(b[i] | b[i + 1] << 8)
            i += 2
        if n & 4:
            prec = b[i] | b[i + 1] << 8
            i += 2
        if n & 8:
            nxt = b[i] | b[i + 1] << 8
            i += 2
        if n & 16:
            width = vs[int(width.const())][1]
        v = vs[nxt][1]
        nxt += 1
        if prec is not None or not isinstance(v, tuple) or flags & (1 << 21):
            return NotImplemented
        out.append((("arg", flags, width), v))
    return ("fA", tuple(out))


def compose(E, st, parts):
    """[(state, pieces)]: a width pads only a text shorter than it"""
    out = [(st, ())]
    for how, p in parts:
        nxt = []
        for s, done in out:
            p2 = s.norm_val(p)
            if how[0] == "lit" or how[2] is None:
                nxt.append((s, done + p2))
                continue
            flags, w = how[1], s.norm(how[2])
            number = len(p2) == 1 and p2[0][0] == "sub" and p2[0][1].op == "digits_of"
            fill, align = chr(flags & 0x1fffff), flags >> 29 & 3
            if align == 3:
                align = 1 if number else 0
            if flags & 1 << 24 and number:
                fill, align = "0", 1
            if align == 2 or ord(fill) > 127:
                stuck("composed text")
            more, less = s.split(c_gt(w - plen(p2)))
            if less is not None:
                nxt.append((less, done + less.norm_val(p2)))
            if more is not None:
                q = more.norm_val(p2)
                pad = (("rep", fill, more.norm(w) - plen(q)),)
                nxt.append((more, more.norm_val(done) + (pad + q if align == 1 else q + pad)))
        out = nxt
    return out


@rx(r"^(std|alloc)::fmt::format$|^std::fmt::Formatter::<'[a_]>::write_fmt$")
def m_format(E, st, fr, fn, args, sp, rty):
    a = args[-1]
    if not (isinstance(a, tuple) and a and a[0] == "fA"):
        return NotImplemented
    out = []
    for s, p in compose(E, st, a[1]):
        if fn.defp.endswith("write_fmt"):
            s.event("print", True, join(p))
            out.append((s, E.opaque("fmt", ("out",), rty)))
        else:
            out.append((s, text(p)))
    return out
