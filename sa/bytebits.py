"""Bytes of an unknown array as eight unknown bits: a byte is the sum of 2^j * b_j with b_j 0 or 1.
Shifts, masks and comparisons by constants stay exact on this form."""
from terms import *


def byte_of(v, i):
    """the byte of opaque array v at index i"""
    s = ZERO
    for j in range(8):
        s = s + pa(app("bitat", v, i, num(j), sort=("i", 0, 1))).scale(1 << j)
    return s


def bits_of(p, width=8):
    """[bit polynomials, least significant first] or None if p is not a sum of distinct known and unknown bits"""
    out = [None] * width
    k = 0
    for mono, c in p.m.items():
        if not mono:
            k = c
            continue
        if len(mono) != 1 or mono[0][1] != 1:
            return None
        a = ATOMS[mono[0][0]]
        if a.sort != ("i", 0, 1) or c <= 0 or int(c) != c or int(c) & (int(c) - 1):
            return None
        j = int(c).bit_length() - 1
        if j >= width or out[j] is not None:
            return None
        out[j] = pa(a)
    if k < 0 or int(k) != k or k >= 1 << width:
        return None
    for j in range(width):
        if (int(k) >> j) & 1:
            if out[j] is not None:
                return None
            out[j] = ONE
        elif out[j] is None:
            out[j] = ZERO
    return out


def of_bits(bs):
    s = ZERO
    for j, b in enumerate(bs):
        s = s + b.scale(1 << j)
    return s


def unknown(p):
    return p.const() is None


def bop(op, a, b, width):
    """bitwise operation or shift; None if not exact here"""
    if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
        k = b.const()
        if k is None or not 0 <= k < width:
            return None
        x = bits_of(a, width)
        if x is None or not unknown(a):
            return None
        k = int(k)
        return of_bits(x[k:] if op.startswith("Shr") else ([ZERO] * k + x)[:width])
    if not unknown(a) and not unknown(b):
        return None
    if op in ("Div", "Rem"):
        k = b.const()
        if not k or k < 1 or int(k) & (int(k) - 1):
            return None
        x = bits_of(a, width)
        if x is None:
            return None
        n = int(k).bit_length() - 1
        return of_bits(x[n:] if op == "Div" else x[:n])
    x, y = bits_of(a, width), bits_of(b, width)
    if x is None or y is None:
        return None
    out = []
    for p, q in zip(x, y):
        if unknown(p) and unknown(q):
            if p == q:
                r = ZERO if op == "BitXor" else p
            else:
                return None
        else:
            if not unknown(p):
                p, q = q, p
            k = q.const()
            r = {"BitAnd": p if k else ZERO, "BitOr": ONE if k else p, "BitXor": ONE - p if k else p}[op]
            if unknown(r) and r.atom() is None:
                return None
        out.append(r)
    return of_bits(out)


def bcmp(op, a, b, width=64):
    """condition for comparing a sum of unknown bits with zero, or None"""
    if a.const() is not None:
        a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
    k = b.const()
    if k is None or a.const() is not None:
        return None
    x = bits_of(a, width)
    if x is None:
        return None
    if op in ("Eq", "Ne"):
        if k < 0 or int(k) != k:
            return op == "Ne"
        c = True
        for j, p in enumerate(x):
            c = c_and(c, c_eq(p - num((int(k) >> j) & 1)))
        if int(k) >> width:
            c = False
        return c if op == "Eq" else c_not(c)
    if op == "Ge":
        op, k = "Gt", k - 1
    if op == "Lt":
        op, k = "Le", k - 1
    if k == 0:
        c = True
        for p in x:
            c = c_and(c, c_eq(p))
        return c_not(c) if op == "Gt" else c
    return None


def first_set(bs, st, width, low=True):
    """[(state, number of zeros before the first set bit)]"""
    out = []
    order = bs if low else bs[::-1]
    for n, b in enumerate(order):
        if st is None:
            return out
        y, st2 = st.split(c_eq(st.norm(b) - ONE))
        if y is not None:
            out.append((y, num(n)))
        st = st2
    if st is not None:
        out.append((st, num(width)))
    return out
