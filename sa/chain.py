"""Models of the Anchor / Solana framework for analysing the on-chain entry points.

Accounts are identified by their AccountInfo (an opaque atom: element n of the account list handed to the
entry point); public keys are opaque atoms; derived addresses are terms over the seeds.  Everything the
program does to the outside world is recorded as an event of the state:
    ("acct", kind, info, type)   an account of the list was interpreted as kind (Account, Loader, Signer, ...)
    ("cpi", op, accounts, args, seeds)   a call into another program
    ("persist", info, type, value)   contents written back at the end of the instruction
    ("emit", type, value)   an event record was emitted
    ("create", ...)   account creation calls of the system program
"""
import re
from terms import *
from engine import Stuck, vshow, USIZE
from models import deref, ok, err, some, NONE, UNIT, boxed

RX = []


def cmodel(rx):
    def d(f):
        RX.append((re.compile(rx), f))
        return f
    return d


def register(E):
    if not E.cfg.get("chain"):
        return
    E.rmodels[:0] = RX
    E.OPAQUE = E.OPAQUE + tuple(t["path"] for t in E.types.values() if t.get("path", "").endswith(("::AccountInfo", "::Pubkey")) and t.get("krate") == "solana_program")


def slot(E, st, ref):
    """the innermost reference: location of a value behind nested references / boxes"""
    a = ref
    for _ in range(9):
        v = E.read(st, a[1], a[2])
        if isinstance(v, tuple) and v and v[0] == "r":
            a = v
        else:
            return a
    raise Stuck("reference depth")


def fresh_err(E, st, rty, what):
    t = E.types[rty]
    ety = t["variants"][1]["fields"][0][1]
    return err(E.opaque("error", (what,), ety))


def both(E, st, rty, val, what):
    """Ok(val) or an error; a failing call ends the instruction, whatever the reason"""
    if E.cfg.get("ok_only"):
        return [(st, ok(val))]
    bad = st.copy()
    bad.event("fail", what)
    return [(st, ok(val)), (bad, fresh_err(E, bad, rty, what))]


def okty(E, rty):
    return E.types[rty]["variants"][0]["fields"][0][1]


def unsub(proj):
    off = ZERO
    while proj and proj[-1][0] == "sub":
        proj, off = proj[:-1], off + proj[-1][1]
    return proj, off


def take(E, st, r):
    """next element of the account list behind &mut &[AccountInfo]"""
    s = E.read(st, r[1], r[2])
    if not (isinstance(s, tuple) and s[0] == "r"):
        raise Stuck("account list")
    proj, off = unsub(s[2])
    info = E.read(st, s[1], proj + (("ix", off),))
    E.write(st, r[1], r[2], ("r", s[1], proj + (("sub", off + ONE),), s[3] - ONE if s[3] is not None else None))
    return info, off


def data_of(E, info, ty):
    return E.opaque("data", (info,), ty)


def zero_value(E, ty):
    """what a freshly allocated, zero-filled account deserialises to"""
    t = E.types[ty]
    k = t["k"]
    if k in ("uint", "int"):
        return ZERO
    if k == "bool":
        return False
    if k == "array":
        z = zero_value(E, t["elem"])
        return ("R", z, num(t["len"]), ("o", ty))
    if k == "adt" and t["adt"] == "struct":
        if t["path"] in E.OPAQUE:
            return app("const", ("zero",), sort=("o", ty))
        return ("s",) + tuple(zero_value(E, ft) for _, ft in t["variants"][0]["fields"])
    raise Stuck("zero value of " + t["name"])


def account_value(E, st, ty, info, fresh=False):
    """value of an account wrapper type (Account, AccountLoader, Signer, Program, Sysvar) around an info"""
    t = E.types[ty]
    fs = []
    for n, ft in t["variants"][0]["fields"]:
        fp = E.types[ft].get("path", "")
        if fp.endswith("::AccountInfo"):
            fs.append(info)
        elif n == "account":
            fs.append(zero_value(E, ft) if fresh and E.types[ft].get("krate") == "hmmcl_sandbox" else data_of(E, info, ft))
        else:
            fs.append(E.opaque("field", (info, n), ft))
    return ("s",) + tuple(fs)


def wrap_type(E, ty):
    t = E.types[ty]
    if t.get("box"):
        return True, t["args"][0]
    return False, ty


def wrapper(E, st, rty, info, kind, what):
    box, aty = wrap_type(E, okty(E, rty))
    v = account_value(E, st, aty, info, kind == "fresh")
    st.event("acct", kind, info, E.types[aty]["path"].rsplit("::", 1)[-1], aty)
    inv = E.cfg.get("invariant")
    if inv:
        inv(E, st, info, aty, v, kind)
        v = st.norm_val(v)
    return boxed(E, st, v) if box else v


# ---------------------------------------------------------------- account list
@cmodel(r"anchor_lang::Accounts<'info>(>| for std::boxed::Box<T>>)::try_accounts$")
def m_try(E, st, fr, fn, args, sp, rty):
    if fn.blocks is not None:
        return NotImplemented
    bad = st.copy()
    info, n = take(E, st, args[1])
    if E.cfg.get("ok_only"):
        return [(st, ok(wrapper(E, st, rty, info, "given", fn.name)))]
    return [(st, ok(wrapper(E, st, rty, info, "given", fn.name))), (bad, fresh_err(E, bad, rty, "account"))]


@cmodel(r"^anchor_lang::prelude::(Account|AccountLoader)::<.*>::try_from_unchecked$|^anchor_lang::prelude::(Account|AccountLoader)::<.*>::try_from$|^anchor_lang::prelude::Program::<.*>::try_from$")
def m_tryfrom(E, st, fr, fn, args, sp, rty):
    info = deref(E, st, args[-1])
    kind = "fresh" if fn.defp.endswith("unchecked") else "given"
    bad = st.copy()
    if E.cfg.get("ok_only"):
        return [(st, ok(wrapper(E, st, rty, info, kind, fn.name)))]
    return [(st, ok(wrapper(E, st, rty, info, kind, fn.name))), (bad, fresh_err(E, bad, rty, "account"))]


@cmodel(r"AccountsExit<'info>( for std::boxed::Box<T>)?>::exit$|^anchor_lang::AccountsExit::exit$")
def m_exit(E, st, fr, fn, args, sp, rty):
    if fn.blocks is not None:
        return NotImplemented
    v = deref(E, st, args[0])
    ty = E.types[fn.args[0]] if fn.args and isinstance(fn.args[0], int) else None
    nm = fn.name
    if re.search(r"(Account)<'_, ", nm) and isinstance(v, tuple):
        t = self_account_type(E, nm)
        if t is not None and E.types[t]["variants"][0]["fields"][0][0] == "account":
            dty = E.types[t]["variants"][0]["fields"][0][1]
            if E.types[dty].get("krate") == "hmmcl_sandbox":
                st.event("persist", v[2], E.types[dty]["name"].rsplit("::", 1)[-1], v[1])
    return both(E, st, rty, UNIT, "exit")


def self_account_type(E, nm):
    """type id of the Account<...> an exit call is about"""
    best = None
    for i, t in E.types.items():
        if t["k"] == "adt" and t.get("path", "").endswith("::Account") and t.get("krate") == "anchor_lang" and t["name"] in nm.replace("hmmcl_sandbox::", "", 0):
            best = i
    if best is None:
        for i, t in E.types.items():
            if t["k"] == "adt" and t.get("path", "").endswith("::Account") and t.get("krate") == "anchor_lang":
                dn = E.types[t["variants"][0]["fields"][0][1]]["name"].rsplit("::", 1)[-1]
                if re.search(r"\b%s\b" % re.escape(dn), nm):
                    best = i
    return best


# ---------------------------------------------------------------- wrappers
def info_of(E, st, v):
    v = deref(E, st, v)
    if isinstance(v, Atom):
        return v
    if isinstance(v, tuple) and v[0] == "s":
        for x in v[1:]:
            if isinstance(x, Atom) and isinstance(x.sort, tuple) and x.sort[0] == "o" and E.types[x.sort[1]].get("path", "").endswith("::AccountInfo"):
                return x
    raise Stuck("account info of " + vshow(v)[:80])


@cmodel(r"ToAccountInfo<'info>>::to_account_info$|^<anchor_lang::prelude::AccountInfo<'a> as std::convert::AsRef<.*>::as_ref$|^<anchor_lang::prelude::AccountInfo<'.*> as std::clone::Clone>::clone$|^<anchor_lang::prelude::(Program|Signer|Sysvar)<.*> as std::ops::Deref>::deref$")
def m_info(E, st, fr, fn, args, sp, rty):
    i = info_of(E, st, args[0])
    if E.types[rty]["k"] == "ref":
        if "Sysvar" in fn.defp:
            a = slot(E, st, args[0])
            return ("r", a[1], a[2] + (("f", 1, None),), None)
        return ("r", ("C", i), (), None)
    return i


def key_term(E, st, info):
    return deref(E, st, E.step(st, info, ("f", field_ix(E, info, "key"), None)))


def field_ix(E, atom, name):
    return [n for n, _ in E.types[atom.sort[1]]["variants"][0]["fields"]].index(name)


@cmodel(r"(Key|Key for anchor_lang::prelude::AccountInfo<'info>)>::key$")
def m_key(E, st, fr, fn, args, sp, rty):
    v = deref(E, st, args[0])
    if isinstance(v, Atom) and E.types[v.sort[1]].get("path", "").endswith("::Pubkey"):
        return v
    return key_term(E, st, info_of(E, st, args[0]))


@cmodel(r"^<anchor_lang::prelude::Account<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$|^<anchor_spl::token::(Mint|TokenAccount) as std::ops::Deref>::deref$")
def m_accderef(E, st, fr, fn, args, sp, rty):
    a = slot(E, st, args[0])
    return ("r", a[1], a[2] + (("f", 0, None),), None)


@cmodel(r"^anchor_lang::prelude::Account::<.*>::set_inner$")
def m_setinner(E, st, fr, fn, args, sp, rty):
    a = slot(E, st, args[0])
    E.write(st, a[1], a[2] + (("f", 0, None),), args[1])
    return UNIT


@cmodel(r"^anchor_lang::prelude::Account::<.*>::into_inner$")
def m_intoinner(E, st, fr, fn, args, sp, rty):
    return E.step(st, args[0], ("f", 0, None))


@cmodel(r"^anchor_lang::prelude::AccountInfo::<'a>::(lamports|data_len|try_data_len|try_lamports|data_is_empty)$")
def m_lamports(E, st, fr, fn, args, sp, rty):
    i = info_of(E, st, args[0])
    op = fn.defp.rsplit("::", 1)[1].replace("try_", "")
    st.event("look", op, i)
    n = sum(1 for e in st.events() if e[0] in ("cpi",))
    if "try_" in fn.defp:
        return both(E, st, rty, E.opaque("acct_" + op, (i, n), okty(E, rty)), "try_" + op)
    return E.opaque("acct_" + op, (i, n), rty)


@cmodel(r"^anchor_lang::prelude::Rent::(minimum_balance|is_exempt)$|SolanaSysvar for anchor_lang::prelude::Rent>::get$")
def m_rent(E, st, fr, fn, args, sp, rty):
    op = fn.defp.rsplit("::", 1)[1]
    if op == "get":
        return both(E, st, rty, E.opaque("sysvar_rent", (), okty(E, rty)), "rent")
    return E.opaque("rent_" + op, tuple(x for x in args[1:]), rty)


# ---------------------------------------------------------------- zero-copy loader
@cmodel(r"^anchor_lang::prelude::AccountLoader::<'info, T>::(load|load_mut|load_init)$")
def m_load(E, st, fr, fn, args, sp, rty):
    i = info_of(E, st, args[0])
    g = E.types[okty(E, rty)]
    ty = next(a for a in g["args"] if isinstance(a, int) and E.types[a]["k"] == "adt")
    c = ("Z", i)
    if c not in st.env:
        op = fn.defp.rsplit("::", 1)[1]
        st.env[c] = zero_value(E, ty) if op == "load_init" else E.opaque("data", (i,), ty)
    st.event("load", fn.defp.rsplit("::", 1)[1], i)
    return both(E, st, rty, ("r", c, (), None), "load")


@cmodel(r"^<std::cell::Ref(Mut)?<'_, T> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def m_refderef(E, st, fr, fn, args, sp, rty):
    return slot(E, st, args[0])


# ---------------------------------------------------------------- keys and derived addresses
@cmodel(r"^<anchor_lang::prelude::Pubkey as std::convert::AsRef<\[u8\]>>::as_ref$")
def m_keyref(E, st, fr, fn, args, sp, rty):
    a = slot(E, st, args[0])
    return ("r", a[1], a[2], num(32))


@cmodel(r"^<anchor_lang::prelude::Pubkey as std::cmp::PartialEq>::(eq|ne)$")
def m_keyeq(E, st, fr, fn, args, sp, rty):
    a, b = deref(E, st, args[0]), deref(E, st, args[1])
    c = c_eqo(st.norm_val(a), st.norm_val(b))
    return c_not(c) if fn.defp.endswith("ne") else c


def seed_value(E, st, s):
    """canonical form of one seed"""
    v = deref(E, st, s)
    if isinstance(v, tuple) and v and v[0] == "r":
        v = E.read(st, v[1], v[2][:-1]) if v[2] and v[2][-1] == ("sub", ZERO) else v
    if isinstance(v, Atom):
        if v.op == "const":
            b = v.args[0][1]
            return ("b",) + tuple(b.encode() if isinstance(b, str) else b)
        return v
    if isinstance(v, tuple) and v[0] == "s" and all(isinstance(x, Poly) for x in v[1:]):
        return ("u8",) + tuple(v[1:])
    raise Stuck("seed " + vshow(v)[:80])


def seeds_of(E, st, ref):
    v = deref(E, st, ref)
    if not (isinstance(v, tuple) and v[0] == "s"):
        raise Stuck("seed list " + vshow(v)[:80])
    return tuple(seed_value(E, st, x) for x in v[1:])


@cmodel(r"^anchor_lang::prelude::Pubkey::(create_program_address|find_program_address)$")
def m_pda(E, st, fr, fn, args, sp, rty):
    sd = seeds_of(E, st, args[0])
    pid = deref(E, st, args[1])
    if fn.defp.endswith("find_program_address"):
        t = E.types[rty]
        bump = pa(app("bump", sd, pid, sort=E.sort(t["elems"][1])))
        key = app("pda", sd + (("u8", bump),), pid, sort=("o", t["elems"][0]))
        return ("s", key, bump)
    key = app("pda", sd, pid, sort=("o", okty(E, rty)))
    return both(E, st, rty, key, "address")


# ---------------------------------------------------------------- instruction data
@cmodel(r"^<u(8|16|32|64|128) as anchor_lang::AnchorDeserialize>::deserialize$")
def m_deser(E, st, fr, fn, args, sp, rty):
    r = args[0]
    s = E.read(st, r[1], r[2])
    if not (isinstance(s, tuple) and s[0] == "r"):
        raise Stuck("instruction data")
    w = int(re.search(r"<u(\d+)", fn.defp).group(1)) // 8
    proj, off = unsub(s[2])
    base = E.read(st, s[1], proj)
    v = E.opaque("ixarg", (base, off), okty(E, rty))
    E.write(st, r[1], r[2], ("r", s[1], proj + (("sub", off + num(w)),), s[3] - num(w) if s[3] is not None else None))
    return both(E, st, rty, v, "argument")


# ---------------------------------------------------------------- context and calls into other programs
@cmodel(r"^anchor_lang::context::Context::<.*>::new$")
def m_ctx(E, st, fr, fn, args, sp, rty):
    ft = dict(E.types[rty]["variants"][0]["fields"])
    aty = E.pointee(ft["accounts"])
    v = deref(E, st, args[1])
    names = [n for n, _ in E.types[aty]["variants"][0]["fields"]]
    st.event("ctx", tuple((n, info_of(E, st, x)) for n, x in zip(names, v[1:])))
    return ("s",) + tuple(args)


@cmodel(r"^anchor_lang::context::CpiContext::<.*>::(new|new_with_signer|with_signer)$")
def m_cpictx(E, st, fr, fn, args, sp, rty):
    fs = [n for n, _ in E.types[rty]["variants"][0]["fields"]]
    op = fn.defp.rsplit("::", 1)[1]
    if op == "with_signer":
        v = st.norm_val(deref(E, st, args[0]))
        i = fs.index("signer_seeds")
        return v[:1 + i] + (args[1],) + v[2 + i:]
    val = {"program": args[0], "accounts": args[1], "signer_seeds": args[2] if len(args) > 2 else None, "remaining_accounts": None}
    return ("s",) + tuple(val[n] for n in fs)


def signers(E, st, ref):
    if ref is None:
        return ()
    v = deref(E, st, ref)
    return tuple(seeds_of(E, st, x) for x in v[1:])


@cmodel(r"^anchor_spl::token::(burn|mint_to|transfer|initialize_account|approve|close_account|set_authority|freeze_account|revoke|initialize_mint)$|^anchor_lang::system_program::(transfer|create_account|allocate|assign)$")
def m_cpi(E, st, fr, fn, args, sp, rty):
    c = args[0]
    aty = okty_ctx(E, fn)
    prog, accs, sg = c[3], c[1], c[4]
    fs = None
    for i, t in E.types.items():
        if t["k"] == "adt" and t.get("path", "").endswith("::CpiContext"):
            fs = [n for n, _ in t["variants"][0]["fields"]]
            break
    g = dict(zip(fs, c[1:]))
    names = aty
    accounts = tuple(zip(names, g["accounts"][1:]))
    op = ("system_" if "system_program" in fn.defp else "") + fn.defp.rsplit("::", 1)[1]
    ev = ("cpi", op, accounts, tuple(st.norm_val(a) if not isinstance(a, tuple) or a[0] != "r" else deref(E, st, a) for a in args[1:]), signers(E, st, g["signer_seeds"]), g["program"])
    st.event(*ev)
    return both(E, st, rty, UNIT, op)


def okty_ctx(E, fn):
    """names of the account fields of the struct a call takes"""
    op = fn.defp.rsplit("::", 1)[1]
    cam = "".join(x.capitalize() for x in op.split("_"))
    root = fn.defp.rsplit("::", 1)[0]
    for t in E.types.values():
        if t["k"] == "adt" and t.get("path") == root + "::" + cam:
            return [n for n, _ in t["variants"][0]["fields"]]
    raise Stuck("accounts of " + fn.defp)


# ---------------------------------------------------------------- errors, records
@cmodel(r"^<anchor_lang::error::Error as std::convert::From<.*>>::from$|^anchor_lang::error::Error::with_(account_name|pubkeys|values|source)$")
def m_err(E, st, fr, fn, args, sp, rty):
    return E.opaque("error", (fn.name.rsplit("::", 1)[-1],), rty)


@cmodel(r"^anchor_lang::AnchorSerialize::try_to_vec$")
def m_tovec(E, st, fr, fn, args, sp, rty):
    v = deref(E, st, args[0])
    return ok(app("serialised", type_tag(fn.name), v, sort=("o", okty(E, rty))))


def type_tag(nm):
    mm = re.search(r"<([\w:]+) as ", nm)
    return (mm.group(1) if mm else nm).rsplit("::", 1)[-1]


@cmodel(r"^std::slice::<impl \[T\]>::to_vec$|^<std::vec::Vec<T, A> as std::ops::Deref>::deref$|^std::vec::Vec::<T, A>::append$")
def m_vec(E, st, fr, fn, args, sp, rty):
    op = fn.defp.rsplit("::", 1)[1]
    if op == "append":
        r = args[0]
        a, b = E.read(st, r[1], r[2]), deref(E, st, args[1])
        E.write(st, r[1], r[2], app("concat", a, b, sort=a.sort))
        return UNIT
    if op == "to_vec":
        v = deref(E, st, args[0])
        if not isinstance(v, Atom):
            return E.opaque("vec", (v,), rty)
        return app("vec", v, sort=("o", rty))
    a = slot(E, st, args[0])
    return ("r", a[1], a[2], pa(app("len", E.read(st, a[1], a[2]), sort=USIZE)))


@cmodel(r"^anchor_lang::solana_program::log::sol_log_data$")
def m_logdata(E, st, fr, fn, args, sp, rty):
    v = deref(E, st, args[0])
    for x in v[1:]:
        d = deref(E, st, x)
        st.event("emit", d)
    return UNIT


@cmodel(r"^anchor_lang::solana_program::log::sol_log$")
def m_log(E, st, fr, fn, args, sp, rty):
    return UNIT


@cmodel(r"COption::<T>::unwrap$")
def m_counwrap(E, st, fr, fn, args, sp, rty):
    v = deref(E, st, args[0])
    out = []
    d = E.discriminant(st, v, fn.args[0]) if isinstance(v, Atom) else None
    if d is None:
        raise Stuck("COption")
    yes, no = st.split(c_eq(d - ONE))
    if no is not None and E.on_panic:
        E.on_panic(E, fr, sp, "unwrap", no)
    if yes is None:
        return []
    return [(yes, E.step(yes, yes.norm_val(v), ("f", 0, 1)))]


@cmodel(r"^std::boxed::Box::<T>::new$")
def m_box(E, st, fr, fn, args, sp, rty):
    return boxed(E, st, args[0])
