"""Rules over the on-chain entry points (Anchor program): accounts, token movement, persisted state, records."""
import re
from rulekit import *
from rules_pool import FIX
import chain
import decmodels
from engine import p_dec
from terms import *

SCALE = 12
ST_ = "hmmcl_sandbox::state::"


# ---------------------------------------------------------------- running an instruction
def entry(m, name):
    return m.one(r"__private::__global::%s$" % name)


def instructions(m):
    return sorted(g.name.rsplit("::", 1)[-1] for g in m.find(r"__private::__global::\w+$"))


def ix_args(m, name):
    """[(argument name, byte offset)] of an instruction"""
    cam = "".join(x.capitalize() for x in name.split("_"))
    for t in m.types.values():
        if t["k"] == "adt" and t.get("path", "") == "hmmcl_sandbox::instruction::" + cam:
            out, off = [], 0
            for n, ft in t["variants"][0]["fields"]:
                out.append((n, off))
                off += m.types[ft]["bits"] // 8
            return out
    raise KeyError("instruction arguments of " + name)


def uninterpreted_math(E, st, fr, fn, args, sp, rty):
    """pricing functions: uninterpreted here (their formulas are P10)"""
    n = fn.name.rsplit("::", 1)[-1]
    v = E.opaque("fn", (n,) + tuple(args), rty)
    if isinstance(v, tuple) and v[0] == "d":
        a = args[0]
        if n in ("x_from_l_rp_rng", "y_from_l_rp_rng") and isinstance(a, tuple) and a[0] == "d" and st.decide(c_ge(a[1])) is True:
            st.assume(c_ge(v[1]))        # amounts represented by non-negative liquidity are non-negative (C12 part "amounts")
            v = st.norm_val(v)
    return v


def track_abs(E, st, fr, fn, args, sp, rty):
    n, _ = decmodels.dnum(args[0])
    st.event("mag", n, fr.fn.name, tuple(sp) if sp else None)
    return decmodels.d_abs(E, st, fr, fn, args, sp, rty)


def invariant(E, st, info, aty, v, kind):
    """stored state written by the program itself: fixed scales, net-liquidity sign flag 0 or 1 (kept: C06/C07)"""
    t = E.types[aty]
    if kind != "given" or t["variants"][0]["fields"][0][0] != "account":
        return
    dty = t["variants"][0]["fields"][0][1]
    if E.types[dty].get("krate") != "hmmcl_sandbox":
        return
    w = V(E, st, v, aty).f("account")
    for n, x in scales(w):
        st.assume(c_eq(x - num(SCALE)))
    if w.has("liq_net_neg"):
        st.assume(c_ge(num(1) - w.f("liq_net_neg").n()))


def scales(w, pre=""):
    out = []
    t = w.E.types[w.ty]
    for n, ft in t["variants"][0]["fields"]:
        if n.endswith("_scale"):
            out.append((pre + n, w.f(n).n()))
        elif w.E.types[ft]["k"] == "adt" and w.E.types[ft].get("krate") == "hmmcl_sandbox" and w.E.types[ft]["adt"] == "struct":
            out += scales(w.f(n), pre + n + ".")
    return out


class Path:
    def __init__(self, E, st, ev, v, m, name, fn, ixa):
        self.E, self.st, self.v, self.m = E, st, v, m
        self.events = ev
        ctx = [e for e in ev if e[0] == "ctx"]
        self.roles = dict(ctx[0][1]) if ctx else {}
        self.names = {i.id: n for n, i in self.roles.items()}
        self.cpi = [e for e in ev if e[0] == "cpi"]
        self.persist = {e[1].id: e for e in ev if e[0] == "persist"}
        self.persisted = [e for e in ev if e[0] == "persist"]
        self.emit = [e for e in ev if e[0] == "emit"]
        self.acct = {e[2].id: e for e in ev if e[0] == "acct"}
        self.args = {}
        i = fn.argc - 1
        base = E.opaque("sym", (argname(fn, i),), fn.locals[1 + i])
        data = E.read(st, base[1], base[2])
        for n, off in ixa:
            self.args[n] = st.norm(pa(app("ixarg", data, num(off), sort=isort(64, False))))
        self.pid = st.norm_val(deref0(E, st, E.opaque("sym", (argname(fn, 0),), fn.locals[1])))

    def info(self, role):
        return self.roles[role]

    def key(self, role):
        i = self.roles[role] if isinstance(role, str) else role
        return self.st.norm_val(chain.key_term(self.E, self.st, i))

    def wrap(self, role):
        return self.acct[self.roles[role].id]

    def data(self, role):
        """contents of the account when the instruction started"""
        e = self.wrap(role)
        t = self.E.types[e[4]]
        dty = [ft for n, ft in t["variants"][0]["fields"] if n == "account"]
        if dty:
            dty = dty[0]
        else:
            dty = next(a for a in t["args"] if isinstance(a, int) and self.E.types[a].get("krate") == "hmmcl_sandbox")
        v = self.st.norm_val(chain.data_of(self.E, self.roles[role], dty))
        w = V(self.E, self.st, v, dty)
        if self.E.types[dty].get("krate") == "anchor_spl":
            w = w.f("0")
        return w

    def new(self, role):
        """contents written back at the end (the last write counts), or None"""
        i = self.roles[role]
        e = self.persist.get(i.id)
        if e is None:
            return None
        t = self.E.types[self.acct[i.id][4]]
        return V(self.E, self.st, self.st.norm_val(e[3]), t["variants"][0]["fields"][0][1])

    def n(self, x):
        return self.st.norm(x)

    def role_of(self, info):
        return self.names.get(info.id, show_info(info))


def show_info(i):
    return repr(i)


def deref0(E, st, v):
    return chain.deref(E, st, v)


class Run:
    def __init__(self, rep, m, name, **kw):
        self.m, self.name = m, name
        over = dict(kw.pop("over", {}))
        for g in m.fns.values():
            if g.defp.startswith("hmmcl_sandbox::cl_pool::cl_math::PoolMath::") and not g.name.endswith("}"):
                over.setdefault(g.defp, uninterpreted_math)
            if g.defp == "hmmcl_sandbox::decimal::Decimal::abs":
                over.setdefault(g.defp, track_abs)
        self.fn = entry(m, name)
        self.panics = []
        kw.setdefault("ok_only", name not in IXS)
        self.E, self.argv, out = run_fn(rep, m, self.fn, chain=True, over=over, invariant=invariant, **kw)
        self.where = where_fn(m, m.one(r"^hmmcl_sandbox::hmmcl_sandbox::%s$" % name))
        self.ok, self.bad = [], []
        ixa = ix_args(m, name)
        for st, v in out:
            if v[1] == 0:
                self.ok.append(Path(self.E, st, st.events(), v, m, name, self.fn, ixa))
            else:
                self.bad.append((st, st.events()))
        rep.assume("Stored accounts carry the fixed scales and a 0/1 sign flag, as every instruction leaves them (C06, C07).")
        rep.assume("Framework behaviour (account deserialisation and ownership checks, address derivation, calls into the token and system programs, write-back on exit) as modelled in sa/chain.py.")


class Once:
    """report an obligation once per key: failed if it fails on any path"""

    def __init__(self, rep, where):
        self.rep, self.where = rep, where

    def __call__(self, ok, rule, text, detail=""):
        self.rep.check(bool(ok), rule, self.where, text, detail="" if ok else detail)


def same(a, b):
    return a is b or (not isinstance(a, (Poly, Cond)) and a == b)


def const_seed(s):
    return bytes(s[1:]) if isinstance(s, tuple) and s and s[0] == "b" else None


def le8(p):
    k = p.const()
    if k is not None:
        return ("b",) + tuple(int(k).to_bytes(8, "little"))
    return ("le", p)


def seed_is(st, s, want):
    if isinstance(want, tuple) and want and want[0] == "le":
        return isinstance(s, Atom) and s.op == "bytes_le" and zero(st, s.args[0] - want[1])
    if isinstance(want, tuple) and want and want[0] == "u8":
        return isinstance(s, tuple) and s[0] == "u8" and len(s) == 2 and zero(st, s[1] - want[1])
    return same(s, want)


def derived(p, term, want, pid=None):
    """is `term` the address derived from (some constant tag, *want, one bump) under this program -> (tag, bump) or None"""
    if not (isinstance(term, Atom) and term.op == "pda" and same(term.args[1], p.pid)):
        return None
    sd = term.args[0]
    if len(sd) != len(want) + 2 or const_seed(sd[0]) is None:
        return None
    for s, w in zip(sd[1:-1], want):
        if not seed_is(p.st, s, w):
            return None
    if not (isinstance(sd[-1], tuple) and sd[-1][0] == "u8" and len(sd[-1]) == 2):
        return None
    return const_seed(sd[0]), sd[-1][1]


def role_seeds(p, role):
    """seed list (without tag and bump) of each kind of account, in terms of the instruction's own accounts and arguments"""
    a = p.args
    pool = lambda: p.data("pool_state")
    mint = lambda: p.key("lp_token_mint") if "lp_token_mint" in p.roles else pool().f("lp_token_mint").v
    return {
        "pool_state": lambda: [mint()],
        "tick_bitmap": lambda: [p.key("pool_state")],
        "position_state": lambda: [p.key("pool_state"), p.key("user"), ("le", a["lower_tick"]), ("le", a["upper_tick"])],
        "lower_tick_state": lambda: [p.key("pool_state"), ("le", a["lower_tick"])],
        "upper_tick_state": lambda: [p.key("pool_state"), ("le", a["upper_tick"])],
        "current_tick_state": lambda: [p.key("pool_state"), ("le", a["current_tick"])],
        "tick_state": lambda: [p.key("pool_state"), ("le", a["tick"])],
        "token_x_vault": lambda: [p.key("token_x_mint") if "token_x_mint" in p.roles else pool().f("token_x_mint").v, mint()],
        "token_y_vault": lambda: [p.key("token_y_mint") if "token_y_mint" in p.roles else pool().f("token_y_mint").v, mint()],
        "lp_token_vault": lambda: [p.key("pool_state"), mint()],
    }[role]()


PDAS = ("pool_state", "tick_bitmap", "position_state", "lower_tick_state", "upper_tick_state", "current_tick_state", "tick_state",
        "token_x_vault", "token_y_vault", "lp_token_vault")
KIND = {"lower_tick_state": "tick_state", "upper_tick_state": "tick_state", "current_tick_state": "tick_state",
        "token_x_vault": "token_vault", "token_y_vault": "token_vault"}
BUMPF = {"pool_state": "pool_state_bump", "tick_bitmap": "bump", "position_state": "bump", "lower_tick_state": "bump", "upper_tick_state": "bump",
         "current_tick_state": "bump", "tick_state": "bump"}
LPTO = {"deposit": "lp_token_to", "withdraw": "lp_token_user_account"}


def need(run, rep, tag):
    if not run.ok:
        rep.violate(tag + ".reach@" + run.name, run.where, "no completed path of the instruction was found")
    return run.ok


# ---------------------------------------------------------------- C01
def c01(name):
    def go(rep, m):
        run = Run(rep, m, name)
        chk = Once(rep, run.where)
        for p in need(run, rep, "C01"):
            st, a = p.st, p.args
            pool = p.data("pool_state")
            R = "C01.%s." % name
            for role in ("pool_state", "tick_bitmap", "position_state", "lower_tick_state", "upper_tick_state", "current_tick_state", "token_x_vault", "token_y_vault", "lp_token_vault"):
                k = p.key(role)
                d = derived(p, k, role_seeds(p, role))
                chk(d is not None, R + role, "the %s account's address is derived for this pool%s" % (role, ", user and range" if role == "position_state" else ""), detail=show(k)[:300])
            for role, ty in (("pool_state", "PoolState"), ("position_state", "PositionState"), ("lower_tick_state", "TickState"), ("upper_tick_state", "TickState"),
                             ("current_tick_state", "TickState"), ("tick_bitmap", "PoolTickBitmap")):
                e = p.wrap(role)
                nm = E_name(p.E, e[4])
                chk(e[1] == "given" and re.search(r"\b%s\b" % ty, nm) and e[3] in ("Account", "AccountLoader"), R + role + ".type", "%s is checked to be a %s account of this program" % (role, ty), detail=nm)
            eq = lambda x, y, r, t: chk(same(st.norm_val(x), st.norm_val(y)), R + r, t, detail="%s vs %s" % (show(x)[:120], show(y)[:120]))
            eq(p.key("lp_token_mint"), pool.f("lp_token_mint").v, "lp_mint", "the liquidity mint is the pool's")
            for t in "xy":
                u = p.data("user_token_" + t)
                eq(u.f("mint").v, pool.f("token_%s_mint" % t).v, "user_%s.mint" % t, "the user's token account holds the pool's token")
                eq(u.f("owner").v, p.key("user"), "user_%s.owner" % t, "the token account belongs to the signing user")
                eq(p.key("token_%s_vault" % t), pool.f("token_%s_vault" % t).v, "vault_%s" % t, "the vault is the pool's vault of that token")
            eq(p.data(LPTO[name]).f("mint").v, pool.f("lp_token_mint").v, "lp_account.mint", "the liquidity token account holds the pool's liquidity token")
            chk(p.wrap("user")[3] == "Signer", R + "user.signer", "the user has signed")
            chk(p.wrap("token_program")[3] == "Program" and re.search(r"\bToken\b", E_name(p.E, p.wrap("token_program")[4])), R + "token_program", "the token program is checked")
            cur = p.data("current_tick_state").f("tick").n()
            chk(zero(st, cur - a["current_tick"]), R + "current.arg", "the current tick is the tick of the current tick account")
            chk(zero(st, pool.f("pool_global_state").f("tick").n() - a["current_tick"]), R + "current.pool", "the current tick is the pool's")
            chk(gt0(st, a["upper_tick"] - a["lower_tick"]), R + "range", "the range is not empty or inverted")
            for role, arg in (("lower_tick_state", "lower_tick"), ("upper_tick_state", "upper_tick")):
                chk(zero(st, p.data(role).f("tick").n() - a[arg]), R + role + ".tick", "the stored tick is the requested range end")
            for e in p.cpi:
                chk(p.role_of(e[5]) == "token_program", R + "cpi.program", "token movements go through the checked token program", detail=p.role_of(e[5]))
        guards_before_tokens(run, chk, R)
    return go


def guards_before_tokens(run, chk, R):
    """a rejected instruction has not asked for any token movement, unless a call into another program itself failed"""
    for st, ev in run.bad:
        late = [e for e in ev if e[0] == "cpi"]
        fails = [e for e in ev if e[0] == "fail"]
        chk(not late or fails, R + "order", "no token movement precedes a guard of the program that rejects the instruction",
            detail="%s before a rejection" % (late[0][1] if late else ""))


def E_name(E, ty):
    return E.types[ty]["name"]


# ---------------------------------------------------------------- C02
def c02(rep, m):
    made, used, lens = {}, {}, {}
    for name in instructions(m):
        run = Run(rep, m, name)
        chk = Once(rep, run.where)
        for p in need(run, rep, "C02"):
            for role in [r for r in PDAS if r in p.roles]:
                k = p.key(role)
                d = derived(p, k, role_seeds(p, role))
                fresh = role in p.roles and p.acct.get(p.roles[role].id, (0, ""))[1] == "fresh"
                R = "C02.%s.%s" % (name, role)
                chk(d is not None, R, "the account's address is derived from the seeds of its kind", detail=show(k)[:300])
                if d is None:
                    continue
                tag, bump = d
                kind = KIND.get(role, role)
                (made if fresh else used).setdefault(kind, {}).setdefault(tag, set()).add("%s.%s" % (name, role))
                lens[kind] = (tag, len(tag) + sum(8 if isinstance(w, tuple) and w and w[0] == "le" else 32 for w in role_seeds(p, role)))
                b = bump.atom()
                canonical = b is not None and b.op == "bump" and same(b.args[0], k.args[0][:-1]) and same(b.args[1], p.pid)
                if fresh or role not in BUMPF:
                    chk(canonical, R + ".bump", "the bump is the canonical one of the same seeds", detail=show(bump)[:200])
                else:
                    st0 = p.data(role).f(BUMPF[role]).n()
                    chk(zero(p.st, bump - st0) or canonical, R + ".bump", "the bump is the one recorded in the account", detail=show(bump)[:200])
                if fresh and role in BUMPF:
                    w = p.new(role) or loader_new(p, role)
                    ok = w is not None and zero(p.st, w.f(BUMPF[role]).n() - bump)
                    chk(ok, R + ".bump.stored", "the bump recorded at creation is the one of the address", detail=show(w.f(BUMPF[role]).n())[:200] if w is not None else "nothing stored")
    w = "lib.rs"
    for kind in sorted(set(made) | set(used)):
        tags = sorted(set(made.get(kind, {})) | set(used.get(kind, {})))
        rep.check(kind in made, "C02.created@" + kind, w, "accounts of kind %s are created by some instruction" % kind)
        rep.check(len(tags) == 1, "C02.tag@" + kind, w, "every instruction derives %s accounts with the same tag" % kind, detail=str({t: sorted(set(made.get(kind, {}).get(t, ())) | set(used.get(kind, {}).get(t, ()))) for t in tags})[:400])
    ks = sorted(lens)
    for i, x in enumerate(ks):
        for y in ks[i + 1:]:
            (tx, nx), (ty, ny) = lens[x], lens[y]
            n = min(len(tx), len(ty))
            rep.check(nx != ny or tx[:n] != ty[:n], "C02.distinct@%s/%s" % (x, y), w, "seeds of %s and %s accounts cannot coincide" % (x, y))


def loader_new(p, role):
    """contents of a zero-copy account at the end of the path"""
    i = p.roles[role]
    v = p.st.env.get(("Z", i))
    if v is None:
        return None
    t = p.E.types[p.acct[i.id][4]]
    dty = next(a for a in t["args"] if isinstance(a, int) and p.E.types[a].get("krate") == "hmmcl_sandbox")
    return V(p.E, p.st, p.st.norm_val(v), dty)


# ---------------------------------------------------------------- token movements
def floor_amount(p, n, sc=SCALE):
    v = decmodels.to_scale(p.E, p.n(n), num(sc), ZERO, False)
    return p.n(v[1] if isinstance(v, tuple) else v)


def math(p, m, name, *args):
    """the value of a pricing function on these (12-decimal) arguments, as the analysed code sees it"""
    v = p.E.opaque("fn", (name,) + tuple(args), dec_type(m))
    return p.st.norm_val(v)


def dec_type(m):
    return m.type_by_path("hmmcl_sandbox::decimal::Decimal")[0]["id"]


def D(n):
    if isinstance(n, tuple):
        return n
    return ("d", n, num(SCALE))


def prices(p, m):
    return [math(p, m, "tick_to_rp", p.args[a]) for a in ("current_tick", "lower_tick", "upper_tick")]


def find_cpi(p, op, pred):
    return [e for e in p.cpi if e[1] == op and pred(dict(e[2]))]


def pool_signed(p, e):
    """signed with the pool's own address seeds"""
    sd = e[4]
    if len(sd) != 1:
        return False
    k = p.key("pool_state")
    return isinstance(k, Atom) and k.op == "pda" and same(tuple(p.st.norm_val(s) for s in sd[0]), k.args[0])


def delta(p, m, name):
    """signed liquidity change (12-decimal number)"""
    a = p.args
    if name == "deposit":
        rp, lo, up = prices(p, m)
        return math(p, m, "liq_from_x_y_rp_rng", D(a["token_x_amount"]), D(a["token_y_amount"]), rp, lo, up)[1]
    return -a[ix_args(m, name)[3][0]]


def credited(p, t):
    f = p.new("position_state").f("last_collected_fee")
    return p_dec(p.n(f.f("f_" + t).n() + f.f("h_" + t).n()), num(SCALE))


def moves(name):
    tag = {"deposit": "C03", "withdraw": "C04"}[name]

    def go(rep, m):
        run = Run(rep, m, name)
        chk = Once(rep, run.where)
        for p in need(run, rep, tag):
            st = p.st
            R = "%s." % tag
            L = delta(p, m, name)
            rp, lo, up = prices(p, m)
            dep = name == "deposit"
            ops = sorted(e[1] for e in p.cpi)
            chk(ops == sorted(["mint_to" if dep else "burn", "transfer", "transfer"]), R + "calls", "exactly one %s and two transfers happen" % ("mint" if dep else "burn"), detail=str(ops))
            lp = [e for e in p.cpi if e[1] == ("mint_to" if dep else "burn")]
            for e in lp:
                acc = {k: p.role_of(v) for k, v in e[2]}
                want = {"mint": "lp_token_mint", "to": LPTO[name], "authority": "pool_state" if dep else "user"}
                chk(acc == want, R + "lp.accounts", "liquidity tokens are %s" % ("minted to the recipient under the pool's authority" if dep else "burnt from the user's account under the user's authority"), detail=str(acc))
                chk(pool_signed(p, e) if dep else True, R + "lp.signed", "the mint is signed with the pool's address")
                amt = e[3][0]
                want = floor_amount(p, L) if dep else p.args[ix_args(m, name)[3][0]]
                chk(zero(st, amt - want), R + "lp.amount", "the liquidity tokens %s are %s" % (("minted", "the whole-token floor of the liquidity") if dep else ("burnt", "exactly the requested amount")), detail=show(p.n(amt - want))[:300])
            for t in "xy":
                mine = [e for e in p.cpi if e[1] == "transfer" and any(p.role_of(v) in ("user_token_" + t, "token_%s_vault" % t) for k, v in e[2] if k in ("from", "to"))]
                chk(len(mine) == 1, R + t + ".once", "one transfer of this token", detail=str(len(mine)))
                for e in mine[:1]:
                    acc = {k: p.role_of(v) for k, v in e[2]}
                    u, v = "user_token_" + t, "token_%s_vault" % t
                    want = {"from": u, "to": v, "authority": "user"} if dep else {"from": v, "to": u, "authority": "pool_state"}
                    chk(acc == want, R + t + ".accounts", "tokens go from %s to %s under the right authority" % ((u, v) if dep else (v, u)), detail=str(acc))
                    chk(True if dep else pool_signed(p, e), R + t + ".signed", "the payment is signed with the pool's address")
                    amt = e[3][0]
                    base = math(p, m, t + "_from_l_rp_rng", D(L if dep else -L), rp, lo, up)[1]
                    fee = credited(p, t)
                    want = floor_amount(p, base - fee if dep else base + fee)
                    chk(zero(st, amt - want), R + t + ".amount", "the amount moved is the whole-token floor of the amount for the liquidity %s the credited fees" % ("less" if dep else "plus"), detail=show(p.n(amt - want))[:400])
                    if dep:
                        off, deb = p.args["token_%s_amount" % t], base - fee
                        chk(ge0(st, off - amt) or (zero(st, amt - want) and ge0(st, deb) and ge0(st, off - deb)), R + t + ".limit", "the amount debited does not exceed the amount offered")
    return go


# ---------------------------------------------------------------- C05
def c05(name):
    def go(rep, m):
        run = Run(rep, m, name)
        chk = Once(rep, run.where)
        R = "C05.%s." % name
        for p in need(run, rep, "C05"):
            st = p.st
            L = delta(p, m, name)
            old = lambda w, f: p_dec(w.f(f).n(), num(SCALE))
            if name == "deposit":
                chk(ge0(st, L), R + "liquidity", "the liquidity added is not negative")
                rp, lo, up = prices(p, m)
                for t in "xy":
                    base = math(p, m, t + "_from_l_rp_rng", D(L), rp, lo, up)[1]
                    deb = base - credited(p, t)
                    off = p.args["token_%s_amount" % t]
                    chk(ge0(st, off - deb) or ge0(st, off - floor_amount(p, deb)), R + t + ".offered", "the amount to debit was checked against the amount offered")
                    chk(ge0(st, deb), R + t + ".negative", "the amount to debit is not negative")
            chk(ge0(st, L + old(p.data("position_state"), "liquidity")), R + "position", "the position's liquidity stays non-negative")
            for role in ("lower_tick_state", "upper_tick_state"):
                chk(ge0(st, L + old(p.data(role), "liq_gross")), R + role, "the gross liquidity of the range end stays non-negative")
            g = p.data("pool_state").f("pool_global_state")
            a = p.args
            for s, (b1, b2) in split_all(st, [c_ge(a["current_tick"] - a["lower_tick"]), c_gt(a["upper_tick"] - a["current_tick"])]):
                if b1 and b2:
                    chk(ge0(s, L + old(g, "liquidity")), R + "pool", "the pool's liquidity stays non-negative when the range is in use")
        guards_before_tokens(run, chk, R)
    return go


# ---------------------------------------------------------------- C06
def leafs(w, pre=""):
    """[(field path, value)] of a struct, nested structs opened"""
    t = w.E.types[w.ty]
    out = []
    for n, ft in t["variants"][0]["fields"]:
        x = w.f(n)
        tt = w.E.types[ft]
        if tt["k"] == "adt" and tt["adt"] == "struct" and tt.get("krate") == "hmmcl_sandbox" and not w.E.is_decimal(ft):
            out += leafs(x, pre + n + ".")
        else:
            out.append((pre + n, x.v))
    return out


def veq(st, x, y):
    x, y = st.norm_val(x), st.norm_val(y)
    if isinstance(x, Poly) and isinstance(y, Poly):
        return zero(st, x - y)
    return same(x, y)


def stored_number(p, v, n, scale_v):
    """does the stored magnitude v at stored scale represent the non-negative number n?"""
    st = p.st
    n = p.n(n)
    if not zero(st, scale_v - num(SCALE)):
        return False
    if not ge0(st, n):
        return False
    want = p.E.dec_field(st, ("d", n, num(SCALE)), 0)
    return zero(st, v - want)


def c06(name):
    def go(rep, m):
        run = Run(rep, m, name)
        chk = Once(rep, run.where)
        R = "C06.%s." % name
        for p in need(run, rep, "C06"):
            st, a = p.st, p.args
            L = delta(p, m, name)
            unsigned = lambda w, f: p_dec(w.f(f).n(), num(SCALE))
            last = {}
            for i, e in enumerate(p.persisted):
                last[e[1].id] = i
            for e in p.persisted:
                chk(p.role_of(e[1]) in ("pool_state", "position_state", "lower_tick_state", "upper_tick_state"), R + "persist.set",
                    "only the pool, the position and the two range ends are written back (any other account written back may be one of them and undo its update)", detail=p.role_of(e[1]))
            for role in ("pool_state", "position_state", "lower_tick_state", "upper_tick_state"):
                chk(p.new(role) is not None, R + role + ".stored", "the account is written back")
            pos0, pos1 = p.data("position_state"), p.new("position_state")
            if pos1 is not None:
                chk(stored_number(p, pos1.f("liquidity").n(), L + unsigned(pos0, "liquidity"), pos1.f("liq_scale").n()), R + "position.liquidity", "the stored liquidity is the old one plus the change",
                    detail=show(pos1.f("liquidity").v)[:300])
                frame(chk, p, pos0, pos1, ("liquidity", "liq_scale", "last_collected_fee."), R + "position.")
                chk(zero(st, pos1.f("last_collected_fee").f("fee_scale").n() - num(SCALE)), R + "position.fee_scale", "the fee scale stays fixed")
            for role, sg in (("lower_tick_state", 1), ("upper_tick_state", -1)):
                t0, t1 = p.data(role), p.new(role)
                if t1 is None:
                    continue
                chk(stored_number(p, t1.f("liq_gross").n(), L + unsigned(t0, "liq_gross"), t1.f("liq_gross_scale").n()), R + role + ".gross", "the stored gross liquidity is the old one plus the change", detail=show(t1.f("liq_gross").v)[:300])
                net0 = p.E.dec_build(st, t0.f("liq_net").n(), num(SCALE), c_ne(t0.f("liq_net_neg").n()))[1]
                for s, b in split_all(st, [c_ne(t0.f("liq_net_neg").n())]):
                    o = unsigned(t0, "liq_net")
                    n = s.norm((-o if b[0] else o) + L.scale(sg))
                    for s2, bb in split_all(s, [c_gt(-n)]):
                        want = p.E.dec_field(s2, ("d", s2.norm(n), num(SCALE)), 0)
                        v = s2.norm(t1.f("liq_net").n())
                        flag = s2.norm(t1.f("liq_net_neg").n())
                        for s3, v3 in settle(s2, ("s", v, want, flag)):
                            chk(zero(s3, v3[1] - v3[2]) and zero(s3, s3.norm(t1.f("liq_net_scale").n()) - num(SCALE)), R + role + ".net", "the stored net liquidity is the old one %s the change" % ("plus" if sg > 0 else "minus"),
                                detail=show(v3[1])[:200] + " instead of " + show(v3[2])[:200])
                            chk(zero(s3, v3[3] - num(1 if bb[0] else 0)) or (zero(s3, v3[2]) ), R + role + ".net.sign", "the sign of the net liquidity is stored with it", detail=show(v3[3])[:100])
                frame(chk, p, t0, t1, ("liq_gross", "liq_gross_scale", "liq_net", "liq_net_scale", "liq_net_neg"), R + role + ".")
            g0, g1 = p.data("pool_state"), p.new("pool_state")
            if g1 is not None:
                frame(chk, p, g0, g1, ("pool_global_state.liquidity", "pool_global_state.liq_scale"), R + "pool.")
                x0, x1 = g0.f("pool_global_state"), g1.f("pool_global_state")
                for s, (b1, b2) in split_all(st, [c_ge(a["current_tick"] - a["lower_tick"]), c_gt(a["upper_tick"] - a["current_tick"])]):
                    q = Path.__new__(Path)
                    q.__dict__.update(p.__dict__)
                    q.st = s
                    if b1 and b2:
                        ok = stored_number(q, s.norm(x1.f("liquidity").n()), L + unsigned(x0, "liquidity"), s.norm(x1.f("liq_scale").n()))
                        chk(ok, R + "pool.in-range", "the pool's liquidity is the old one plus the change when the current tick is in the range", detail=show(x1.f("liquidity").v)[:300])
                    else:
                        ok = zero(s, x1.f("liquidity").n() - x0.f("liquidity").n()) and zero(s, s.norm(x1.f("liq_scale").n()) - num(SCALE))
                        chk(ok, R + "pool.out-of-range", "the pool's liquidity is unchanged when the current tick is outside the range", detail=show(x1.f("liquidity").v)[:300])
    return go


def frame(chk, p, w0, w1, allowed, R):
    o, n = dict(leafs(w0)), dict(leafs(w1))
    for f, v in n.items():
        if any(f == x or (x.endswith(".") and f.startswith(x)) for x in allowed):
            continue
        chk(veq(p.st, v, o[f]), R + "frame." + f, "no other stored field changes", detail="%s: %s became %s" % (f, show(o[f])[:100], show(v)[:100]))


# ---------------------------------------------------------------- C07
INIT = ("initialize_pool", "initialize_tick", "initialize_bitmap", "create_position")
ZEROKEY = "zero key"


def recorded(p, m, name):
    """{role: {field: expected value}} of the accounts an initialisation creates; unlisted fields start at zero"""
    a = p.args
    bump = lambda r: p.key(r).args[0][-1][1] if isinstance(p.key(r), Atom) and p.key(r).op == "pda" else None
    if name == "initialize_pool":
        rp = math(p, m, "tick_to_rp", a["tick"])
        v = decmodels.to_scale(p.E, rp[1], rp[2], num(SCALE), False)
        return {"pool_state": {
            "authority": p.key("authority"), "token_x_mint": p.key("token_x_mint"), "token_y_mint": p.key("token_y_mint"), "lp_token_mint": p.key("lp_token_mint"),
            "token_x_vault": p.key("token_x_vault"), "token_y_vault": p.key("token_y_vault"),
            "pool_state_bump": bump("pool_state"), "token_x_vault_bump": bump("token_x_vault"), "token_y_vault_bump": bump("token_y_vault"), "lp_token_vault_bump": bump("lp_token_vault"),
            "pool_global_state.tick": a["tick"], "pool_global_state.root_price": p.E.dec_field(p.st, v, 0),
            "pool_global_state.liq_scale": num(SCALE), "pool_global_state.rp_scale": num(SCALE), "pool_global_state.global_fee.fee_scale": num(SCALE)}}
    if name == "initialize_tick":
        return {"tick_state": {"tick": a["tick"], "bump": bump("tick_state"), "liq_net_scale": num(SCALE), "liq_gross_scale": num(SCALE), "tick_fee.fee_scale": num(SCALE)}}
    if name == "create_position":
        return {"position_state": {"lower_tick": a["lower_tick"], "upper_tick": a["upper_tick"], "bump": bump("position_state"), "liq_scale": num(SCALE), "last_collected_fee.fee_scale": num(SCALE)}}
    return {"tick_bitmap": {"bump": bump("tick_bitmap")}}


def c07(name):
    def go(rep, m):
        run = Run(rep, m, name)
        chk = Once(rep, run.where)
        R = "C07.%s." % name
        for p in need(run, rep, "C07"):
            st = p.st
            for role, want in recorded(p, m, name).items():
                w = p.new(role) if p.wrap(role)[3] == "Account" else loader_new(p, role)
                chk(w is not None, R + role + ".stored", "the new account's contents are written")
                if w is None:
                    continue
                chk(p.wrap(role)[1] == "fresh", R + role + ".fresh", "the account is created by this instruction")
                for f, v in leafs(w):
                    if f in want:
                        ok = want[f] is not None and veq(st, v, want[f])
                        t = "the field records what the instruction was given or derived"
                    else:
                        ok = is_zero_value(st, v)
                        t = "amounts and counters start at zero"
                    chk(ok, R + role + "." + f, t, detail="%s instead of %s" % (show_any(v), show_any(want.get(f, "zero"))))
                for f in want:
                    chk(f in dict(leafs(w)), R + role + "." + f + ".kept", "the field is part of the stored contents")
            created(p, chk, R)
            if name == "initialize_pool":
                mint = p.data("lp_token_mint")
                inits = {}
                for e in p.cpi:
                    if e[1] == "initialize_account":
                        acc = {k: p.role_of(v) for k, v in e[2]}
                        inits.setdefault(acc["account"], []).append((acc["mint"], acc["authority"], p.role_of(e[5])))
                for v, mn in (("token_x_vault", "token_x_mint"), ("token_y_vault", "token_y_mint"), ("lp_token_vault", "lp_token_mint")):
                    chk(inits.get(v) == [(mn, "pool_state", "token_program")], R + v + ".owner", "the vault is created for its token under the pool's authority", detail=str(inits.get(v)))
                    chk(p.wrap(v)[1] == "fresh", R + v + ".fresh", "the vault is created by this instruction")
                auth = mint_authority(p, "lp_token_mint")
                chk(auth is not None and same(auth, p.key("pool_state")), R + "lp_mint.authority", "the liquidity mint's authority is the pool", detail=show_any(auth))
                chk(p.wrap("authority")[3] == "Signer", R + "authority.signer", "the recorded authority has signed")
            if name == "create_position":
                a = p.args
                chk(p.wrap("user")[3] == "Signer", R + "user.signer", "the position's owner has signed")
                chk(gt0(st, a["upper_tick"] - a["lower_tick"]), R + "range", "the range is not empty or inverted")
    return go


def mint_authority(p, role):
    w = p.data(role).f("mint_authority")
    E, st = p.E, p.st
    try:
        return st.norm_val(chain.deref(E, st, E.step(st, st.norm_val(w.v), ("f", 0, 1))))
    except Stuck:
        return None


def show_any(v):
    try:
        return show(v)[:200]
    except Exception:
        return str(v)[:200]


def is_zero_value(st, v):
    v = st.norm_val(v)
    if v is False:
        return True
    if isinstance(v, Poly):
        return zero(st, v)
    if isinstance(v, Atom):
        return v.op == "const" and v.args[0] == "zero"
    if isinstance(v, tuple) and v:
        if v[0] == "R":
            return is_zero_value(st, v[1])
        if v[0] == "s":
            return all(is_zero_value(st, x) for x in v[1:])
    return False


def made_on(p):
    """{role: [(space, owner, payer roles)]} of accounts created on the path"""
    out = {}
    for e in p.cpi:
        acc = {k: p.role_of(v) for k, v in e[2]}
        if e[1] == "system_create_account":
            out.setdefault(acc["to"], []).append((e[3][1], e[3][2], acc["from"]))
        elif e[1] == "system_allocate":
            out.setdefault(acc["account_to_allocate"], []).append((e[3][0], None, None))
        elif e[1] == "system_assign":
            r = out.setdefault(acc["account_to_assign"], [])
            if r and r[-1][1] is None:
                r[-1] = (r[-1][0], e[3][0], None)
            else:
                r.append((None, e[3][0], None))
        elif e[1] == "system_transfer":
            out.setdefault(acc["to"] + " (paid)", []).append(acc["from"])
    return out


def created(p, chk, R):
    """every new account: created once, owned by the right program, paid for by the signing payer, signed with its own seeds"""
    made = made_on(p)
    for role in p.roles:
        e = p.acct.get(p.roles[role].id)
        if e is None or e[1] != "fresh":
            continue
        mk = made.get(role, [])
        chk(len(mk) == 1, R + role + ".created", "the account is created exactly once", detail=str(len(mk)))
        token = p.E.types[e[4]]["name"].find("TokenAccount") >= 0
        for space, owner, payer in mk[:1]:
            want = p.key("token_program") if token else p.pid
            chk(owner is not None and same(p.st.norm_val(owner), want), R + role + ".program", "the account is handed to the %s program" % ("token" if token else "pool"), detail=show_any(owner))
            pay = [payer] if payer else made.get(role + " (paid)", [])
            chk(set(pay) <= {"payer"}, R + role + ".payer", "the account is paid for by the payer", detail=str(pay))
        for c in p.cpi:
            if c[1] in ("system_create_account", "system_allocate", "system_assign"):
                acc = {k: p.role_of(v) for k, v in c[2]}
                if role in acc.values():
                    k = p.key(role)
                    ok = len(c[4]) == 1 and isinstance(k, Atom) and k.op == "pda" and same(tuple(p.st.norm_val(x) for x in c[4][0]), k.args[0])
                    chk(ok, R + role + ".seeds", "the creation is signed with the account's own seeds")
    chk(p.wrap("payer")[3] == "Signer", R + "payer.signer", "the payer has signed")


# ---------------------------------------------------------------- C10
TOKEN_LEN = 165


def stored_size(E, ty):
    """serialised size of the largest value of a type, or None when unbounded"""
    t = E.types[ty]
    k = t["k"]
    if k in ("uint", "int"):
        return 8 if t["name"] in ("usize", "isize") else t["bits"] // 8
    if k == "bool":
        return 1
    if k == "array":
        e = stored_size(E, t["elem"])
        return None if e is None else e * t["len"]
    if k == "adt":
        if t["path"].endswith("::Pubkey"):
            return 32
        if t["adt"] == "struct" and t.get("krate") == "hmmcl_sandbox":
            fs = [stored_size(E, ft) for _, ft in t["variants"][0]["fields"]]
            return None if None in fs else sum(fs)
        if t["adt"] == "enum" and (t.get("krate") == "hmmcl_sandbox" or t["path"].endswith("option::Option")):
            vs = [[stored_size(E, ft) for _, ft in v["fields"]] for v in t["variants"]]
            return None if any(None in v for v in vs) else 1 + max(sum(v) for v in vs)
    return None


def c10(name):
    def go(rep, m):
        run = Run(rep, m, name)
        chk = Once(rep, run.where)
        R = "C10.%s." % name
        for p in need(run, rep, "C10"):
            made = made_on(p)
            for role in p.roles:
                e = p.acct.get(p.roles[role].id)
                if e is None or e[1] != "fresh":
                    continue
                t = p.E.types[e[4]]
                loader = e[3] == "AccountLoader"
                if loader:
                    dty = next(a for a in t["args"] if isinstance(a, int) and p.E.types[a].get("krate") == "hmmcl_sandbox")
                    want = 8 + p.E.types[dty]["size"]
                else:
                    dty = t["variants"][0]["fields"][0][1]
                    if p.E.types[dty].get("krate") == "anchor_spl":
                        want = TOKEN_LEN
                    else:
                        n = stored_size(p.E, dty)
                        chk(n is not None, R + role + ".bounded", "the serialised contents have a bounded size", detail=p.E.types[dty]["name"])
                        want = None if n is None else 8 + n
                mk = made.get(role, [])
                chk(len(mk) == 1, R + role + ".created", "the account is allocated exactly once", detail=str(len(mk)))
                for space, owner, payer in mk[:1]:
                    k = p.n(space).const() if space is not None else None
                    chk(k is not None and want is not None and k >= want, R + role + ".space", "the allocated size covers the type tag and the contents", detail="%s bytes allocated, %s needed" % (k, want))
    return go


# ---------------------------------------------------------------- C11
SYSTEM = ("system_create_account", "system_transfer", "system_allocate", "system_assign")


def c11(name):
    def go(rep, m):
        run = Run(rep, m, name)
        chk = Once(rep, run.where)
        R = "C11.%s." % name
        mover = name in IXS
        for p in need(run, rep, "C11"):
            kind = {i: e[1] for i, e in p.acct.items()}
            wrap = {i: e[3] for i, e in p.acct.items()}
            for e in p.cpi:
                acc = dict(e[2])
                who = {k: p.role_of(v) for k, v in e[2]}
                if e[1] in SYSTEM:
                    src = acc.get("from")
                    dst = acc.get("to") or acc.get("account_to_allocate") or acc.get("account_to_assign")
                    chk(src is None or wrap.get(src.id) == "Signer", R + "rent.payer", "lamports are only taken from an account that signed", detail=str(who))
                    chk(not mover and kind.get(dst.id) == "fresh", R + "rent.target", "system calls only create accounts", detail="%s %s" % (e[1], who))
                    continue
                if e[1] == "initialize_account":
                    chk(kind.get(acc["account"].id) == "fresh", R + "token.new", "only accounts created here are set up as token accounts", detail=str(who))
                    continue
                chk(mover, R + "tokens", "only deposit and withdraw move, mint or burn tokens", detail="%s %s" % (e[1], who))
                chk(e[1] in ("transfer", "mint_to", "burn"), R + "token.call", "token authorities, freezes and approvals are never changed", detail="%s %s" % (e[1], who))
                au = acc.get("authority")
                ok = au is not None and (wrap.get(au.id) == "Signer" or (p.role_of(au) == "pool_state" and pool_signed(p, e)))
                chk(ok, R + e[1] + ".authority", "what is spent is spent under a signer's own authority or the pool's", detail=str(who))
                if e[1] in ("transfer", "burn") and au is not None and wrap.get(au.id) == "Signer" and p.roles.get("user") is not None:
                    src = acc["from"] if "from" in acc else acc["to"]
                    chk(p.role_of(au) == "user" and (p.role_of(src).startswith("user_token") or p.role_of(src) in LPTO.values()), R + e[1] + ".owner", "a signer only spends from the accounts it named", detail=str(who))
            if not mover:
                for e in p.persisted:
                    chk(kind.get(e[1].id) == "fresh", R + "persist", "no account that already existed is changed", detail=p.role_of(e[1]))
                for e in p.events:
                    if e[0] == "load":
                        chk(e[1] == "load" or kind.get(e[2].id) == "fresh", R + "load", "no zero-copy account that already existed is opened for writing", detail="%s %s" % (e[1], p.role_of(e[2])))
    return go


def all_instructions(rule):
    """the rule on every instruction of the program, whatever it is called"""
    def go(rep, m):
        names = instructions(m)
        for n in IXS + INIT:
            rep.check(n in names, rule.__name__.upper() + ".found@" + n, "lib.rs", "the instruction %s exists" % n)
        for n in names:
            rule(n)(rep, m)
    return go


# ---------------------------------------------------------------- C08
def c08(name):
    def go(rep, m):
        run = Run(rep, m, name)
        chk = Once(rep, run.where)
        R = "C08.%s." % name
        for p in need(run, rep, "C08"):
            a = p.args
            lo, up = p.data("lower_tick_state").f("tick_fee"), p.data("upper_tick_state").f("tick_fee")
            gl = p.data("pool_state").f("pool_global_state").f("global_fee")
            new = p.new("position_state").f("last_collected_fee")
            dec_ = lambda w, f: p_dec(w.f(f).n(), num(SCALE))
            for s, (bl, bu) in split_all(p.st, [c_ge(a["current_tick"] - a["lower_tick"]), c_ge(a["current_tick"] - a["upper_tick"])]):
                for f in ("f_x", "f_y", "h_x", "h_y"):
                    g, l, u = dec_(gl, f), dec_(lo, f), dec_(up, f)
                    below = l if bl else g - l
                    above = g - u if bu else u
                    n = s.norm(g - below - above)
                    v = s.norm(new.f(f).n())
                    want = p.E.dec_field(s, ("d", n, num(SCALE)), 0)
                    ok = False
                    for s2, x in settle(s, ("s", v, want)):
                        ok = zero(s2, x[1] - x[2])
                        if not ok:
                            break
                    chk(ok, R + f, "the stored growth of %s is global minus below the lower and above the upper tick" % f, detail="%s instead of %s" % (show(v)[:200], show(want)[:200]))
                    chk(ge0(s, n), R + f + ".sign", "the growth stored without a sign is not negative", detail=show(n)[:200])
    return go


# ---------------------------------------------------------------- C09
def record(v, tag):
    """the serialised struct inside an emitted byte string"""
    if isinstance(v, Atom):
        if v.op == "serialised":
            return v.args[0], v.args[1]
        for x in v.args:
            r = record(x, tag)
            if r:
                return r
    return None


def c09(name):
    want = {"deposit": ("LiquidityAdded", {"tokens_x_transferred": "x", "tokens_y_transferred": "y", "lp_tokens_minted": "lp"}),
            "withdraw": ("LiquidityRemoved", {"tokens_x_credited": "x", "tokens_y_credited": "y", "lp_tokens_burnt": "lp"})}[name]

    def go(rep, m):
        run = Run(rep, m, name)
        chk = Once(rep, run.where)
        R = "C09.%s." % name
        ty = [t for t in m.types.values() if t["k"] == "adt" and t.get("path") == "hmmcl_sandbox::events::" + want[0]][0]
        names = [n for n, _ in ty["variants"][0]["fields"]]
        for p in need(run, rep, "C09"):
            rec = [record(e[1], want[0]) for e in p.emit]
            chk(len(rec) == 1 and rec[0] is not None and rec[0][0] == want[0], R + "one", "exactly one %s record is emitted" % want[0], detail=str([r and r[0] for r in rec]))
            if len(rec) != 1 or rec[0] is None or rec[0][0] != want[0]:
                continue
            order = [e[0] for e in p.events if e[0] in ("cpi", "emit")]
            chk(order == ["cpi"] * 3 + ["emit"], R + "after", "the record follows the movements it describes", detail=str(order))
            amounts = {}
            for e in p.cpi:
                if e[1] in ("mint_to", "burn"):
                    amounts["lp"] = e[3][0]
                else:
                    r = " ".join(p.role_of(v) for k, v in e[2] if k in ("from", "to"))
                    amounts["x" if "_x" in r and "_y" not in r else "y" if "_y" in r and "_x" not in r else "?"] = e[3][0]
            vals = dict(zip(names, p.st.norm_val(rec[0][1])[1:]))
            for f, k in want[1].items():
                ok = k in amounts and zero(p.st, vals[f] - amounts[k])
                chk(ok, R + f, "the record states the amount that moved", detail="%s instead of %s" % (show(vals[f])[:200], show(amounts.get(k))[:200]))
    return go


# ---------------------------------------------------------------- C12
def c12(name):
    def go(rep, m):
        run = Run(rep, m, name, signed_digits=True)
        R = "C12.%s." % name
        seen = set()
        for p in need(run, rep, "C12"):
            for e in p.events:
                if e[0] != "mag":
                    continue
                n = p.n(e[1])
                site = (e[2], e[3])
                where = "%s %s" % (e[2], m.src(e[3]) if e[3] else "")
                rep.check(ge0(p.st, n), R + "abs", where, "a magnitude taken without its sign is of a non-negative number", detail="" if ge0(p.st, n) else show(n)[:200])
            chk = Once(rep, run.where)
            new = p.new("position_state")
            signed(rep, p, chk, R)
    return go


def signed(rep, p, chk, R):
    """every stored or paid magnitude: of a number known non-negative on the path, or stored with its sign"""
    st = p.st

    def mags(v):
        return [a for a in subatoms(v, ("mant",))]
    for e in p.persisted:
        t = p.E.types[p.acct[e[1].id][4]]
        w = V(p.E, st, st.norm_val(e[3]), t["variants"][0]["fields"][0][1])
        fs = dict(leafs(w))
        for f, v in fs.items():
            for a in mags(v):
                n = a.args[0]
                flag = fs.get(f + "_neg")
                pos, neg = st.split(c_ge(st.norm(n)))
                ok = neg is None or flag is not None and all(s.decide(c_eq(x - num(1))) is True for s, x in settle(neg, flag))
                chk(ok, R + "store." + p.role_of(e[1]) + "." + f, "a stored magnitude is of a non-negative number or has its sign stored next to it", detail=show(n)[:200])
    for e in p.cpi:
        for x in e[3]:
            for a in mags(x):
                chk(ge0(st, a.args[0]), R + "pay." + e[1], "a paid magnitude is of a non-negative number", detail=show(a.args[0])[:200])


IXS = ("deposit", "withdraw")
RULES = {
    "C01": [(n, c01(n)) for n in IXS],
    "C02": [("all", c02)],
    "C03": [("deposit", moves("deposit"))],
    "C04": [("withdraw", moves("withdraw"))],
    "C05": [(n, c05(n)) for n in IXS],
    "C06": [(n, c06(n)) for n in IXS],
    "C07": [(n, c07(n)) for n in INIT],
    "C10": [(n, c10(n)) for n in INIT],
    "C11": [("all", all_instructions(c11))],
    "C08": [(n, c08(n)) for n in IXS],
    "C09": [(n, c09(n)) for n in IXS],
    "C12": [(n, c12(n)) for n in IXS],
}
