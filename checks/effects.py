"""P35, P40, P42: what the handlers leave behind - identity of wallets and sub-accounts, movement of funds, signatures lent to inner calls."""
from engine.spec import *
from .lookup import ldv
from . import handlers as H
from .handlers import *
from .handlers import HEADER, AI_KEY, AI_OWNER, AI_LAMP, AI_LEN, AI_DATA, PROGRAM, SYSTEM, TABLE, AUTHED

SPL = H.b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA")
SPL2022 = H.b58("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb")

def field(adt, h, name): return H.field_at(h, adt, name)[0]
def swig_off(h, name): return AI_DATA + field("Swig", h, name)

# ---------------------------------------------------------------- P35
def p35(R):
    R.rule("Identity: on every successful path of every instruction on an existing wallet the wallet account's tag, bump, id, wallet bump and sub-account counter are afterwards what they were, except that closing retires the tag, migration (only on a wallet in the old format) sets the wallet bump to the requested one and the counter to 0, and V2 sub-account creation adds exactly 1 to the counter. V2 creation gives the new sub-account the counter's old value: the whole 72-byte state is tag 2, the requested bumps, enabled, that id, this wallet's id and the asset account's key, and the creating role ends up with SubAccountV2All over exactly that id. V1 creation fills the role's unassigned record with the sub-account's key, the requested bump, enabled, the role's id and this wallet's id, and nothing else.")
    H.base_assumptions(R)
    def f(R, h, s, k):
        name, adt, fld = TABLE[k]; P_ = lambda x: s.facts.prove(x); a0 = h.acct(0)
        def need(ok, what, text): R.ob(ok, "%s %s" % (name, what), describe(s, h.ip, "%s succeeds on a path where %s" % (name, text)), sample={"instruction": name, "fact": what})
        def kept(fields, n):
            for nm, w in zip(fields, n):
                o = swig_off(h, nm)
                now = final(h, s, a0, K(o), w); old = raw_bytes(h, a0, o, w)
                need(same_bytes(s, now, old), "keeps " + nm, "the wallet's `%s` afterwards is %s" % (nm, fmt(now)))
        sz = lambda nm: H.field_at(h, "Swig", nm)[1]
        ident = ("bump", "id")
        if k == 15:
            need(final_ints(h, s, a0, K(AI_DATA), 1) == [255] or not closed(h, s), "tag", "the wallet's tag is not retired")
            return
        need(same_bytes(s, final(h, s, a0, K(AI_DATA), 1), raw_bytes(h, a0, AI_DATA, 1)) or final_ints(h, s, a0, K(AI_DATA), 1) == [1], "tag", "the wallet's tag changes")
        kept(ident, [sz(x) for x in ident])
        if k == 12:
            need(not possible_new(h, s), "old format", "the wallet may already be in the new format")
            kept(("roles", "role_counter"), (2, 4))
            need(same_bytes(s, final(h, s, a0, K(swig_off(h, "wallet_bump")), 1), arg_bytes(h, adt, "wallet_address_bump")), "wallet bump", "the recorded wallet bump is not the requested one")
            need(final_ints(h, s, a0, K(swig_off(h, "wallet_bump") + 1), 7) == [0] * 7, "counter", "the counter does not start at 0")
            return
        kept(("wallet_bump",), (1,))
        if k != 18: kept(("sub_account_counter",), (4,))
        if k == 18:
            n = swig_int(h, "sub_account_counter")
            now = as_int(final(h, s, a0, K(swig_off(h, "sub_account_counter")), 4))
            need(now is not None and P_(eq(now, addk(n, 1))), "counter", "the counter is not raised by exactly 1")
            i = 2; base = AI_DATA; o = lambda nm: K(base + field("SubAccountV2", h, nm))
            B = lambda nm, w: final(h, s, h.acct(i), o(nm), w)
            ints = final_ints(h, s, h.acct(i), o("discriminator"), 1) + final_ints(h, s, h.acct(i), o("enabled"), 1)
            need(ints == [2, 1], "state tag and flag", "the new state is not tagged and enabled")
            for nm, w, want in (("bump", 1, arg_bytes(h, adt, "state_bump")), ("asset_bump", 1, arg_bytes(h, adt, "asset_bump")), ("swig_id", 32, swig_bytes(h, "id")),
                                ("subacc_id", 4, raw_bytes(h, a0, swig_off(h, "sub_account_counter"), 4)), ("sub_account", 32, key_of(h, 3))):
                need(same_bytes(s, B(nm, w), want), "state " + nm, "the new state's `%s` is %s" % (nm, fmt(B(nm, w))))
            me = h.arg(adt, fld); role = acting(h, s, k)
            grants = [e for e in events(s, "roleop") if e[1] == "perform_add_actions_operation"]
            if not events(s, "roleop"):
                need(role is not None and has_all(h, s, role, n), "grant", "the creator is left without the new sub-account's permission")
            else:
                want = atom("cat", (8, bytes([23, 0, 8, 0, 0, 0, 0, 0])), (4, raw_bytes(h, a0, swig_off(h, "sub_account_counter"), 4)), (4, bytes(4)))
                e = grants[0] if len(grants) == 1 and len(events(s, "roleop")) == 1 else None
                ok = e is not None and is_ok(s, e[4]) and any(isinstance(x, tuple) and x[0] == "bytes" and same_bytes(s, x[1], want) for x in e[3])
                ok = ok and any(arg_is(s, x, me) for x in e[3] if not isinstance(x, tuple) or x[0] != "bytes")
                off = [x for x in events(s, "offsets") if any(arg_is(s, y, me) for y in x[2])]
                need(ok and bool(off), "grant", "what is granted is not SubAccountV2All over the new id to the creating role")
        if k == 6:
            me = h.arg(adt, fld); role = acting(h, s, k); a = held(h, s, role, ("SubAccount",)) if role is not None else None
            need(a is not None, "record", "no unassigned record was found")
            if a is None: return
            root = rec_root(a)
            z = h.P.types[h.P.adt("SubAccount")]["size"]
            sto = [e for e in s.events if e[0] == "store" and isinstance(e[1], tuple) and e[1][0] == "R" and e[1] not in [h.acct(j) for j in range(5)]]
            need(all(e[1] == root and P_(le(add(e[2], e[3]), K(z))) for e in sto), "writes", "something other than the role's record is written")
            for nm, w, want in (("sub_account", 32, key_of(h, 2)), ("bump", 1, arg_bytes(h, adt, "sub_account_bump")), ("role_id", 4, arg_bytes(h, adt, fld)), ("swig_id", 32, swig_bytes(h, "id"))):
                now = final(h, s, root, K(field("SubAccount", h, nm)), w)
                need(same_bytes(s, now, want), "record " + nm, "the record's `%s` is %s" % (nm, fmt(now)))
            need(final_ints(h, s, root, K(field("SubAccount", h, "enabled")), 1) == [1], "record enabled", "the new sub-account is not enabled")
    H.each(R, AUTHED, f)
    return R.finish("other", "As P25; bytes of the wallet account, the state account and the record at the end of every successful path.")

def closed(h, s): return bool([e for e in events(s, "resize") if e[1] == h.acct(0)])
def possible_new(h, s):
    """can the wallet be in the new format on this path"""
    a0 = h.acct(0); w = V(ldv(a0, K(AI_DATA + 40), 4)); P_ = lambda x: s.facts.prove(x)
    if P_(eq(V(atom("rem", w, K(256), lo=0)), K(0))) or nonzero(s, V(atom("div", w, K(256), lo=0))): return False
    if P_(eq(wallet_bump(h), K(0))) or any(nonzero(s, V(ldv(a0, K(AI_DATA + 41 + i), 1))) for i in range(3)): return False
    return not (P_(le(w, K(0))) or P_(le(K(256), w)))
def has_all(h, s, role, n):
    """the role holds SubAccountV2All over id n"""
    return scoped(h, s, role, 23, n)

# ---------------------------------------------------------------- P40
# instruction: routes (from, to) of lamports by account position
ROUTES = {1: [(1, 0)], 2: [(0, 1), (1, 0)], 3: [(0, 1), (1, 0)], 5: [], 6: [(1, 2)], 7: [(2, 4)], 9: None, 10: [], 12: [(2, 3)], 13: [(0, 1)], 14: [],
          15: [(1, 2), (0, 2)], 16: [], 17: [(1, 0)], 18: [(1, 0), (1, 2), (1, 3)], 19: [], 20: None, 21: [(3, 4)]}
RENTED = (1, 2, 3, 17, 18)
def lamports_now(h, s, r): return h.ip.tload(s, h.ip.region_mem(s, r), K(AI_LAMP), H.u64ty(h.ip))
def len_now(h, s, r): return h.ip.tload(s, h.ip.region_mem(s, r), K(AI_LEN), H.u64ty(h.ip))
def minbal(n): return V(atom("minbal", n, lo=0, hi=(1 << 64) - 1))
def known(h, root):
    return next((i for i in range(12) if h.acct(i) == root), None)
def body(h):
    """states at the end of loop bodies and of successful paths"""
    for s in h.ok: yield "path", s
    for lr in h.ip.looprecs:
        for x in lr.latches: yield "iteration", x

def p40(R):
    R.rule("Fund routes: an instruction other than the two that run inner instructions moves lamports only between the accounts its table fixes - add authority, V2 creation and rent claimer: payer to wallet account (and new sub-account accounts), remove and update: between wallet account and payer, V1 creation: payer to sub-account, migration: payer to wallet address, withdrawals: sub-account to wallet address, transfer assets: wallet account to wallet address, close wallet: both to the destination - never creates or destroys any, and the rest move none. Withdrawals move exactly the requested amount, top-ups exactly what is missing to the rent minimum, closing a wallet all of the wallet address and all but the one-byte minimum of the account; refunds to the payer are the rent of the bytes given up, or all above the rent minimum; the wallet account ends at or above its rent minimum where it grows or gives a refund. Tokens move only in withdrawals (exactly the requested amount, between the two following accounts of a genuine token program's, out to an account owned by the wallet address, signed by the sub-account), transfer assets (the whole balance of an account owned by the wallet account to one owned by the wallet address) and close token account (only to the destination, only accounts owned by the wallet account or address).")
    H.base_assumptions(R); R.assume("the sum of all lamports is below 2^64; the wallet account is rent exempt at entry, the rent minimum does not fall as data grows, and removing a role gives up no more than the account (P16); token programs move what their instruction says")
    def f(R, h, s, k, where):
        name, adt, fld = TABLE[k]; P_ = lambda x: s.facts.prove(x)
        routes = ROUTES[k]
        def need(ok, what, text): R.ob(ok, "%s %s" % (name, what), describe(s, h.ip, "%s: on this %s %s" % (name, where, text)), sample={"instruction": name, "rule": what})
        touched = {}; cur = h.byte(0, AI_LEN, 8); grown = None; back = False
        s.assume(le(minbal(cur), h.byte(0, AI_LAMP, 8)), le(minbal(K(1)), minbal(cur)), le(cur, K(1 << 31)))
        for e in events(s, "edit"):
            if e[1] == "remove_role": s.assume(le(V(atom("fld", atom("vf", e[5], 0, 0), 0, 1)), cur))
        if contradictory(s): return
        for e in s.events:
            if e[0] == "resize" and e[1] == h.acct(0):
                old, new = e[2], e[3]
                if P_(le(new, old)): s.assume(le(minbal(new), minbal(old)))
                grown = not P_(le(new, old)) and not any(x[0] == "roleop" for x in s.events[:s.events.index(e)]); cur = new
                if contradictory(s): return
            if e[0] == "system" and e[1] in ("Transfer", "CreateAccount"):
                fr, to = known(h, e[2]["from"]), known(h, e[2]["to"])
                need((fr, to) in routes, "transfer %s->%s" % (fr, to), "lamports move from account %s to account %s at %s" % (fr, to, site_of(h, e)))
                touched[e[2]["from"]] = touched[e[2]["to"]] = 1
                amt = e[3].get("lamports")
                if k in (7, 21): need(P_(eq(amt, h.arg(adt, "amount", 8))), "amount", "the amount moved is %s" % fmt(amt))
                elif k == 15: need((fr, to) == (1, 2) and P_(eq(amt, h.byte(1, AI_LAMP, 8))), "amount", "the amount moved is %s" % fmt(amt))
                else:
                    r = e[2]["to"]; now = add(V(ldv(r, K(AI_LAMP), 8)), amt)
                    n = cur if k in RENTED and to == 0 else len_now(h, s, r) if k == 18 and to == 2 else K(0)
                    need(P_(eq(now, minbal(n))), "top-up of %s" % to, "account %s gets to %s, not the rent minimum of %s bytes" % (to, fmt(now), fmt(n)))
            if e[0] == "store" and isinstance(e[1], tuple) and e[1][0] == "R" and not P_(le(K(AI_DATA), e[2])) and not P_(le(add(e[2], e[3]), K(AI_LAMP))):
                if P_(le(K(AI_LEN), e[2])): continue
                i = known(h, e[1])
                need(i is not None and any(i in r for r in routes) and P_(eq(e[2], K(AI_LAMP))) and P_(eq(e[3], K(8))), "lamports of %s" % i, "the lamports of account %s are written at %s" % (i, site_of(h, e)))
                touched[e[1]] = 1; back = back or i == 0
            if e[0] == "store" and isinstance(e[1], tuple) and e[1][0] == "R" and known(h, e[1]) is not None and not P_(le(K(AI_LAMP), e[2])):
                need(P_(le(add(e[2], e[3]), K(AI_KEY))), "account header", "an account's key or owner is written at %s" % site_of(h, e))
        if touched:
            d = K(0)
            for r in touched: d = add(d, sub(lamports_now(h, s, r), V(ldv(r, K(AI_LAMP), 8))))
            d = s.facts.simp(d)
            need(d.const is not None and d.c % (1 << 64) == 0, "conservation", "lamports are created or destroyed: %s" % fmt(d))
            down(h, s, k, touched, need, back)
        if k in RENTED and where == "path" and (grown or back):
            need(P_(le(minbal(len_now(h, s, h.acct(0))), lamports_now(h, s, h.acct(0)))), "rent minimum", "the resized wallet account may end below its rent minimum")
        tokens(R, h, s, k, need)
    def down(h, s, k, touched, need, back):
        P_ = lambda x: s.facts.prove(x); now = lambda i: lamports_now(h, s, h.acct(i)); was = lambda i: h.byte(i, AI_LAMP, 8)
        if k in (2, 3) and back:
            m1 = minbal(len_now(h, s, h.acct(0))); m0 = minbal(h.byte(0, AI_LEN, 8))
            need(P_(eq(now(0), m1)) or P_(eq(now(0), add(sub(was(0), m0), m1))), "refund", "the wallet account ends with %s" % fmt(now(0)))
        if k == 13: need(P_(eq(now(0), minbal(len_now(h, s, h.acct(0))))) and P_(le(now(0), was(0))), "remainder", "the wallet account ends with %s" % fmt(now(0)))
        if k == 15 and h.acct(0) in touched: need(P_(eq(now(0), minbal(K(1)))) and P_(le(now(0), was(0))), "remainder", "the closed account ends with %s" % fmt(now(0)))
    def tokens(R, h, s, k, need):
        name, adt, fld = TABLE[k]; P_ = lambda x: s.facts.prove(x)
        for e in events(s, "cpi"):
            prog, metas, data = e[1], e[2], e[3]
            if k in (9, 20): continue
            if not (k in (7, 13, 14, 21) and metas is not None and len(metas) == 3): need(False, "inner call", "another program is called at %s" % site_of(h, e)); continue
            accs = [owner_of(h, s, m[0]) for m in metas]
            need(all(a is not None for a in accs), "inner call accounts", "accounts of the inner call cannot be traced")
            if not all(a is not None for a in accs): continue
            need([boolish(m[2]) for m in metas] == [False, False, True], "inner call signers", "signer flags of the inner call")
            src, dst, sig = accs
            if k in (7, 21):
                t = 6 if k == 7 else 7; sub_ = 2 if k == 7 else 3
                need((src, dst, sig) == (h.acct(t), h.acct(t + 1), h.acct(sub_)), "token accounts", "tokens move between other accounts")
                o1, o2 = h.bytes0(t, AI_OWNER, 32), h.bytes0(t + 1, AI_OWNER, 32)
                need(same_bytes(s, prog, o1) and same_bytes(s, o2, o1), "token program", "the program called is not the one owning both token accounts")
                need(P_(f_or(beq(prog, SPL), beq(prog, SPL2022))) or P_(f_or(beq(o1, SPL), beq(o1, SPL2022))), "token program id", "the program called is not a token program")
                need(same_bytes(s, h.bytes0(t + 1, AI_DATA + 32, 32), key_of(h, 4)), "token destination", "the destination may not belong to the wallet address")
                need(same_bytes(s, data, atom("cat", (1, b"\x03"), (8, arg_bytes(h, adt, "amount")))), "token amount", "the token instruction is %s" % fmt(data))
                if k == 21:
                    need(same_bytes(s, h.bytes0(t, AI_DATA + 32, 32), key_of(h, 3)), "token source", "the source may not belong to the sub-account")
                    need(same_bytes(s, h.bytes0(t, AI_DATA, 32), h.bytes0(t + 1, AI_DATA, 32)), "token mint", "the two token accounts may be of different mints")
            else:
                need(P_(f_or(beq(prog, SPL), beq(prog, SPL2022))), "token program id", "the program called is not a token program")
                own = cur_bytes(h, s, src, AI_DATA + 32, 32)
                if k == 13:
                    need(sig == h.acct(0) and same_bytes(s, own, key_of(h, 0)), "token source", "the source may not belong to the wallet account")
                    need(same_bytes(s, cur_bytes(h, s, dst, AI_DATA + 32, 32), key_of(h, 1)), "token destination", "the destination may not belong to the wallet address")
                    need(same_bytes(s, data, atom("cat", (1, b"\x03"), (8, cur_bytes(h, s, src, AI_DATA + 64, 8)))), "token amount", "the token instruction is %s" % fmt(data))
                else:
                    need(dst == h.acct(2) and const_bytes(data) == b"\x09", "close", "the token instruction is not closing to the destination")
                    need(sig in (h.acct(0), h.acct(1)) and same_bytes(s, own, key_of(h, 0 if sig == h.acct(0) else 1)), "token source", "the closed account may not belong to the signing account")
            R.count("token movements")
    def g(R, k):
        h = H.Run(R, k)
        R.floor("successful paths of " + TABLE[k][0], len(h.ok), 1)
        for where, s in body(h):
            if ROUTES[k] is not None: f(R, h, s, k, where)
        R.floor("token movements of " + TABLE[k][0], R.counts.get("token movements", 0), 1 if k in (7, 13, 14, 21) else 0)
    R.par([k for k in H.ORDER if ROUTES[k] is not None], g)
    return R.finish("other", "As P25; lamport balances and inner calls of every successful path and of every loop iteration.")

def boolish(x):
    return x[1] if isinstance(x, tuple) and x[0] == "c" else bool(x.c) if isinstance(x, Lin) and x.const is not None else None
def const_bytes(x): return x if isinstance(x, bytes) else None
def owner_of(h, s, keybytes):
    """region of the account whose key these bytes are"""
    if isinstance(keybytes, Atom):
        while keybytes.op in ("sub",) and keybytes.args[1] == K(0): keybytes = keybytes.args[0]
        if keybytes.op == "ld" and keybytes.args[2] == K(AI_KEY) and isinstance(keybytes.args[0], tuple): return keybytes.args[0]
    return None
def cur_bytes(h, s, root, off, n): return h.ip.canon(s, h.ip.slice_bytes_nochk(s, Ptr(root, (), K(off)), K(n)))

# ---------------------------------------------------------------- P42
def p42(R):
    R.rule("Lent signatures: the addresses an instruction signs inner calls for are exactly: V1 sub-account sign and withdraw - this wallet's sub-account of the acting role (or, withdrawing as manager, the role whose derived sub-account was matched); V2 sign and withdraw - this wallet's asset account of the requested sub-account id with the recorded bump; transfer assets - this wallet account; close token account - this wallet account or wallet address, each only for token accounts it owns; close wallet - the wallet address; V2 creation - the new state account, only to allocate and assign it. Every other instruction lends none. Outside the two sub-account signing instructions an inner call marks no account as signer other than that one.")
    H.base_assumptions(R)
    def f(R, h, s, k, where):
        name, adt, fld = TABLE[k]; P_ = lambda x: s.facts.prove(x); sid = swig_bytes(h, "id")
        def need(ok, what, text): R.ob(ok, "%s %s" % (name, what), describe(s, h.ip, "%s: on this %s %s" % (name, where, text)), sample={"instruction": name, "rule": what})
        def bumpis(x, *terms):
            n, b = x
            if lin(n) != K(1): return False
            i = as_int(b) if not isinstance(b, Lin) else b
            return i is not None and any(P_(eq(i, t)) for t in terms)
        def seeds(x, *want): return len(x) == len(want) + 1 and all(seed_is(s, y, w) for y, w in zip(x, want))
        def wallet_bumps():
            out = [wallet_bump(h)]
            for kind, t, b in pdas(s, WALLET_SEEDS(h)):
                if kind == "pda" and same_key(h, s, 1, t): out.append(V(atom("fld", t.args[0], 0, 1)) if isinstance(t, Atom) and t.op == "fld" else wallet_bump(h))
            return out
        for e in s.events:
            if e[0] not in ("cpi", "system"): continue
            lent = e[-2]
            if not lent:
                if e[0] == "cpi": need(k not in (7, 9, 13, 14, 20, 21), "inner call unsigned", "an inner call is made without the address it is for")
                continue
            R.count("signed inner calls")
            ok = len(lent) == 1; x = lent[0]
            if k in (7, 9):
                me = h.arg(adt, fld)
                ok = ok and len(x) == 4 and seed_is(s, x[0], (11, b"sub-account")) and seed_is(s, x[1], (32, sid)) and lin(x[2][0]) == K(4) and lin(x[3][0]) == K(1)
                r = x[2][1] if ok else None; ri = as_int(r) if r is not None and not isinstance(r, Lin) else r
                mine = ri is not None and P_(eq(ri, me))
                other = k == 7 and any(same_key(h, s, 2, t) for _, t, _ in pdas(s, [(11, b"sub-account"), (32, sid), (4, r)])) if ok else False
                ok = ok and (mine or other)
            elif k in (20, 21):
                st = {20: 1, 21: 2}[k]
                ok = ok and seeds(x, (14, b"sub-account-v2"), (32, sid), (4, arg_bytes(h, adt, "subacc_id"))) and bumpis(x[3], state_int(h, st, "asset_bump"))
            elif k == 13: ok = ok and seeds(x, (4, b"swig"), (32, sid)) and bumpis(x[2], swig_int(h, "bump"))
            elif k == 14:
                sig = owner_of(h, s, e[2][-1][0]) if e[2] else None
                if sig == h.acct(0): ok = ok and seeds(x, (4, b"swig"), (32, sid)) and bumpis(x[2], swig_int(h, "bump"))
                elif sig == h.acct(1): ok = ok and seeds(x, *WALLET_SEEDS(h))
                else: ok = False
            elif k == 15: ok = ok and e[0] == "system" and seeds(x, *WALLET_SEEDS(h)) and bumpis(x[2], wallet_bump(h))
            elif k == 18:
                ok = ok and e[0] == "system" and e[1] in ("Allocate", "Assign") and e[2].get("account") == h.acct(2)
                ok = ok and seeds(x, (20, b"sub-account-v2-state"), (32, sid), (4, swig_int(h, "sub_account_counter"))) and bumpis(x[3], V(ldv(h.data, K(field(adt, h, "state_bump")), 1)))
            else: ok = False
            need(ok, "lends %s" % short(x), "a signature is lent for %s at %s" % (short(x), site_of(h, e)))
            if e[0] == "system" and e[1] == "Assign": need(e[4] == PROGRAM, "assign", "an account is assigned to another program")
    def short(x): return " / ".join(repr(b) if isinstance(b, bytes) else fmt(b)[:60] for n, b in x)
    def g(R, k):
        h = H.Run(R, k)
        R.floor("successful paths of " + TABLE[k][0], len(h.ok), 1)
        for where, s in body(h): f(R, h, s, k, where)
        R.floor("signed inner calls of " + TABLE[k][0], R.counts.get("signed inner calls", 0), 1 if k in (7, 9, 13, 14, 15, 18, 20, 21) else 0)
    R.par(H.ORDER, g)
    return R.finish("other", "As P25; seeds of every inner call on every successful path and in every loop iteration.")
