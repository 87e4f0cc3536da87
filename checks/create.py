"""P24, P41: instruction numbers, and the creation of a wallet."""
from engine.spec import *
from .lookup import ldv
from . import handlers as H
from .handlers import *
from .handlers import HEADER, AI_KEY, AI_OWNER, AI_LAMP, AI_LEN, AI_DATA, PROGRAM, SYSTEM, TABLE, AUTHED
from .effects import minbal, lamports_now, len_now, field

ADT = "CreateV1Args"
KINDS = {1: "ED25519Authority", 2: "Ed25519SessionAuthority", 3: "Secp256k1Authority", 4: "Secp256k1SessionAuthority", 5: "Secp256r1Authority", 6: "Secp256r1SessionAuthority", 7: "ProgramExecAuthority", 8: "ProgramExecSessionAuthority"}

def m_find(ip, st, c):
    """search of a permission list (P05)"""
    kind = strip_generics(ip.T[c.fn["targs"][0]]["s"]).split("::")[-1] if c.fn and c.fn.get("targs") else "?"
    a = atom("call", "permission:" + kind, st.fresh())
    st.event("find", kind, c.args[0], a, ip.site(st))
    return [(st, ip.mat(a, c.dest[3]))]
FIND = [(r"^swig_state::action::ActionLoader::find_action$", m_find)]

def is_new(h, s, i):
    """account i holds nothing and belongs to the system program"""
    P_ = lambda x: s.facts.prove(x)
    return P_(beq(h.bytes0(i, AI_OWNER, 32), SYSTEM)) and P_(eq(h.byte(i, AI_LEN, 8), K(0)))

def created(R, h, s, name):
    """one successful path of creation"""
    P_ = lambda x: s.facts.prove(x); a0 = h.acct(0); d = h.data
    def need(ok, what, text): R.ob(ok, "%s %s" % (name, what), describe(s, h.ip, "%s succeeds on a path where %s" % (name, text)), sample={"instruction": name, "fact": what})
    asz = h.argsize(ADT)
    bid, bump, wb, kind, alen = (arg_bytes(h, ADT, x) for x in ("id", "bump", "wallet_address_bump", "authority_type", "authority_data_len"))
    num = lambda nm, n: V(ldv(d, K(field(ADT, h, nm)), n))
    L = num("authority_data_len", 2)
    need(is_new(h, s, 0), "wallet account unused", "the wallet account may be in use")
    need(is_new(h, s, 2), "wallet address unused", "the wallet address may be in use")
    at = lambda i, seeds, b: any(same_key(h, s, i, t) and (kd == "pda" or bump_ok(s, x, b)) for kd, t, x in pdas(s, seeds))
    need(at(0, [(4, b"swig"), (32, bid)], num("bump", 1)), "wallet account derived", "the wallet account is not at the address derived from the requested id and bump")
    need(at(2, [(19, b"swig-wallet-address"), (32, key_of(h, 0))], num("wallet_address_bump", 1)), "wallet address derived", "the wallet address is not derived from the wallet account and the recorded bump")
    sysev = events(s, "system")
    mk = [e for e in sysev if e[1] == "CreateAccount"]
    need(len(mk) == 1 and mk[0][2] == {"from": h.acct(1), "to": a0} and mk[0][4] == PROGRAM, "account made", "the wallet account is not created once, for this program, paid by the payer")
    if len(mk) != 1: return
    x = mk[0][5]
    need(len(x) == 1 and len(x[0]) == 3 and seed_is(s, x[0][0], (4, b"swig")) and seed_is(s, x[0][1], (32, bid)) and bump_ok(s, x[0][2], num("bump", 1)), "account signature", "the new account's creation is signed for other seeds")
    space = mk[0][3]["space"]; acts = sub(sub(h.ndata, K(asz)), L)
    kv = num("authority_type", 2); sizes = [h.argsize(z) for n, z in KINDS.items() if P_(eq(kv, K(n)))]
    need(len(sizes) == 1, "authority kind", "the requested authority kind is none of the eight")
    if len(sizes) == 1:
        total = addk(acts, HEADER + 16 + sizes[0])
        need(P_(le(total, space)) and P_(le(space, addk(total, 7))), "space", "the account is given %s bytes" % fmt(space))
    need(P_(le(minbal(space), lamports_now(h, s, a0))), "account rent", "the wallet account may end below its rent minimum")
    need(P_(le(minbal(K(0)), lamports_now(h, s, h.acct(2)))), "wallet address rent", "the wallet address may end below its rent minimum")
    for e in sysev:
        if e[1] == "CreateAccount": r, n = a0, minbal(space)
        else:
            need(e[1] == "Transfer" and e[2] == {"from": h.acct(1), "to": h.acct(2)} and not e[5], "transfers", "it makes an unexpected %s at %s" % (e[1], site_of(h, e)))
            if e[1] != "Transfer": continue
            r, n = h.acct(2), minbal(K(0))
        amt = e[3]["lamports"]; now = add(V(ldv(r, K(AI_LAMP), 8)), amt)
        need(P_(eq(now, n)) or P_(eq(amt, K(0))), "top-up", "an account is topped up to %s" % fmt(now))
    need(not events(s, "cpi"), "inner calls", "it calls another program")
    # the record
    z = lambda nm: H.field_at(h, "Swig", nm)[1]
    B = lambda nm: final(h, s, a0, K(AI_DATA + field("Swig", h, nm)), z(nm))
    need(final_ints(h, s, a0, K(AI_DATA), 1) == [1], "tag", "the account is not tagged as a wallet")
    for nm, want in (("bump", bump), ("id", bid), ("wallet_bump", wb)): need(same_bytes(s, B(nm), want), "records " + nm, "the recorded `%s` is %s" % (nm, fmt(B(nm))))
    for nm in ("roles", "role_counter", "sub_account_counter"):
        need(final_ints(h, s, a0, K(AI_DATA + field("Swig", h, nm)), z(nm)) == [0] * z(nm), "starts " + nm, "`%s` does not start at 0 before the first role is added" % nm)
    o = AI_DATA + field("Swig", h, "wallet_bump") + 1
    need(final_ints(h, s, a0, K(o), AI_DATA + field("Swig", h, "sub_account_counter") - o) == [0] * (AI_DATA + field("Swig", h, "sub_account_counter") - o), "reserved bytes", "reserved header bytes are not zero")
    # the first role
    ed = events(s, "edit"); ok = len(ed) == 1 and ed[0][1] == "add_role" and is_ok(s, ed[0][5]) and isinstance(ed[0][2], Ptr) and ed[0][2].root == a0 and P_(eq(ed[0][2].off, K(AI_DATA + HEADER)))
    need(ok, "one role", "it does not add exactly one role to the new wallet")
    if not ok: return
    ar = ed[0][4]
    need(len(ar) == 3 and isinstance(ar[0], tuple) and ar[0][0] == "agg" and len(sizes) == 1 and P_(eq(kv, K(discr_of(h, ar[0][1])))), "role kind", "the role added is of another kind than requested")
    n0 = raw_bytes_n(h, d, K(asz), L); n1 = raw_bytes_n(h, d, addk(L, asz), acts)
    need(len(ar) == 3 and bytes_arg(s, ar[1], n0, L), "role authority", "the role's authority is not the one supplied")
    need(len(ar) == 3 and bytes_arg(s, ar[2], n1, acts), "role permissions", "the role's permissions are not the ones supplied")
    need(P_(le(addk(L, asz), h.ndata)), "data length", "the instruction data may be shorter than the authority it announces")
    good = any(e[1] in ("All", "ManageAuthority") and is_some(s, e[3]) and isinstance(e[2], Ptr) and e[2].root == d and P_(eq(e[2].off, addk(L, asz))) and P_(eq(e[2].meta, acts)) for e in events(s, "find"))
    need(good, "first role manages", "the first role may hold neither All nor ManageAuthority")
    # nothing else
    for e in s.events:
        if e[0] == "store" and isinstance(e[1], tuple) and e[1][0] == "R": need(e[1] == a0 and P_(le(K(AI_DATA), e[2])), "writes", "it writes elsewhere, at %s" % site_of(h, e))
        if e[0] in ("resize", "restore", "roleop"): need(False, "effects", "it makes an unexpected %s" % e[0])

def bump_ok(s, x, want):
    n, b = x
    i = as_int(b) if not isinstance(b, Lin) else b
    return lin(n) == K(1) and i is not None and s.facts.prove(eq(i, want))
def raw_bytes_n(h, root, off, n):
    st = h.ip.new_state()
    return h.ip.canon(st, h.ip.slice_bytes_nochk(st, Ptr(root, (), off), n))
def bytes_arg(s, x, want, n):
    return isinstance(x, tuple) and x[0] == "bytes" and s.facts.prove(eq(lin(x[2]), n)) and (same_bytes(s, x[1], want) or s.facts.prove(eq(n, K(0))))
def discr_of(h, variant):
    t = h.P.types[h.P.adt("AuthorityType")]
    ds = t.get("discrs") or [v.get("discr", i) for i, v in enumerate(t["variants"])]
    return ds[variant]

def p41(R):
    R.rule("Wallet creation: every successful path proves the wallet account and the wallet address unused (system-owned, no data) and at the addresses derived from the requested id and from the wallet account with the requested bumps; creates the wallet account once, paid by the payer, owned by this program, with room for exactly the header and the one role (rounded up to 8), both accounts at least at their rent minimum and topped up to no more than that; records tag, id, both bumps, and zero counters; adds exactly one role, of the requested kind with the supplied authority bytes and permissions, having found All or ManageAuthority among those permissions; and does nothing else to any account.")
    H.base_assumptions(R); R.assume("search of a permission list and add_role are summarised by what P05, P15 and P16 decide about them")
    h = H.Run(R, 0, models=FIND)
    R.floor("successful paths of CreateV1", len(h.ok), 8)
    for s in h.ok: created(R, h, s, "CreateV1")
    return R.finish("other", "As P25, for instruction number 0.")

def p24(R):
    R.rule("Instruction data shorter than the two-byte number never succeeds; the retired number 4 never succeeds; every number outside the table either fails or is handled exactly as wallet creation (so never acts on an existing wallet); every other number succeeds only when the data holds that instruction's whole argument record and the wallet account holds more than the wallet header's tag.")
    H.base_assumptions(R)
    def g(R, k):
        if k == "short":
            h = H.Run(R, None, pre=lambda r: [le(r.ndata, K(1))])
            for s in h.ok: R.ob(False, "short data accepted", describe(s, h.ip, "data without an instruction number succeeds on this path"))
            R.ob(not h.ok, "short data accepted", "", sample={"data": "shorter than 2 bytes", "paths": len(h.paths), "successful": 0}); return
        if k == "other":
            h = H.Run(R, None, models=FIND, pre=lambda r: [le(K(22), V(ldv(r.data, K(0), 2))), le(K(2), r.ndata)])
            for s in h.ok: created(R, h, s, "unknown number")
            R.ob(True, "unknown numbers", "", sample={"numbers": "22 and above", "paths": len(h.paths), "successful": len(h.ok)}); return
        if k == 4:
            h = H.Run(R, 4)
            for s in h.ok: R.ob(False, "instruction 4 accepted", describe(s, h.ip, "the retired signing instruction succeeds on this path"))
            R.ob(not h.ok, "instruction 4 accepted", "", sample={"instruction": 4, "successful paths": len(h.ok)}); return
        name, adt, fld = TABLE[k]; h = H.Run(R, k)
        R.floor("successful paths of " + name, len(h.ok), 1)
        for s in h.ok:
            R.ob(s.facts.prove(le(K(h.argsize(adt)), h.ndata)), name + " data", describe(s, h.ip, "%s succeeds with less data than its argument record" % name), sample={"instruction": name, "bytes": h.argsize(adt)})
            R.ob(not is_new(h, s, 0) and s.facts.prove(le(K(1), h.byte(0, AI_LEN, 8))), name + " existing wallet", describe(s, h.ip, "%s succeeds on an empty wallet account" % name))
    R.par(H.ORDER + ["short", "other", 4], g)
    return R.finish("other", "As P25, for every instruction number, unknown numbers included, and for data of any length.")
