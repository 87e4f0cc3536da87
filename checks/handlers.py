"""P24-P31, P33-P35: the instruction handlers, each analysed from the program's dispatcher on the on-chain configuration."""
import re
from engine.spec import *
from engine import models as M
from .lookup import ldv
from .limits import outcome

PROCESS = r"^swig::actions::process_action$"
U64 = (1 << 64) - 1
AI_KEY, AI_OWNER, AI_LAMP, AI_LEN, AI_DATA = 8, 40, 72, 80, 88      # pinocchio account header
HEADER = 48

# ---------------------------------------------------------------- callee summaries (each decided by another property)
def okerr(ip, st, c, val, a):
    ty = c.dest[3]
    return M.ok_or_err(ip, st, ty, val, a)

def m_split(ip, st, c):
    """wallet account data -> header, roles, trailer (P18)"""
    p = c.args[0]; ty = c.dest[3]
    n = st.fresh(); a = atom("split", n)
    r = V(atom("rolesend", p.root, n, lo=0, hi=U63))
    st.event("split", p.root, p.off, p.meta, a, r, ip.site(st))
    sty = ip.T[ty]["variants"][M.variant(ip, ty, "Ok")]["fields"][0]
    v = ip.T[sty]["variants"][0]; f = {}
    at = addk(p.off, HEADER)
    for nm, ft in zip(v["names"], v["fields"]):
        if nm == "state": f[nm] = Ptr(p.root, p.path, p.off)
        elif nm == "roles": f[nm] = Ptr(p.root, p.path, at, r)
        elif nm == "tail": f[nm] = Ptr(p.root, p.path, add(at, r), sub(addk(p.meta, -HEADER), r))
        else: raise Unsupported("field %s of the wallet parts" % nm)
    out = okerr(ip, st, c, Agg(sty, 0, [f[nm] for nm in v["names"]]), a)
    for s, x in out:
        if vname(ip, x) == "Ok": s.assume(le(addk(r, HEADER), p.meta))
    return out

def m_rolesend(ip, st, c):
    p = c.args[0]; n = st.fresh(); a = atom("rolesendcall", n)
    r = V(atom("rolesend", p.root, n, lo=0, hi=U63))
    st.event("rolesend", p.root, p.off, p.meta, a, r, ip.site(st))
    out = okerr(ip, st, c, addk(r, HEADER), a)
    for s, x in out:
        if vname(ip, x) == "Ok": s.assume(le(addk(r, HEADER), p.meta))
    return out

def m_role(ip, st, c):
    a = atom("call", "get_mut_role", st.fresh())
    st.event("role", c.args[0], c.args[1], a, ip.site(st))
    return [(st, ip.mat(a, c.dest[3]))]

def m_perm(ip, st, c):
    """permission lookup (P05)"""
    kind = strip_generics(ip.T[c.fn["targs"][0]]["s"]).split("::")[-1] if c.fn and c.fn.get("targs") else "?"
    p = c.args[0]
    if not (isinstance(p, Ptr) and isinstance(p.meta, Lin)):
        ty = ip.T[c.atys[0]]["to"]
        v = ip.read(st, p.root, p.path, p.off, ty)
        if not isinstance(v, Agg): v = ip.force(st, v) if hasattr(ip, "force") else v
        t = ip.T[ty]["variants"][0]
        p = v.f[t["names"].index("actions")] if isinstance(v, Agg) else None
        if p is None: raise Unsupported("role value %r" % (v,))
    d = ip.carg(st, c.args[1], c.atys[1]); a = None
    for e in reversed(st.events):       # the lookup is a function of the list's bytes: asked again before any write, it answers the same
        if e[0] in ("store", "edit", "roleop", "restore", "resize", "cpi", "havoc"): break
        if e[0] == "perm" and e[1] == kind and isinstance(e[2], Ptr) and isinstance(p, Ptr) and (e[2].root, e[2].path) == (p.root, p.path) and e[2].off == p.off and e[2].meta == p.meta and same_arg(e[3], d): a = e[4]; break
    if a is None: a = atom("call", "permission:" + kind, st.fresh())
    st.event("perm", kind, p, d, a, ip.site(st))
    return [(st, ip.mat(a, c.dest[3]))]

def same_arg(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all(same_arg(a, b) for a, b in zip(x, y))
    return x is y or x == y
def acct_root(ip, st, p):
    """raw account region behind &AccountInfo"""
    v = ip.read(st, p.root, p.path, p.off, acct_ty(ip))
    while isinstance(v, Agg): v = v.f[0]
    return v.root
def acct_ty(ip): return ip.p.bystr["pinocchio::account_info::AccountInfo"]
def u64ty(ip): return ip.p.bystr["u64"]

def wr(ip, st, root, off, n, v):
    st.mem[root] = ip.mstore(st, ip.region_mem(st, root), K(off), K(n), v)

def m_resize(ip, st, c):
    r = acct_root(ip, st, c.args[0]); new = c.args[1]
    a = atom("resize", st.fresh())
    old = ip.tload(st, ip.region_mem(st, r), K(AI_LEN), u64ty(ip))
    out = []
    ty = c.dest[3]
    for s, x in okerr(ip, st, c, ip.zst(ip.T[ty]["variants"][M.variant(ip, ty, "Ok")]["fields"][0]), a):
        if vname(ip, x) == "Ok":
            s.assume(le(new, K(1 << 31)))
            s.event("resize", r, old, new, ip.site(s))
            wr(ip, s, r, AI_LEN, 8, atom("le", new, 8))
            if s.facts.prove(le(old, new)):
                s.mem[r] = ip.mstore(s, ip.region_mem(s, r), addk(old, AI_DATA), sub(new, old), ("fill", 0))
        out.append((s, x))
    return out

def m_take(ip, st, c):
    a = atom("call", "take", st.fresh())
    st.event("take", c.args[0], a, ip.site(st))
    return [(st, ip.mat(a, c.dest[3]))]

def m_restore(ip, st, c):
    nm = strip_generics(c.name).split("::")[-1]
    a = atom("call", nm, st.fresh())
    p = c.args[0]
    saved = ip.canon(st, ip.read(st, p.root, p.path, p.off, ip.T[c.atys[0]]["to"])) if ip.T[c.atys[0]]["k"] == "ref" else ip.canon(st, p)
    st.event("restore", saved, c.args[1], c.args[2] if nm == "restore_at" else None, a, ip.site(st))
    return [(st, ip.mat(a, c.dest[3]))]

def m_builder(ip, st, c):
    """role list edits (P15, P16)"""
    nm = strip_generics(c.name).split("::")[-1]
    ty = ip.T[c.atys[0]]["to"] if ip.T[c.atys[0]]["k"] == "ref" else None
    if ty is None or not strip_generics(ip.T[ty]["s"]).endswith("SwigBuilder"): return NotImplemented
    p = c.args[0]
    v = ip.read(st, p.root, p.path, p.off, ty)
    a = atom("call", nm, st.fresh())
    f = dict(zip(ip.T[ty]["variants"][0]["names"], v.f)) if isinstance(v, Agg) else {}
    args = tuple(ip.carg(st, x, t) for x, t in zip(c.args[1:], c.atys[1:]))
    st.event("edit", nm, f.get("role_buffer"), f.get("swig"), args, a, ip.site(st))
    return [(st, ip.mat(a, c.dest[3]))]

def m_roleop(ip, st, c):
    """rewrite of one role's permission list inside the roles region: position kept, its own length change returned"""
    nm = strip_generics(c.name).split("::")[-1]
    p = c.args[0]; a = atom("call", nm, st.fresh())
    st.event("roleop", nm, p, tuple(ip.carg(st, x, t) for x, t in zip(c.args[1:], c.atys[1:])), a, ip.site(st))
    ty = c.dest[3]
    d = V(atom("delta", a, lo=-(1 << 32), hi=1 << 32))
    out = okerr(ip, st, c, d, a)
    for s, v in out:
        if vname(ip, v) == "Ok" and isinstance(p, Ptr) and isinstance(p.meta, Lin): s.assume(le(scale(p.meta, -1), d))     # it gives up no more than the roles region
    return out

def m_offsets(ip, st, c):
    """where one role's permissions are: (size, role, permissions)"""
    p = c.args[0]; a = atom("call", "find_role_action_offsets", st.fresh())
    st.event("offsets", p, tuple(c.args[1:]), a, ip.site(st))
    ty = c.dest[3]; tty = ip.T[ty]["variants"][M.variant(ip, ty, "Ok")]["fields"][0]
    x, y, z = (V(atom("offset", a, i, lo=0, hi=U63)) for i in range(3))
    out = okerr(ip, st, c, Agg(tty, 0, [x, y, z]), a)
    for s, v in out:
        if vname(ip, v) == "Ok": s.assume(le(addk(y, 16), z), le(add(z, x), p.meta))
    return out

def m_newbuilder(ip, st, c):
    """SwigBuilder::create / new_from_bytes: the builder over an account"""
    nm = strip_generics(c.name).split("::")[-1]
    if nm == "create": return NotImplemented
    a = atom("builder", st.fresh()); p = c.args[0]
    st.event("builder", nm, p, tuple(ip.carg(st, x, t) for x, t in zip(c.args[1:], c.atys[1:])), a, ip.site(st))
    ty = c.dest[3]; bty = ip.T[ty]["variants"][M.variant(ip, ty, "Ok")]["fields"][0]
    v = ip.T[bty]["variants"][0]; f = {}
    for nm2, ft in zip(v["names"], v["fields"]):
        if nm2 == "role_buffer": f[nm2] = Ptr(p.root, p.path, addk(p.off, HEADER), addk(p.meta, -HEADER))
        elif nm2 == "swig": f[nm2] = Ptr(p.root, p.path, p.off)
        else: raise Unsupported("field %s of the builder" % nm2)
    if nm == "create": st.mem[p.root] = ip.mstore(st, ip.region_mem(st, p.root), p.off, K(HEADER), ip.canon(st, c.args[1], HEADER) if not isinstance(c.args[1], Agg) else ip.canon(st, c.args[1]))
    return okerr(ip, st, c, Agg(bty, 0, [f[x] for x in v["names"]]), a)

def m_system(ip, st, c):
    """system program instructions"""
    kind = re.search(r"::(\w+)(::<.*>)?::invoke", c.name).group(1)
    p = c.args[0]; ty = ip.T[c.atys[0]]["to"]
    v = ip.read(st, p.root, p.path, p.off, ty)
    names = ip.T[ty]["variants"][0]["names"]
    f = dict(zip(names, v.f))
    acc = {n: acct_root(ip, st, x) for n, x in f.items() if n in ("from", "to", "account")}
    val = {n: x for n, x in f.items() if isinstance(x, Lin)}
    own = ip.slice_bytes(st, f["owner"], K(32)) if "owner" in f else None
    a = atom("call", "system:" + kind, st.fresh())
    ty = c.dest[3]; out = []
    for s, x in okerr(ip, st, c, ip.zst(ip.T[ty]["variants"][M.variant(ip, ty, "Ok")]["fields"][0]), a):
        if vname(ip, x) == "Ok":
            s.event("system", kind, acc, val, own, signers(ip, s, c), ip.site(s))
            mem = lambda r: ip.region_mem(s, r)
            lam = lambda r: ip.tload(s, mem(r), K(AI_LAMP), u64ty(ip))
            if kind in ("Transfer", "CreateAccount"):
                n = val["lamports"]; fr, to = acc["from"], acc["to"]
                if fr != to:
                    x0, y0 = lam(fr), lam(to)
                    s.assume(le(n, x0), le(add(y0, n), K(U64)))
                    wr(ip, s, fr, AI_LAMP, 8, atom("le", sub(x0, n), 8)); wr(ip, s, to, AI_LAMP, 8, atom("le", add(y0, n), 8))
                if kind == "CreateAccount":
                    wr(ip, s, to, AI_LEN, 8, atom("le", val["space"], 8)); wr(ip, s, to, AI_OWNER, 32, own)
                    s.mem[to] = ip.mstore(s, mem(to), K(AI_DATA), val["space"], ("fill", 0))
            elif kind == "Allocate":
                r = acc["account"]
                wr(ip, s, r, AI_LEN, 8, atom("le", val["space"], 8)); s.mem[r] = ip.mstore(s, mem(r), K(AI_DATA), val["space"], ("fill", 0))
            elif kind == "Assign": wr(ip, s, acc["account"], AI_OWNER, 32, own)
            else: raise Unsupported("system instruction " + kind)
        out.append((s, x))
    return out

def typed(ip, st, p, ty):
    v = ip.read(st, p.root, p.path, p.off, ty)
    if not isinstance(v, Agg): raise Unsupported("%s behind a pointer is %r" % (ip.T[ty]["s"], v))
    return dict(zip(ip.T[ty]["variants"][0]["names"], v.f))
def const_of(st, x):
    x = x if isinstance(x, Lin) else V(x) if isinstance(x, Atom) else K(x)
    x = st.facts.simp(x)
    if x.const is None: raise Unsupported("list length " + fmt(x))
    return x.c
def tyof(ip, name):
    memo = ip.__dict__.setdefault("_tyof", {})
    if name not in memo: memo[name] = tyof_(ip, name)
    return memo[name]
def tyof_(ip, name):
    for s, i in ip.p.bystr.items():
        if strip_generics(s) == name or s.split("<")[0] == name: return i
    raise Missing("type " + name)
def at_index(ip, p, i, ty): return Ptr(p.root, p.path, addk(p.off, i * ip.size(ty)), None)

def seed_lists(ip, st, p, n):
    """contents of a list of signers: a list of (length, bytes) per signer"""
    sg, sd = tyof(ip, "pinocchio::instruction::Signer"), tyof(ip, "pinocchio::instruction::Seed"); out = []
    for i in range(const_of(st, n)):
        f = typed(ip, st, at_index(ip, p, i, sg), sg); one = []
        for j in range(const_of(st, f["len"])):
            g = typed(ip, st, at_index(ip, f["seeds"], j, sd), sd); ln = lin(g["len"])
            one.append((ln, ip.canon(st, ip.slice_bytes_nochk(st, g["seed"], ln))))
        out.append(tuple(one))
    return tuple(out)

def signers(ip, st, c):
    """seed contents of a signer list"""
    if len(c.args) < 2: return ()
    p = c.args[1]
    return seed_lists(ip, st, p, p.meta)

def m_cpi(ip, st, c):
    """the runtime's invoke: program, metas (None when the list's length is not fixed), data, signers"""
    ins = tyof(ip, "pinocchio::cpi::invoke_signed_unchecked::CInstruction"); am = tyof(ip, "pinocchio::instruction::AccountMeta")
    f = typed(ip, st, c.args[0], ins)
    prog = ip.canon(st, ip.slice_bytes_nochk(st, f["program_id"], K(32)))
    n = st.facts.simp(lin(f["accounts_len"])); metas = None
    if n.const is not None:
        metas = []
        for i in range(n.c):
            g = typed(ip, st, at_index(ip, f["accounts"], i, am), am)
            metas.append((ip.canon(st, ip.slice_bytes_nochk(st, g["pubkey"], K(32))), g["is_writable"], g["is_signer"]))
        metas = tuple(metas)
    dn = st.facts.simp(lin(f["data_len"]))
    data = ip.canon(st, ip.slice_bytes_nochk(st, f["data"], dn)) if dn.const is not None else ("bytes at", f["data"], dn)
    st.event("cpi", prog, metas, data, seed_lists(ip, st, c.args[3], c.args[4]), ip.site(st))
    a = atom("call", "invoke", st.fresh())
    return [(st, ip.mat(a, c.dest[3]))]

HOOKS = [(r"^swig_state::swig::Swig::split_parts(_mut)?$", m_split), (r"^swig_state::swig::Swig::roles_end_offset$", m_rolesend),
         (r"^swig_state::swig::Swig::get_mut_role$", m_role), (r"^swig_state::role::Role(Mut)?::get_action(_mut)?$", m_perm),
         (r"perform_(replace_all|add_actions|remove_by_type|remove_by_index)_operation$", m_roleop), (r"::find_role_action_offsets$", m_offsets),
         (r"^pinocchio::account_info::AccountInfo::(resize|realloc)$", m_resize), (r"SavedTail(::<.*>)?::take$", m_take), (r"SavedTail(::<.*>)?::restore(_at)?$", m_restore),
         (r"^swig_state::swig::SwigBuilder(::<.*>)?::(add_role|remove_role)$", m_builder), (r"^swig_state::swig::SwigBuilder(::<.*>)?::(create|new_from_bytes)$", m_newbuilder),
         (r"^pinocchio::syscalls::sol_invoke_signed_c$", m_cpi),
         (r"^pinocchio_system::instructions::\w+::\w+(::<.*>)?::invoke(_signed)?$", m_system)]
OPAQUE = [r"start_session$", r"SwigInstruction.*::fmt$"]

# ---------------------------------------------------------------- one instruction
class Run:
    """every path of the dispatcher for one instruction number"""
    def __init__(self, R, k, opaque=(), models=(), pre=None, bounds=False):
        """k: the instruction number, or None with pre(run, st) giving the assumptions"""
        P = R.prog("solana"); self.P = P
        fn = P.one(PROCESS)
        self.ip = ip = R.interp("solana", opaque=OPAQUE + list(opaque), models=list(models) + HOOKS)
        at = {}
        for i, t in enumerate(fn["locals"][1:1 + fn["argc"]]):
            s = ip.T[t]["s"]
            at["accounts" if "AccountInfo]" in s else "classes" if "AccountClassification]" in s else "data" if "[u8]" in s else s] = i
        for n in ("accounts", "classes", "data"):
            if n not in at: raise Missing("argument %s of the dispatcher" % n)
        A = lambda n: atom("sym", "a%d" % at[n])
        self.accounts, self.data = ("R", A("accounts")), ("R", A("data"))
        self.nacc, self.ndata = (V(atom("len", A(n), lo=0, hi=U63)) for n in ("accounts", "data"))
        def extent(st, root, off, n):      # an account's memory: its header and as much data as its recorded length
            a = root[1] if root[0] == "R" and len(root) > 1 else None
            if not (isinstance(a, Atom) and a.op == "ld" and a.args[0] == self.accounts) or ip.in_extent: return None
            ip.in_extent = True
            try: cur = ip.tload(st, ip.region_mem(st, root), K(AI_LEN), u64ty(ip))
            finally: ip.in_extent = False
            return addk(cur, AI_DATA)
        if bounds: ip.extent_of = extent
        def setup(ip, st, vals):
            if bounds: st.assume(*[le(self.byte(i, AI_LEN, 8), K(10 << 20)) for i in range(10)])     # the runtime's limit on account data
            st.assume(*([eq(V(ldv(self.data, K(0), 2)), K(k))] if pre is None else pre(self)))
            st.assume(le(self.ndata, K(1 << 16)), le(self.nacc, K(256)))
        self.paths = []
        for s in ip.run(fn, setup=setup):
            if not contradictory(s): self.paths.append(s)
        R.done(ip); R.count("paths", len(self.paths))
        self.ok = [s for s in self.paths if s.out == "ret" and vname(ip, s.ret) != "Err"]
        R.count("successful paths", len(self.ok))
    def acct(self, i):
        memo = self.__dict__.setdefault("_acct", {})
        if i not in memo: memo[i] = self.acct_(i)
        return memo[i]
    def acct_(self, i):
        st = self.ip.new_state()
        v = self.ip.tload(st, self.ip.region_mem(st, self.accounts), K(8 * i), acct_ty(self.ip))
        while isinstance(v, Agg): v = v.f[0]
        return v.root
    def byte(self, i, off, n): return V(ldv(self.acct(i), K(off), n))
    def bytes0(self, i, off, n):
        st = self.ip.new_state()
        return self.ip.canon(st, self.ip.slice_bytes_nochk(st, Ptr(self.acct(i), (), K(off)), K(n)))
    def arg(self, adt, field, n=4):
        v = self.P.types[self.P.adt(adt)]["variants"][0]
        if field not in v["names"]: raise Missing("field %s of %s" % (field, adt))
        return V(ldv(self.data, K(v["offs"][v["names"].index(field)]), n))
    def argsize(self, adt): return self.P.types[self.P.adt(adt)]["size"]

def events(s, kind): return [e for e in s.events if e[0] == kind]
def inside(a, x):
    """does term x contain atom a"""
    if x is a: return True
    if isinstance(x, Atom): return any(inside(a, y) for y in x.args)
    if isinstance(x, Lin): return any(inside(a, y) for y, _ in x.t)
    if isinstance(x, (tuple, list)): return any(inside(a, y) for y in x)
    return False
def is_some(s, a):
    """the call's result is Ok(Some(_)) on this path"""
    return s.facts.prove(eq(V(atom("discr", a)), K(0))) and s.facts.prove(eq(V(atom("discr", atom("vf", a, 0, 0))), K(1)))
def is_ok(s, a): return s.facts.prove(pred(atom("succeeds", a))) or s.facts.prove(eq(V(atom("discr", a)), K(0)))

# ---------------------------------------------------------------- vocabulary over one instruction's paths
def b58(s):
    n = 0
    for c in s: n = n * 58 + "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".index(c)
    return n.to_bytes(32, "big")
PROGRAM = b58("swigypWHEksbC64pWKwah1WTeh9JXwx8H1rJHLdbQMB")
SYSTEM = bytes(32)
SLOT = atom("le", V(atom("fld", atom("sym", "clock"), 0, 0)), 8)

# number: (name, argument record, acting role field, accounts of the table)
TABLE = {
    1: ("AddAuthorityV1", "AddAuthorityV1Args", "acting_role_id"), 2: ("RemoveAuthorityV1", "RemoveAuthorityV1Args", "acting_role_id"),
    3: ("UpdateAuthorityV1", "UpdateAuthorityV1Args", "acting_role_id"), 5: ("CreateSessionV1", "CreateSessionV1Args", "role_id"),
    6: ("CreateSubAccountV1", "CreateSubAccountV1Args", "role_id"), 7: ("WithdrawFromSubAccountV1", "WithdrawFromSubAccountV1Args", "role_id"),
    9: ("SubAccountSignV1", "SubAccountSignV1Args", "role_id"), 10: ("ToggleSubAccountV1", "ToggleSubAccountV1Args", "auth_role_id"),
    12: ("MigrateToWalletAddressV1", "MigrateToWalletAddressV1Args", "role_id"), 13: ("TransferAssetsV1", "TransferAssetsV1Args", "role_id"),
    14: ("CloseTokenAccountV1", "CloseTokenAccountV1Args", "role_id"), 15: ("CloseSwigV1", "CloseSwigV1Args", "role_id"),
    16: ("ReplaceAuthorityV1", "ReplaceAuthorityV1Args", "acting_role_id"), 17: ("SetRentClaimerV1", "SetRentClaimerV1Args", "role_id"),
    18: ("CreateSubAccountV2", "CreateSubAccountV2Args", "role_id"), 19: ("ToggleSubAccountV2", "ToggleSubAccountV2Args", "auth_role_id"),
    20: ("SubAccountSignV2", "SubAccountSignV2Args", "role_id"), 21: ("WithdrawFromSubAccountV2", "WithdrawFromSubAccountV2Args", "role_id"),
}
AUTHED = sorted(TABLE)
ORDER = sorted(TABLE, key=lambda k: {14: 0, 20: 1, 3: 2, 16: 3, 9: 4, 7: 5}.get(k, 9))     # slowest first

def payload(a): return atom("vf", atom("vf", a, 0, 0), 1, 0)
def key_of(h, i): return h.bytes0(i, AI_KEY, 32)
def beq(x, y): return interp.bytes_eq_any(x, y)
def same_bytes(s, x, y): return x is y or x == y or s.facts.prove(beq(x, y))

def roles_region(h, s, p):
    """is p the roles part of account 0, as split from its data"""
    if not isinstance(p, Ptr) or p.root != h.acct(0): return False
    return any(p.off == K(AI_DATA + HEADER) and e[1] == p.root and e[2] == K(AI_DATA) and e[5] == p.meta for e in events(s, "split"))

def looked_up(h, s, ident):
    """atoms of the successful role lookups for id term `ident` in account 0"""
    return [e[3] for e in events(s, "role") if isinstance(e[1], Lin) and s.facts.prove(eq(e[1], ident)) and roles_region(h, s, e[2]) and is_some(s, e[3])]

AUTHN = ("AuthorityInfo::authenticate", "AuthorityInfo::authenticate_session")
def authentications(s):
    """(method, role authority pointer, accounts, authority payload, signed data, slot, result, index)"""
    out = []
    for i, e in enumerate(s.events):
        if e[0] == "call" and e[1].endswith(AUTHN) and len(e[2]) == 5: out.append((e[1].split("::")[-1],) + tuple(e[2]) + (e[3], i))
    return out
def session_kind(s, role):
    """truth of session_based() on this role's authority, None when not asked"""
    for e in s.events:
        if e[0] == "call" and e[1].endswith("AuthorityInfo::session_based") and inside(role, e[2][0]):
            x = V(e[3])
            if s.facts.prove(eq(x, K(0))): return False
            if s.facts.prove(le(K(1), x)) or s.facts.prove(ne(x, K(0))): return True
    return None

def lin(x): return x if isinstance(x, Lin) else V(x) if isinstance(x, Atom) else K(x)
def whole(s, v, root, n):
    """a slice argument that is the whole of a region"""
    return isinstance(v, tuple) and len(v) == 5 and v[0] == "ptr" and v[1] == root and v[2] == () and s.facts.prove(eq(lin(v[3]), K(0))) and s.facts.prove(eq(lin(v[4]), n))

EFFECTS = ("edit", "roleop", "resize", "system", "restore")
def first_effect(h, s):
    """position of the first effect on any account"""
    for i, e in enumerate(s.events):
        if e[0] in EFFECTS: return i
        if e[0] == "store" and isinstance(e[1], tuple) and e[1][0] == "R": return i
        if e[0] == "cpi" or e[0] == "call" and re.search(r"sol_invoke|invoke_signed", e[1]): return i
    return len(s.events)

def site_of(h, e):
    return h.ip.site_str(e[-1]) if isinstance(e[-1], tuple) else ""

# ---------------------------------------------------------------- P25
def p25(R):
    R.rule("For every instruction number that acts on an existing wallet, every path on which the dispatcher returns success: the role whose id the instruction names was looked up in the roles part of account 0 and found; that role's authority's authenticate (authenticate_session exactly when session_based() is true; session creation uses authenticate and requires session_based()) returned success with all the transaction's accounts in order and the current slot; and this happened before any effect on an account. Number 4 never succeeds.")
    base_assumptions(R)
    def g(R, k):
        if k == 4:
            h = Run(R, 4)
            for s in h.ok: R.ob(False, "instruction 4 accepted", describe(s, h.ip, "the retired signing instruction succeeds on this path"))
            R.ob(not h.ok, "instruction 4 accepted", "", sample={"instruction": 4, "successful paths": len(h.ok)})
            return
        name, adt, field = TABLE[k]; h = Run(R, k); ident = h.arg(adt, field)
        R.floor("successful paths of " + name, len(h.ok), 1)
        for s in h.ok:
            roles = looked_up(h, s, ident)
            R.ob(bool(roles), name + " role", describe(s, h.ip, "%s succeeds on a path where the role named by `%s` was not found in account 0" % (name, field)),
                 sample={"instruction": name, "role": fmt(ident)})
            if not roles: continue
            good = None; why = "no authentication of that role"
            for m, me, accs, pay, data, slot, res, i in authentications(s):
                role = next((r for r in roles if inside(r, me)), None)
                if role is None: why = "authenticates another role"; continue
                if not is_ok(s, res): why = "result of the authentication not required to be success"; continue
                sess = session_kind(s, role)
                if k == 5: ok = m == "authenticate" and sess is True
                else: ok = sess is not None and m == ("authenticate_session" if sess else "authenticate")
                if not ok: why = "uses %s with session_based() %s" % (m, sess); continue
                if not whole(s, accs, h.accounts, h.nacc):
                    why = "authenticated over another account list"; continue
                if slot is not SLOT: why = "authenticated at slot %s" % fmt(slot); continue
                good = i; break
            R.ob(good is not None, name + " authentication", describe(s, h.ip, "%s succeeds without its role's authentication: %s" % (name, why)))
            if good is None: continue
            fx = first_effect(h, s)
            R.ob(good < fx, name + " authentication precedes effects", describe(s, h.ip, "%s acts on an account before authenticating, at %s" % (name, site_of(h, s.events[fx]) if fx < len(s.events) else "")))
    R.par(ORDER + [4], g)
    return R.finish("other", "Path-partitioned abstract interpretation of the program's dispatcher with the instruction number fixed, on the on-chain configuration, for %d instruction numbers: all account lists, instruction data and account contents." % (len(ORDER) + 1))

def base_assumptions(R):
    R.assume("role lookup, permission lookup, wallet splitting, role editing and trailer save/restore are summarised by what P05, P15, P16 and P18 decide about them")
    R.assume("accounts of one instruction are distinct unless their keys are equal; the runtime reverts every effect of a failing instruction; facts about an account are as read, before any inner call")

# ---------------------------------------------------------------- shared facts of a path
def held(h, s, role, kinds, data=None):
    """a successful lookup of one of these permissions (with this key) among this role's permissions"""
    for e in events(s, "perm"):
        if e[1] not in kinds: continue
        p, d = e[2], e[3]
        if not (isinstance(p, Ptr) and p.root == ("R", atom("fld", payload(role), 0, ACTIONS(h))) and s.facts.prove(eq(p.off, K(0))) and p.meta == V(atom("len", p.root[1]))): continue
        if not is_some(s, e[4]): continue
        if data is None:
            if not (isinstance(d, tuple) and d[0] == "bytes" and s.facts.prove(eq(d[2], K(0)))): continue
        elif data is not ANY:
            if not (isinstance(d, tuple) and d[0] == "bytes" and same_bytes(s, d[1], data)): continue
        return e[4]
    return None
ANY = object()
def ACTIONS(h): 
    v = h.P.types[h.P.adt("RoleMut")]["variants"][0]
    return v["names"].index("actions")

def field_at(h, adt, field, n=None):
    v = h.P.types[h.P.adt(adt)]["variants"][0]
    if field not in v["names"]: raise Missing("field %s of %s" % (field, adt))
    i = v["names"].index(field)
    return v["offs"][i], h.ip.size(v["fields"][i])
def rec_root(a): return ("R", payload(a))
def rec_int(h, a, adt, field):
    o, n = field_at(h, adt, field)
    return V(ldv(rec_root(a), K(o), n))
def raw_bytes(h, root, off, n):
    st = h.ip.new_state()
    return h.ip.canon(st, h.ip.slice_bytes_nochk(st, Ptr(root, (), K(off) if isinstance(off, int) else off), K(n)))
def rec_bytes(h, a, adt, field):
    o, n = field_at(h, adt, field)
    return raw_bytes(h, rec_root(a), o, n)
def swig_bytes(h, field):
    o, n = field_at(h, "Swig", field)
    return raw_bytes(h, h.acct(0), AI_DATA + o, n)
def swig_int(h, field):
    o, n = field_at(h, "Swig", field)
    return V(ldv(h.acct(0), K(AI_DATA + o), n))
def state_int(h, i, field):
    o, n = field_at(h, "SubAccountV2", field)
    return V(ldv(h.acct(i), K(AI_DATA + o), n))
def state_bytes(h, i, field):
    o, n = field_at(h, "SubAccountV2", field)
    return raw_bytes(h, h.acct(i), AI_DATA + o, n)
def arg_bytes(h, adt, field):
    o, n = field_at(h, adt, field)
    return raw_bytes(h, h.data, o, n)
def nonzero(s, x): return s.facts.prove(le(K(1), x)) or s.facts.prove(ne(x, K(0)))

def scoped(h, s, role, specific, ident):
    """a record on the role's permission chain of the specific kind or SubAccountV2All, scoped to this id"""
    root = ("R", atom("fld", payload(role), 0, ACTIONS(h))); n = V(atom("len", root[1]))
    for a in loads(s, root, 2):
        o = a.args[2]
        t = V(a)
        if not s.facts.prove(f_or(eq(t, K(specific)), eq(t, K(23)))): continue
        if not s.facts.prove(eq(V(ldv(root, addk(o, 8), 4)), ident)): continue
        if not (s.facts.prove(le(K(4), V(ldv(root, addk(o, 2), 2)))) and s.facts.prove(le(addk(o, 12), n))): continue
        if on_chain(h, s, root, o): return True
    return False

def loads(s, root, n):
    """loads of n bytes from a region among the path's facts"""
    seen = {}
    for f in s.facts.lst:
        for a in dom.deep_atoms(f):
            if a.op == "ld" and a.args[0] == root and a.args[3] == K(n): seen[id(a)] = a
    return list(seen.values())

def on_chain(h, s, root, o):
    """is offset o a point reached by stepping record by record (8 + stored length) from 0"""
    if s.facts.prove(eq(o, K(0))): return True
    for lr in h.ip.looprecs:
        for lf, (val, init, ty) in lr.leaves.items():
            if not (isinstance(val, Lin) and single(val) is not None and val == o and isinstance(init, Lin) and init.const == 0): continue
            if lr.latches and all(x.facts.prove(eq(h.ip.get_leaf(x, lf), add(addk(o, 8), V(ldv(root, addk(o, 2), 2))))) for x in lr.latches): return True
    return False

def pdas(s, seeds, exact=True):
    """address terms derived in this path from exactly these seeds under this program (find or create)"""
    out = []
    for e in s.events:
        if e[0] not in ("pda", "cpda"): continue
        if not (isinstance(e[2], tuple) and e[2][0] == "bytes" and e[2][1] == PROGRAM): continue
        have = e[1]
        want = seeds if e[0] == "pda" else None
        n = len(seeds) + (1 if e[0] == "cpda" else 0)
        if len(have) != n: continue
        if not all(seed_is(s, x, y) for x, y in zip(have, seeds)): continue
        if e[0] == "cpda" and not s.facts.prove(eq(lin(have[-1][0]), K(1))): continue
        a = atom(e[0], e[1], e[2])
        out.append((e[0], atom("fld", a, 0, 0) if e[0] == "pda" else a, have[-1] if e[0] == "cpda" else None))
    return out
def seed_is(s, have, want):
    n, x = have
    wn, w = want
    if isinstance(n, Lin): n = n.const
    if n != wn: return False
    if isinstance(w, Lin):
        if isinstance(x, (Atom,)): return s.facts.prove(eq(V(x), w)) if x.lo is not None or True else False
        return isinstance(x, Lin) and s.facts.prove(eq(x, w))
    return same_bytes(s, x, w)

def each(R, ks, f):
    def g(R, k):
        h = Run(R, k)
        R.floor("successful paths of " + TABLE.get(k, ("instruction %d" % k,))[0], len(h.ok), 1)
        for s in h.ok: f(R, h, s, k)
    R.par(sorted(ks, key=lambda k: ORDER.index(k) if k in ORDER else 99), g)

def acting(h, s, k):
    name, adt, field = TABLE[k]
    r = looked_up(h, s, h.arg(adt, field))
    for m, me, accs, pay, data, slot, res, i in authentications(s):
        for x in r:
            if inside(x, me) and is_ok(s, res): return x
    return r[0] if r else None

# ---------------------------------------------------------------- P26
MANAGE = ("All", "ManageAuthority")
def sub_record_ok(h, s, a, role_id):
    return same_bytes(s, rec_bytes(h, a, "SubAccount", "swig_id"), swig_bytes(h, "id")) and s.facts.prove(eq(rec_int(h, a, "SubAccount", "role_id"), role_id))

def gate(h, s, k, role):
    """reference permission gate"""
    name, adt, field = TABLE[k]; me = h.arg(adt, field)
    if k in (1, 3, 12, 13): return held(h, s, role, MANAGE) is not None
    if k == 2: return held(h, s, role, MANAGE) is not None or s.facts.prove(eq(h.arg(adt, "authority_to_remove_id"), me))
    if k == 5: return True
    if k == 6: return held(h, s, role, ("SubAccount",)) is not None
    if k == 7:
        key = key_of(h, 2)
        a = held(h, s, role, ("SubAccount",), key)
        if a is not None: return sub_record_ok(h, s, a, me)
        if held(h, s, role, ("ManageAuthority",)) is not None:
            seeds = [(11, b"sub-account"), (32, swig_bytes(h, "id")), (4, me)]
            own = any(same_key(h, s, 2, t) for _, t, _ in pdas(s, seeds))
            return own
        return held(h, s, role, ("All",)) is not None
    if k == 9:
        a = held(h, s, role, ("SubAccount",), key_of(h, 1))
        return a is not None and sub_record_ok(h, s, a, me)
    if k == 10:
        tgt = h.arg(adt, "role_id")
        if not (s.facts.prove(eq(tgt, me)) or held(h, s, role, MANAGE) is not None): return False
        return any(held(h, s, r, ("SubAccount",), key_of(h, 2)) is not None for r in looked_up(h, s, tgt))
    if k in (14, 15): return held(h, s, role, MANAGE + ("CloseSwigAuthority",)) is not None
    if k == 16: return held(h, s, role, MANAGE) is not None or held(h, s, role, ("ReplaceAuthority",), arg_bytes(h, adt, "target_role_id")) is not None
    if k == 17: return held(h, s, role, ("All", "CloseSwigAuthority")) is not None
    if k == 18: return held(h, s, role, ("SubAccountV2Create",)) is not None
    if k in (19, 20, 21): return scoped(h, s, role, {19: 26, 20: 24, 21: 25}[k], h.arg(adt, "subacc_id"))
    raise Missing("gate of instruction %d" % k)

def same_key(h, s, i, t):
    k = key_of(h, i)
    return any(s.facts.prove(beq(k, x)) or s.facts.prove(beq(x, k)) for x in (t, atom("sub", t, K(0), K(32))))

def p26(R):
    R.rule("Every successful path of an instruction holds that instruction's permission in the acting role's own permission list: add/update authority, migrate, transfer assets - All or ManageAuthority; remove - the same, or the role removes itself; create sub-account - an unassigned SubAccount record; withdraw - the SubAccount record of that sub-account naming this wallet and this role, or ManageAuthority over the sub-account this role derives, or All; sub-account sign - that record; toggle - All or ManageAuthority, or the acting role is the sub-account's own role, and in each case the named role holds that sub-account's record; close token account / close wallet - All, ManageAuthority or CloseSwigAuthority; replace authority - All, ManageAuthority or ReplaceAuthority for exactly that role; rent claimer - All or CloseSwigAuthority; V2 sub-account create - SubAccountV2Create; V2 toggle/sign/withdraw - a record on the role's chain of that specific kind or SubAccountV2All scoped to exactly that sub-account id.")
    base_assumptions(R)
    def f(R, h, s, k):
        name = TABLE[k][0]; role = acting(h, s, k)
        if not R.ob(role is not None, name + " role", describe(s, h.ip, name + ": no acting role")): return
        R.ob(gate(h, s, k, role), name + " permission", describe(s, h.ip, "%s succeeds on a path where the acting role holds none of the permissions it requires" % name),
             sample={"instruction": name, "lookups": [e[1] for e in events(s, "perm") if is_some(s, e[4])]})
    each(R, [k for k in AUTHED if k != 5], f)
    return R.finish("other", "As P25; the gate of each instruction is proved from the path's lookup results and comparisons.")

# ---------------------------------------------------------------- P27
def p27(R):
    R.rule("Removing an authority: on every successful path the named role's id is not 0, exactly one role is removed, it is the named one, from the roles part of account 0, and the removal reported success. No other instruction removes a role.")
    base_assumptions(R)
    def f(R, h, s, k):
        name = TABLE.get(k, ("CreateV1",))[0]
        rm = [e for e in events(s, "edit") if e[1] == "remove_role"]
        if k != 2:
            R.ob(not rm, name + " removes a role", describe(s, h.ip, "%s removes a role" % name)); return
        t = h.arg("RemoveAuthorityV1Args", "authority_to_remove_id")
        R.ob(nonzero(s, t), "root removable", describe(s, h.ip, "RemoveAuthorityV1 succeeds on a path where the named role may be role 0"), sample={"target": fmt(t)})
        ok = len(rm) == 1 and isinstance(rm[0][2], Ptr) and rm[0][2].root == h.acct(0) and len(rm[0][4]) == 1 and arg_is(s, rm[0][4][0], t) and is_ok(s, rm[0][5])
        R.ob(ok, "wrong role removed", describe(s, h.ip, "RemoveAuthorityV1 succeeds without removing exactly the role it names"))
    each(R, AUTHED, f)
    return R.finish("other", "As P25, all successful paths of every instruction on an existing wallet.")

def arg_is(s, x, t):
    """a canonical integer argument equals a term"""
    i = as_int(x) if not isinstance(x, Lin) else x
    return i is not None and s.facts.prove(eq(i, t))

# ---------------------------------------------------------------- P28
def p28(R):
    R.rule("Sub-account kill switch: every successful path of SubAccountSignV1 and of WithdrawFromSubAccountV1 that uses the sub-account's record proved that record's enabled flag set; every successful path of SubAccountSignV2 and WithdrawFromSubAccountV2 proved the state account's enabled flag set; the toggles write exactly the requested value into that flag and nothing else, from a 0/1 byte of the instruction.")
    base_assumptions(R)
    def f(R, h, s, k):
        name, adt, _ = TABLE[k]
        if k in (7, 9):
            role = acting(h, s, k)
            a = held(h, s, role, ("SubAccount",), key_of(h, 2 if k == 7 else 1)) if role is not None else None
            if a is None:
                R.ob(k == 7, name + " record", describe(s, h.ip, "SubAccountSignV1 succeeds without the sub-account's record")); return
            R.ob(nonzero(s, rec_int(h, a, "SubAccount", "enabled")), name + " kill switch", describe(s, h.ip, "%s succeeds on a path where the sub-account may be disabled" % name), sample={"instruction": name, "flag": "SubAccount.enabled"})
        elif k in (20, 21):
            i = 1 if k == 20 else 2
            i = STATE_AT[k]
            R.ob(nonzero(s, state_int(h, i, "enabled")), name + " kill switch", describe(s, h.ip, "%s succeeds on a path where the sub-account may be disabled" % name), sample={"instruction": name, "flag": "state.enabled"})
        else:
            want = V(ldv(h.data, K(field_at(h, adt, "enabled")[0]), 1))
            R.ob(s.facts.prove(le(want, K(1))), name + " flag byte", describe(s, h.ip, "%s accepts a flag byte other than 0 and 1" % name))
            st = [e for e in s.events if e[0] == "store" and isinstance(e[1], tuple) and e[1][0] == "R"]
            if k == 10:
                tgt = h.arg(adt, "role_id"); roots = []
                for r in looked_up(h, s, tgt):
                    a = held(h, s, r, ("SubAccount",), key_of(h, 2))
                    if a is not None: roots.append((rec_root(a), field_at(h, "SubAccount", "enabled")[0]))
            else: roots = [(h.acct(STATE_AT[k]), AI_DATA + field_at(h, "SubAccountV2", "enabled")[0])]
            ok = len(roots) >= 1 and bool(st)
            for e in st: ok = ok and any(e[1] == r and s.facts.prove(eq(e[2], K(o))) and s.facts.prove(eq(e[3], K(1))) for r, o in roots)
            if ok:
                r, o = next((r, o) for r, o in roots if st[-1][1] == r)
                now = h.ip.canon(s, h.ip.slice_bytes_nochk(s, Ptr(r, (), K(o)), K(1)))
                ok = flag_is(s, now, want)
            R.ob(ok, name + " writes the flag", describe(s, h.ip, "%s does not leave the named sub-account's flag as requested, or writes elsewhere" % name), sample={"instruction": name, "flag from": fmt(want)})
    each(R, (7, 9, 10, 19, 20, 21), f)
    return R.finish("other", "As P25, on the sub-account instructions.")
STATE_AT = {19: 2, 20: 1, 21: 2}

def flag_is(s, have, want):
    """a stored boolean byte equals a 0/1 term"""
    for f in (want,):
        for v in (0, 1):
            if s.facts.prove(eq(want, K(v))): 
                i = as_int(have)
                return i is not None and s.facts.prove(eq(i, K(v)))
    i = as_int(have)
    if i is not None:
        if s.facts.prove(eq(i, want)): return True
        a = single(i)
        if a is not None and a.op == "bool":
            f = a.args[0]; one = s.copy(); one.assume(eq(want, K(1))); nul = s.copy(); nul.assume(eq(want, K(0)))
            return one.facts.prove(f) and nul.facts.prove(neg(f))
        c1 = s.copy(); c1.assume(eq(want, K(1))); c0 = s.copy(); c0.assume(eq(want, K(0)))
        return c1.facts.prove(eq(i, K(1))) and c0.facts.prove(eq(i, K(0)))
    return False

# ---------------------------------------------------------------- P29
def splits(h, s):
    """roles lengths of the splits of account 0's entry contents"""
    return [e[5] for e in events(s, "split") if e[1] == h.acct(0) and e[2] == K(AI_DATA) and s.facts.prove(eq(e[3], len0(h)))]
def claimer_at(h, s): return next(iter(splits(h, s)), None)

def len0(h): return V(ldv(h.acct(0), K(AI_LEN), 8))

def p29(R):
    R.rule("SetRentClaimerV1: every successful path proves the wallet's trailer empty beforehand, the requested claimer non-zero, different from the wallet account and from the address derived for the wallet's assets; grows account 0 by exactly one entry and leaves, right after the old contents, an entry holding exactly the requested claimer. CloseTokenAccountV1 and CloseSwigV1: every successful path either proves the trailer empty or proves the destination account's key equal to the recorded claimer.")
    base_assumptions(R)
    def f(R, h, s, k):
        name, adt, _ = TABLE[k]; r = claimer_at(h, s); n0 = len0(h)
        if not R.ob(r is not None, name + " trailer", describe(s, h.ip, name + " never splits the wallet account")): return
        empty = any(s.facts.prove(eq(n0, addk(x, HEADER))) for x in splits(h, s))
        if k in (14, 15):
            starts = [addk(x, AI_DATA + HEADER + 8) for x in splits(h, s)]
            ok = empty or any(same_bytes(s, key_of(h, 2), raw_bytes(h, h.acct(0), y, 32)) or any(claims(s, h, x, y) for x in s.facts.lst) for y in starts)
            R.ob(ok, name + " destination", describe(s, h.ip, "%s succeeds on a path where a claimer may be recorded and the destination is not proved to be it" % name),
                 sample={"instruction": name, "trailer empty": empty})
            return
        want = arg_bytes(h, adt, "rent_claimer")
        R.ob(empty, name + " write-once", describe(s, h.ip, "SetRentClaimerV1 succeeds on a path where a claimer may already be recorded"), sample={"instruction": name})
        differs = lambda x: s.facts.prove(neg(beq(want, x))) or s.facts.prove(neg(beq(x, want)))
        R.ob(differs(bytes(32)), name + " zero claimer", describe(s, h.ip, "SetRentClaimerV1 accepts an all-zero claimer"))
        R.ob(differs(key_of(h, 0)), name + " wallet as claimer", describe(s, h.ip, "SetRentClaimerV1 accepts the wallet account itself"))
        bump = raw_bytes(h, h.acct(0), AI_DATA + field_at(h, "Swig", "wallet_bump")[0], 1)
        ads = [t for kind, t, b in pdas(s, [(19, b"swig-wallet-address"), (32, key_of(h, 0))])]
        R.ob(any(differs(t) or differs(atom("sub", t, K(0), K(32))) for t in ads), name + " assets address as claimer", describe(s, h.ip, "SetRentClaimerV1 accepts the wallet's own assets address"))
        mem = h.ip.region_mem(s, h.acct(0))
        now = h.ip.tload(s, mem, K(AI_LEN), u64ty(h.ip))
        R.ob(s.facts.prove(eq(now, addk(n0, 40))), name + " growth", describe(s, h.ip, "SetRentClaimerV1 does not grow the wallet by exactly one entry"))
        have = h.ip.canon(s, h.ip.slice_bytes_nochk(s, Ptr(h.acct(0), (), addk(n0, AI_DATA + 8)), K(32)))
        hd = [h.ip.canon(s, h.ip.slice_bytes_nochk(s, Ptr(h.acct(0), (), addk(n0, AI_DATA + i)), K(1))) for i in range(8)]
        R.ob(same_bytes(s, have, want) and [const_byte(s, x) for x in hd] == [1, 1, 32, 0, 0, 0, 0, 0], name + " entry",
             describe(s, h.ip, "SetRentClaimerV1 leaves %s / %s where the entry for the requested claimer belongs" % ([fmt(x) for x in hd], fmt(have))))
        for e in s.events:
            if e[0] == "store" and e[1] == h.acct(0) and not s.facts.prove(lt(e[2], K(AI_DATA))):
                R.ob(s.facts.prove(le(addk(n0, AI_DATA), e[2])), name + " overwrites", describe(s, h.ip, "SetRentClaimerV1 writes over existing wallet contents"))
    each(R, (14, 15, 17), f)
    return R.finish("other", "As P25, on the three instructions that set or honour the rent claimer.")

def const_byte(s, x):
    i = as_int(x)
    if i is None: return None
    return s.facts.simp(i).const
def claims(s, h, f, start):
    """fact: key of account 2 equals the 32 bytes at `start` of account 0"""
    if f[0] != "p" or f[1].op != "beq": return False
    x, y = f[1].args[:2]; k = key_of(h, 2)
    for a, b in ((x, y), (y, x)):
        if a == k and isinstance(b, Atom) and b.op == "ld" and b.args[0] == h.acct(0) and b.args[3] == K(32) and s.facts.prove(eq(b.args[2], start)): return True
    return False

# ---------------------------------------------------------------- P30
def p30(R):
    R.rule("Trailer preserved: the instructions that edit roles (add, remove, update, V2 sub-account creation) take the trailer from the split of account 0 before any edit, and the last thing they do to account 0's data past the header is to put exactly that saved trailer back - at the roles' end computed after the last edit, or at the end of the account with every later edit confined in front of it - over the whole data of its final length. Every other instruction on an existing wallet (except setting the claimer and closing) neither resizes account 0 nor writes at or past its roles' end.")
    base_assumptions(R)
    def f(R, h, s, k):
        name = TABLE[k][0]; r0 = claimer_at(h, s); a0 = h.acct(0)
        if not R.ob(r0 is not None, name + " splits", describe(s, h.ip, name + " never splits the wallet account")): return
        ev = list(enumerate(s.events))
        edits = [(i, e) for i, e in ev if (e[0] == "edit" and isinstance(e[2], Ptr) and e[2].root == a0) or (e[0] == "roleop" and isinstance(e[2], Ptr) and e[2].root == a0)]
        resizes = [(i, e) for i, e in ev if e[0] == "resize" and e[1] == a0]
        rest = [(i, e) for i, e in ev if e[0] == "restore"]
        stores = [(i, e) for i, e in ev if e[0] == "store" and e[1] == a0 and not s.facts.prove(le(add(e[2], e[3]), K(AI_DATA)))]
        if k not in (1, 2, 3, 18):
            R.ob(not edits and not resizes, name + " edits roles", describe(s, h.ip, "%s changes the wallet account's structure" % name), sample={"instruction": name, "stores to the wallet": len(stores)})
            for i, e in stores:
                R.ob(s.facts.prove(le(add(e[2], e[3]), addk(r0, AI_DATA + HEADER))), name + " writes trailer", describe(s, h.ip, "%s writes at or past the roles' end, at %s" % (name, site_of(h, e))))
            return
        if not edits and not resizes and not stores: return
        if k == 18 and not edits and not resizes:       # counter only
            for i, e in stores: R.ob(s.facts.prove(le(add(e[2], e[3]), K(AI_DATA + HEADER))), name + " writes trailer", describe(s, h.ip, "%s writes past the header" % name))
            return
        first = min([i for i, e in edits + resizes])
        n0 = len0(h)
        takes = [e for i, e in ev if e[0] == "take" and i < first and isinstance(e[1], Ptr) and e[1].root == a0 and s.facts.prove(eq(e[1].off, addk(r0_of(h, s, e), AI_DATA + HEADER)))
                 and s.facts.prove(eq(add(e[1].off, e[1].meta), addk(n0, AI_DATA))) and is_ok(s, e[2])]
        if not R.ob(bool(takes), name + " saves trailer", describe(s, h.ip, "%s edits roles without first taking the trailer" % name)): return
        vals = [atom("vf", e[2], 0, 0) for e in takes]
        now = h.ip.tload(s, h.ip.region_mem(s, a0), K(AI_LEN), u64ty(h.ip))
        lastedit = max([i for i, e in edits + resizes]); good = False; why = "never restored"
        for i, e in rest:
            saved, dst, off, res = e[1], e[2], e[3], e[4]
            if not any(inside(v, saved) for v in vals): why = "restores something else"; continue
            if not (isinstance(dst, Ptr) and dst.root == a0 and s.facts.prove(eq(dst.off, K(AI_DATA))) and s.facts.prove(eq(dst.meta, now))): why = "restored over another region"; continue
            if not is_ok(s, res): why = "restore allowed to fail"; continue
            lr = max([j for j, x in resizes], default=-1)
            if off is not None:
                if i < lastedit: why = "restored before the last edit"; continue
                ends = [x for j, x in ev if x[0] == "rolesend" and lastedit < j < i and x[1] == a0 and s.facts.prove(eq(off, addk(x[5], HEADER)))]
                if not ends: why = "restored at an offset that is not the roles' end after the edit"; continue
            else:
                if i < lr: why = "restored before the last resize"; continue
                late = [x for j, x in edits if j > i]
                savedlen = V(atom("fld", vals[0], 0, 1))
                if not all(any(s.facts.prove(le(add(add(x[2].off, x[2].meta), V(atom("fld", v, 0, 1))), addk(now, AI_DATA))) for v in vals) for x in late): why = "later edit may reach into the restored trailer"; continue
            if any(j > i and not s.facts.prove(le(add(x[2], x[3]), K(AI_DATA + HEADER))) for j, x in stores): why = "written over afterwards"; continue
            good = True; break
        R.ob(good, name + " trailer", describe(s, h.ip, "%s succeeds without the wallet's trailer put back: %s" % (name, why)), sample={"instruction": name, "edits": [e[1] for i, e in edits]})
        R.ob(all(is_ok(s, e[5] if e[0] == "edit" else e[4]) for i, e in edits), name + " edit result", describe(s, h.ip, "%s ignores a failed role edit" % name))
    each(R, [k for k in AUTHED if k not in (15, 17)], f)
    return R.finish("other", "As P25; order and arguments of the trailer and role edits on every successful path.")

def r0_of(h, s, e):
    """roles length of the split whose trailer this take used"""
    for x in events(s, "split"):
        if x[1] == h.acct(0) and isinstance(e[1], Ptr) and s.facts.prove(eq(e[1].off, addk(x[5], AI_DATA + HEADER))): return x[5]
    return K(-1)

# ---------------------------------------------------------------- P31
def p31(R):
    R.rule("Signed data covers what is used: on every successful path the data handed to the acting role's authentication is the instruction's bytes from its first byte up to some point at or past its fixed arguments, the authority payload is exactly the rest, and nothing the handler compares, stores, derives from or passes on (outside the authentication itself) reads instruction data past that point.")
    base_assumptions(R)
    def f(R, h, s, k):
        name, adt, _ = TABLE[k]
        for m, me, accs, pay, data, slot, res, i in authentications(s):
            ok = isinstance(data, tuple) and data[0] == "bytes" and isinstance(pay, tuple) and pay[0] == "bytes"
            if not R.ob(ok, name + " signed data", describe(s, h.ip, name + ": signed data not traceable")): continue
            p = lin(data[2])
            pre = is_range(h, s, data[1], K(0), p) if s.facts.prove(le(K(1), p)) else False
            R.ob(pre, "%s signs %s" % (name, fmt(data[1])), describe(s, h.ip, "%s authenticates %s rather than the instruction from its first byte" % (name, fmt(data[1]))), sample={"instruction": name, "signed": fmt(p)})
            if not pre: continue
            R.ob(s.facts.prove(le(K(h.argsize(adt)), p)), name + " signed arguments", describe(s, h.ip, "%s: the signed part may end inside the fixed arguments" % name))
            n = lin(pay[2])
            R.ob(s.facts.prove(eq(add(p, n), h.ndata)) and (s.facts.prove(eq(n, K(0))) or is_range(h, s, pay[1], p, n)), name + " authority payload", describe(s, h.ip, "%s: the authority payload is not the rest of the instruction" % name))
            for a in used(h, s, k):
                off, ln = a.args[2], a.args[3]
                R.ob(s.facts.prove(le(add(off, ln), p)), name + " unsigned input", describe(s, h.ip, "%s uses instruction bytes %s, which the signature does not cover" % (name, fmt(V(a) if a.lo is not None else a))))
    each(R, AUTHED, f)
    return R.finish("other", "As P25; every term of every successful path that reads instruction data.")

def is_range(h, s, x, off, n):
    """byte content x is exactly n instruction bytes from off"""
    if isinstance(x, Atom) and x.op == "ld" and x.args[0] == h.data and s.facts.prove(eq(x.args[2], off)) and s.facts.prove(eq(lin(x.args[3]), n)): return True
    st = s.copy()
    y = h.ip.canon(st, h.ip.slice_bytes_nochk(st, Ptr(h.data, (), off), n))
    return same_bytes(s, x, y)

def used(h, s, k):
    """instruction-data reads in the path's facts and effects other than the authentication's own arguments"""
    seen = {}
    def go(x):
        if isinstance(x, Atom):
            if id(x) in done: return
            done.add(id(x))
            if x.op == "ld" and x.args[0] == h.data: seen[id(x)] = x
            for y in x.args: go(y)
        elif isinstance(x, Lin):
            for a, _ in x.t: go(a)
        elif isinstance(x, Ptr): go(x.off); go(x.meta)
        elif isinstance(x, (tuple, list)):
            for y in x: go(y)
        elif isinstance(x, dict):
            for y in x.values(): go(y)
    done = set()
    if k != 16:
        for f in s.facts.lst: go(f)         # 16: the payload of a program-exec authority also says where the proof instruction is
    for i, e in enumerate(s.events):
        if e[0] == "call" and e[1].endswith(AUTHN): continue
        if e[0] in ("store", "edit", "roleop", "cpi", "system", "resize", "restore", "perm", "role", "pda", "cpda") or (e[0] == "call"): go(e[1:-1])
    return list(seen.values())

# ---------------------------------------------------------------- P34
REPLACEABLE = {1: ("ED25519Authority", 32), 2: ("Ed25519SessionAuthority", 32), 3: ("Secp256k1Authority", 33), 4: ("Secp256k1SessionAuthority", 33),
               5: ("Secp256r1Authority", 33), 6: ("Secp256r1SessionAuthority", 33)}
INSTRUCTIONS_SYSVAR = bytes.fromhex("06a7d517187bd16635dad40455fdc2c0c124c68f215675a5dbbacb5f08000000")

def final(h, s, root, off, n):
    """canonical bytes of a region at the end of the path"""
    return h.ip.canon(s, h.ip.slice_bytes_nochk(s, Ptr(root, (), off), K(n)))
def final_ints(h, s, root, off, n): return [const_byte(s, final(h, s, root, addk(off, i), 1)) for i in range(n)]

def role_start(h, s, ident):
    """start (in account 0) of the role record whose stored id was compared equal to the term, reached role by role along stored boundaries"""
    a0 = h.acct(0); base = AI_DATA + HEADER; out = []
    for a in loads(s, a0, 4):
        if not s.facts.prove(eq(V(a), ident)): continue
        start = addk(a.args[2], -8); cur = addk(start, -base)
        if any(cur == x for x, _ in out): continue
        if role_chain(h, s, a0, base, cur): out.append((cur, start))
    return out
def role_chain(h, s, root, base, cur):
    if s.facts.prove(eq(cur, K(0))): return True
    for lr in h.ip.looprecs:
        for lf, (val, init, ty) in lr.leaves.items():
            if not (isinstance(val, Lin) and val == cur and isinstance(init, Lin) and init.const == 0): continue
            if lr.latches and all(x.facts.prove(eq(h.ip.get_leaf(x, lf), V(ldv(root, addk(cur, base + 12), 4)))) for x in lr.latches): return True
    return False

def p34(R):
    R.rule("ReplaceAuthorityV1, every successful path: the record written belongs to the role with the target id, found by stepping along stored role ends; its stored kind is one of the six key kinds; the new key has the length that kind takes (32; 33; or 64 for secp256k1, stored compressed) and is proved different from the stored one; afterwards the stored key is the requested one, the counter is 0, the session key and expiry are zero, and no other byte of the wallet account has been written. Unless the acting authority's kind is proved not to be program-exec: the wallet address account is the derived one, the proof instruction is the one the authority payload names in the genuine instructions sysvar and precedes the current one, its data is exactly 40 bytes starting with the discriminator, its first two accounts are the wallet's configuration and address, and its remaining 32 bytes equal the hash of exactly this replacement.")
    base_assumptions(R); R.assume("the runtime writes a well-formed instructions sysvar")
    AR = "ReplaceAuthorityV1Args"
    def parity(h, s):
        byte = V(ldv(h.data, K(h.argsize(AR) + 63), 1)); return V(atom("rem", byte, K(2), lo=0, hi=1))
    def f(R, h, s, k):
        me, tgt, n = h.arg(AR, "acting_role_id"), h.arg(AR, "target_role_id"), h.arg(AR, "new_authority_len", 2)
        a0 = h.acct(0); z = h.argsize(AR)
        stores = [e for e in s.events if e[0] == "store" and e[1] == a0]
        R.ob(not [e for e in s.events if e[0] in ("edit", "roleop", "resize", "system", "restore")] and not events(s, "cpi"), "other effects", describe(s, h.ip, "ReplaceAuthorityV1 has effects beyond the target's signer"))
        spots = role_start(h, s, tgt)
        spot = next(((c, x) for c, x in spots if any(s.facts.prove(eq(V(ldv(a0, x, 2)), K(t))) for t in REPLACEABLE)), None)
        if not R.ob(spot is not None, "target", describe(s, h.ip, "ReplaceAuthorityV1 succeeds without finding a role with the target id of a replaceable kind")): return
        start = spot[1]; t = next(t for t in REPLACEABLE if s.facts.prove(eq(V(ldv(a0, start, 2)), K(t))))
        adt, kl = REPLACEABLE[t]; rec = addk(start, 16)
        ln = next((v for v in (32, 33, 64) if s.facts.prove(eq(n, K(v)))), None)
        if not R.ob(ln in ((32,) if kl == 32 else (33, 64) if t in (3, 4) else (33,)), "key length", describe(s, h.ip, "a %s accepts a new key of length %s" % (adt, ln)), sample={"kind": adt, "length": ln}): return
        for p in ((0, 1) if ln == 64 else (None,)):
            c = s.copy() if p is not None else s
            if p is not None:
                c.assume(eq(parity(h, s), K(p)))
                if contradictory(c): continue
                want = atom("cat", (1, bytes([2 + p])), (32, raw_bytes(h, h.data, z, 32)))
            else: want = raw_bytes(h, h.data, z, kl)
            replaced(R, h, c, adt, t, kl, rec, want, stores, me, tgt)
    def replaced(R, h, s, adt, t, kl, rec, want, stores, me, tgt):
        a0 = h.acct(0)
        f = h.P.types[h.P.adt(adt)]["variants"][0]; at = lambda nm: addk(rec, f["offs"][f["names"].index(nm)])
        old = raw_bytes(h, a0, at("public_key"), kl)
        R.ob(s.facts.prove(neg(beq(old, want))) or s.facts.prove(neg(beq(want, old))), "same key", describe(s, h.ip, "ReplaceAuthorityV1 succeeds where the new key may equal the stored one"), sample={"kind": adt})
        have = final(h, s, a0, at("public_key"), kl)
        R.ob(same_bytes(s, have, want), "stored key", describe(s, h.ip, "%s: the stored key afterwards is %s, not the requested one" % (adt, fmt(have))))
        zeros = [(nm, w) for nm, w in (("signature_odometer", 4), ("session_key", 32), ("current_session_expiration", 8)) if nm in f["names"]]
        R.ob(len(zeros) == (t > 2) + 2 * (t % 2 == 0), "fields of " + adt, "unexpected fields")
        for nm, w in zeros:
            R.ob(final_ints(h, s, a0, at(nm), w) == [0] * w, "%s of %s" % (nm, adt), describe(s, h.ip, "%s: `%s` is not cleared by replacing the signer" % (adt, nm)), sample={"kind": adt, "field": nm})
        ok = [(at("public_key"), kl)] + [(at(nm), w) for nm, w in zeros]
        for e in stores:
            R.ob(any(s.facts.prove(le(x, e[2])) and s.facts.prove(le(add(e[2], e[3]), addk(x, w))) for x, w in ok), "writes elsewhere", describe(s, h.ip, "ReplaceAuthorityV1 writes outside the target's key, counter and session, at %s" % site_of(h, e)))
        proof(R, h, s, t, kl, old, want, me, tgt)
    def proof(R, h, s, t, kl, old, want, me, tgt):
        role = acting(h, s, 16)
        kinds = [e[3] for e in s.events if e[0] == "call" and e[1].endswith("AuthorityInfo::authority_type") and inside(role, e[2][0])]
        if any(s.facts.prove(ne(V(atom("discr", a)), K(7))) for a in kinds):
            R.count("paths of other actors"); return
        P_ = s.facts.prove; z = h.argsize(AR); n = h.arg(AR, "new_authority_len", 2)
        pay = addk(n, z); plen = sub(h.ndata, pay)
        idx = V(ldv(h.data, pay, 1)); st = h.ip.new_state()
        v = h.ip.tload(st, h.ip.region_mem(st, h.accounts), scale(idx, 8), acct_ty(h.ip))
        while isinstance(v, Agg): v = v.f[0]
        sv = v.root; dl = V(ldv(sv, K(AI_LEN), 8)); s.assume(f_or(neg(beq(ldv(sv, K(AI_KEY), 32), INSTRUCTIONS_SYSVAR)), le(K(2), dl)))
        if contradictory(s): return
        def need(f, what, text): R.ob(f, "proof " + what, describe(s, h.ip, "ReplaceAuthorityV1 by a program-exec authority succeeds without " + text), sample={"requirement": text})
        need(P_(lt(idx, h.nacc)) and P_(beq(ldv(sv, K(AI_KEY), 32), INSTRUCTIONS_SYSVAR)), "sysvar", "the instruction list coming from the genuine sysvar account")
        two = P_(eq(plen, K(2)))
        need(two or P_(eq(plen, K(1))), "payload", "a payload of one or two bytes")
        cur = V(ldv(sv, addk(dl, AI_DATA - 2), 2)); j = V(ldv(h.data, addk(pay, 1), 1)) if two else addk(cur, -1)
        need(P_(lt(j, cur)) and P_(le(K(0), j)), "index", "the proof instruction preceding the current one")
        ix = addk(V(ldv(sv, addk(scale(j, 2), AI_DATA + 2), 2)), AI_DATA); na = V(ldv(sv, ix, 2)); body = addk(add(ix, scale(na, 33)), 2)
        need(P_(eq(V(ldv(sv, addk(body, 32), 2)), K(40))), "length", "proof data of exactly 40 bytes")
        need(P_(eq(V(ldv(sv, addk(body, 34), 8)), K(int.from_bytes(b"rplauth1", "little")))) or P_(beq(ldv(sv, addk(body, 34), 8), b"rplauth1")), "discriminator", "the proof discriminator")
        need(P_(le(K(2), na)), "accounts", "two accounts in the proof instruction")
        for i, w in ((0, "configuration"), (1, "address")):
            x = ldv(sv, addk(ix, 3 + 33 * i), 32); y = key_of(h, i)
            need(P_(beq(x, y)) or P_(beq(y, x)), "account %d" % i, "account %d of the proof instruction being the wallet's %s" % (i, w))
        need(P_(le(K(2), h.nacc)) and any(same_key(h, s, 1, x) for _, x, _ in pdas(s, [(19, b"swig-wallet-address"), (32, key_of(h, 0))])), "wallet", "account 1 being the wallet's derived address")
        digest = ldv(sv, addk(body, 42), 32)
        i2 = lambda off: raw_bytes(h, h.data, off, 4)
        o = lambda nm: field_at(h, AR, nm)[0]
        ref = [(25, b"swig-replace-authority-v1"), (32, key_of(h, 0)), (32, key_of(h, 1)), (4, i2(o("acting_role_id"))), (4, i2(o("target_role_id"))), (2, bytes([t, 0])), (kl, old), (kl, want)]
        good = False
        for e in events(s, "hash"):
            if e[1] != "sha256" or len(e[2]) != len(ref): continue
            if not all((x[0].const if isinstance(x[0], Lin) else x[0]) == y[0] and same_bytes(s, x[1], y[1]) for x, y in zip(e[2], ref)): continue
            if P_(beq(e[3], digest)) or P_(beq(digest, e[3])): good = True; break
        need(good, "hash", "the proof's digest being that of exactly this replacement")
        R.count("paths of program-exec actors")
    each(R, (16,), f)
    R.floor("paths of program-exec actors", R.counts.get("paths of program-exec actors", 0), 1)
    return R.finish("other", "As P25, on ReplaceAuthorityV1; bytes of the wallet account at the end of every successful path.")

# ---------------------------------------------------------------- P33
def owner_is(h, s, i, who): 
    o = h.bytes0(i, AI_OWNER, 32)
    return s.facts.prove(beq(o, who)) or s.facts.prove(beq(who, o))
def present(h, s, i): return s.facts.prove(lt(K(i), h.nacc))
WALLET_SEEDS = lambda h: [(19, b"swig-wallet-address"), (32, key_of(h, 0))]
def bump_ok(h, s, kind, bump, sources):
    """canonical, or one of the recorded / requested bump bytes"""
    if kind == "pda": return True
    b = as_int(bump[1]) if not isinstance(bump[1], Lin) else bump[1]
    return b is not None and any(s.facts.prove(eq(b, x)) for x in sources)
def derived(h, s, i, seeds, sources=()):
    return any(same_key(h, s, i, t) and bump_ok(h, s, kind, b, sources) for kind, t, b in pdas(s, seeds))
WALLET_AT = {7: 4, 12: 3, 13: 1, 14: 1, 15: 1, 21: 4}
MIGRATED = (13, 18, 19, 20, 21)
def wallet_bump(h): return swig_int(h, "wallet_bump")
def new_format(h, s, k):
    w = V(ldv(h.acct(0), K(AI_DATA + 40), 4)); P_ = s.facts.prove
    rem, div = (V(atom(op, w, K(256), lo=0)) for op in ("rem", "div"))
    if nonzero(s, rem) and P_(eq(div, K(0))): return True
    if nonzero(s, wallet_bump(h)) and (all(P_(eq(V(ldv(h.acct(0), K(AI_DATA + 41 + i), 1)), K(0))) for i in range(3))): return True
    return P_(le(K(1), w)) and P_(le(w, K(255)))

def p33(R):
    R.rule("Every successful path of every instruction on an existing wallet: account 0 is present, owned by the wallet program and its first byte is the wallet tag. Where an instruction uses them: the sub-account is owned by the system program; the V2 state account is owned by the wallet program, exactly one record long, carries the V2 tag, this wallet's id and the requested sub-account id, sits at the address derived from these and its recorded bump, and the V2 asset account is the one recorded in it; created sub-accounts sit at the addresses derived from this wallet's id and the role or counter; the wallet address (as destination or signer) is the address derived from account 0's key, and system-owned where lamports are moved by the system program. The second-generation instructions require a wallet in the new format, and the two sub-account signing instructions a top-level call.")
    base_assumptions(R)
    def f(R, h, s, k):
        name, adt, field = TABLE[k]; P_ = s.facts.prove; me = h.arg(adt, field)
        def need(ok, what, text): R.ob(ok, "%s %s" % (name, what), describe(s, h.ip, "%s succeeds on a path without %s" % (name, text)), sample={"instruction": name, "requirement": what})
        need(present(h, s, 0), "wallet", "the wallet account being present")
        need(owner_is(h, s, 0, PROGRAM), "wallet owner", "account 0 being owned by the wallet program")
        need(P_(eq(h.byte(0, AI_DATA, 1), K(1))), "wallet tag", "account 0 carrying the wallet tag")
        sid = swig_bytes(h, "id")
        if k in WALLET_AT:
            need(derived(h, s, WALLET_AT[k], WALLET_SEEDS(h), [h.arg(adt, "wallet_address_bump", 1) if k == 12 else wallet_bump(h)]), "wallet address", "account %d being the wallet's derived address" % WALLET_AT[k])
        for i in {6: (2,), 7: (2, 4), 9: (1,), 10: (2,), 18: (2, 3), 20: (2,), 21: (3, 4)}.get(k, ()):
            need(owner_is(h, s, i, SYSTEM), "owner of account %d" % i, "account %d being owned by the system program" % i)
        if k in MIGRATED: need(new_format(h, s, k), "format", "the wallet being in the new format")
        if k in (9, 20):
            need(any(e[0] == "call" and e[1].endswith("get_stack_height") and P_(eq(V(e[3]), K(1))) for e in s.events), "top level", "being called at the top level")
        if k == 6:
            need(derived(h, s, 2, [(11, b"sub-account"), (32, sid), (4, me)], [h.arg(adt, "sub_account_bump", 1)]), "derivation", "the new sub-account's derived address")
        if k == 18:
            n = swig_int(h, "sub_account_counter")
            need(derived(h, s, 2, [(20, b"sub-account-v2-state"), (32, sid), (4, n)], [h.arg(adt, "state_bump", 1)]), "state derivation", "the state account's derived address")
            need(derived(h, s, 3, [(14, b"sub-account-v2"), (32, sid), (4, n)], [h.arg(adt, "asset_bump", 1)]), "asset derivation", "the asset account's derived address")
        if k in STATE_AT:
            i = STATE_AT[k]; sub_id = h.arg(adt, "subacc_id")
            need(owner_is(h, s, i, PROGRAM), "state owner", "the state account being owned by the wallet program")
            need(P_(eq(h.byte(i, AI_LEN, 8), K(h.P.types[h.P.adt("SubAccountV2")]["size"]))), "state length", "the state account being exactly one record")
            need(P_(eq(state_int(h, i, "discriminator"), K(2))), "state tag", "the state account carrying the V2 tag")
            need(same_bytes(s, state_bytes(h, i, "swig_id"), sid), "state wallet", "the state account naming this wallet")
            need(P_(eq(state_int(h, i, "subacc_id"), sub_id)), "state id", "the state account naming the requested sub-account")
            need(derived(h, s, i, [(20, b"sub-account-v2-state"), (32, sid), (4, sub_id)], [state_int(h, i, "bump")]), "state derivation", "the state account sitting at its derived address")
            if k in (20, 21):
                need(same_bytes(s, key_of(h, {20: 2, 21: 3}[k]), state_bytes(h, i, "sub_account")), "asset account", "the asset account being the one the state records")
    each(R, AUTHED, f)
    return R.finish("other", "As P25; comparisons and derivations established on every successful path.")
