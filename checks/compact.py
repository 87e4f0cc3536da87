"""P21, P22, P23: the compact instruction format (on-chain parser, client encoder, execution)."""
import re
from engine.spec import *
from .lookup import ldv
from .limits import outcome
from .roles import mem_at, init_at, u_at, calls, stepping, MAXACC

NEXT = r"InstructionIterator<.*&pinocchio::account_info::AccountInfo> as std::iter::Iterator>::next$"
NEW = r"InstructionIterator::<.*&pinocchio::account_info::AccountInfo>::new$"
RESTR = r"as swig_compact_instructions::RestrictedKeys>::is_restricted$"
A0 = ("R", atom("sym", "a0"))
SYS0 = bytes(32)
AI_KEY, AI_OWNER, AI_LAMP, AI_SIGN, AI_WRIT = 8, 40, 72, 1, 2      # pinocchio account header

def field(ip, v, name):
    t = ip.T[v.ty]["variants"][v.var or 0]
    if name not in t["names"]: raise Missing("field %s of %s" % (name, ip.T[v.ty]["s"]))
    return v.f[t["names"].index(name)]

def acct_ptr(ip): return ip.T[ip.p.bystr[uniq(ip.p, r"^pinocchio::account_info::AccountInfo$")]]["variants"][0]["fields"][0]

def accroot(ip, accs, i):
    st = ip.new_state()
    v = ip.tload(st, ip.region_mem(st, accs.root), scale(i, 8), acct_ptr(ip))
    return v.root

def byte_true(ip, root, off): return ne(V(ldv(root, K(off), 1)))

class It:
    """fields of the iterator behind argument 0"""
    def __init__(self, ip, fn):
        ty = ip.T[fn["locals"][1]]["to"]
        self.rec = Rec(ip, Ptr(A0), ty); st = ip.new_state()
        g = lambda n: self.rec.init(st, n)
        self.accs, self.data, self.keys, self.signer, self.cursor, self.left = (g(n) for n in ("accounts", "data", "restricted_keys", "signer", "cursor", "remaining"))
    def live(self): return [le(self.cursor, self.data.meta), le(self.data.meta, K(MAXACC)), le(K(1), self.cursor)]
    def byte(self, o): return V(ldv(self.data.root, o, 1))

def truth(c, f):
    """True/False/None of a formula on a path"""
    if c.facts.prove(f): return True
    if c.facts.prove(neg(f)): return False
    return None

def flag_of(v):
    """formula of a stored flag"""
    if isinstance(v, Lin):
        a = single(v)
        return a.args[0] if a is not None and a.op == "bool" else ne(v)
    if isinstance(v, tuple) and v and v[0] in ("ne", "eq") and single(v[1]) is not None and single(v[1]).op == "bool":
        return single(v[1]).args[0] if v[0] == "ne" else neg(single(v[1]).args[0])
    return v
def at_var(ip, s, t):
    """a loop variable known to equal t on this path, else t"""
    for lr in ip.looprecs:
        for lf, (val, i0, ty) in lr.leaves.items():
            if isinstance(val, Lin) and single(val) is not None and s.facts.prove(eq(val, t)): return val
    return t

def keys_equal(ip, c, a, b, d):
    x, y = init_at(ip, a.root, a.off, K(32)), init_at(ip, b.root, b.off, K(32))
    if x == y: return TRUE
    return interp.bytes_eq_any(x, y)

def parser(R, P):
    fn = P.one(NEXT); ip = R.interp("solana", opaque=[RESTR]); paths = ip.run(fn); R.done(ip)
    it = It(ip, fn); A = it.accs.meta; D = it.data; c0 = it.cursor
    live = []
    for s in paths:
        s.assume(*it.live())
        if not contradictory(s): live.append(s)
    R.count("paths of the parser", len(live))
    nsome = nnone = nerr = 0
    bool_t = P.bystr["bool"]
    # one account per iteration
    loops = [lr for lr in ip.looprecs if any(e[0] == "push" for t in lr.latches for e in t.events[len(lr.head.events):])]
    R.floor("loops that collect accounts", len(loops), 1)
    good_loops = []
    for lr in loops:
        nl = 0
        for t in lr.latches:
            t = t.copy(); t.assume(*it.live())
            if contradictory(t): continue
            nl += 1
            cur = it.rec.get(lr.head, "cursor")
            b = it.byte(cur); acc = accroot(ip, it.accs, b); key = Ptr(acc, (), K(AI_KEY), None)
            ev = t.events[len(lr.head.events):]
            pushes = [e for e in ev if e[0] == "push"]
            R.ob(t.facts.prove(lt(b, A)), "index in range", describe(t, ip, "an encoded account index is used without being below the number of accounts"))
            R.ob(t.facts.prove(lt(cur, D.meta)), "index byte in range", describe(t, ip, "an account index is read without being known to lie within the encoding"))
            R.ob(same(ip, t, it.rec.get(t, "cursor"), addk(cur, 1)), "one byte per account", describe(t, ip, "an account entry does not consume exactly one byte"))
            R.ob(len(pushes) == 3 and len({e[1] for e in pushes}) == 3, "one entry per account", describe(t, ip, "an encoded account does not add exactly one entry to each list"))
            meta = None; S = None
            for e in pushes:
                rid = e[1]; n0 = lr.head.vlen.get(rid)
                if n0 is None: continue
                kind = vec_elem(ip, P, t, e, rid)
                if kind == "index":
                    R.ob(same(ip, t, u_at(ip, t, rid, scale(n0, 8), 8), b), "recorded index", describe(t, ip, "the recorded account index is not the encoded one"))
                elif kind == "meta":
                    m = e[2]
                    mt = P.bystr[meta_ty(P)]; v = ip.tload(t, t.mem[rid], scale(n0, P.types[mt]["size"]), mt)
                    k = field(ip, v, "pubkey")
                    R.ob(isinstance(k, Ptr) and k.root == acc and t.facts.prove(eq(k.off, K(AI_KEY))), "expanded key", describe(t, ip, "the expanded account is not the one the encoded index names"))
                    w = flag_of(field(ip, v, "is_writable"))
                    R.ob(same(ip, t, w, byte_true(ip, acc, AI_WRIT)), "writable flag", describe(t, ip, "an expanded account's writable flag differs from the outer account's (%s)" % fmt(w)))
                    S = flag_of(field(ip, v, "is_signer")); meta = v
                elif kind == "cpi":
                    at = P.bystr[cpi_ty(P)]; v = ip.tload(t, t.mem[rid], scale(n0, P.types[at]["size"]), at)
                    ptrs = [x for x in flatten(v) if isinstance(x, Ptr)]
                    R.ob(ptrs and all(p.root == acc for p in ptrs), "account passed on", describe(t, ip, "the account handed to the invoked program is not the one the encoded index names"))
                else: R.ob(False, "unknown list", describe(t, ip, "a list of unknown element type is filled"))
            if S is None: R.ob(False, "signer flag", describe(t, ip, "no expanded account is recorded")); continue
            rc = [e for e in ev if e[0] == "call" and re.search(r"is_restricted$", e[1])]
            rr = [ip.mat(e[3], bool_t) for e in rc if restricted_args(ip, t, e, it, key)]
            R.ob(len(rr) == len(rc), "restricted list asked", describe(t, ip, "the restricted list is asked about another key or another list is asked"))
            own = interp.bytes_eq_any(init_at(ip, acc, K(AI_KEY), K(32)), init_at(ip, it.signer.root, it.signer.off, K(32)))
            outer = byte_true(ip, acc, AI_SIGN)
            def ref(d, st):
                if not (d(own) or d(outer)): return False
                if not rr: return None
                return not d(rr[0])
            for c, want in cases(t, ref):
                if contradictory(c): continue
                got = truth(c, S)
                R.ob(want is not None and got is want, "signer flag", describe(c, ip, "an expanded account is %sa signer although it must%s be" % ("" if got else "not " if got is False else "possibly ", "" if want else " not")))
        R.floor("account iterations", nl, 1)
    for s in live:
        cd = it.rec.get(s, "cursor"); R.count("paths")
        if s.out != "ret": R.ob(False, "parser aborts", describe(s, ip, "expanding an instruction aborts: %s" % site_fn(s, ip))); continue
        v = vname(ip, s.ret)
        zero = truth(s, eq(it.left))
        if v == "None":
            nnone += 1
            R.ob(zero is True and s.facts.prove(eq(cd, c0)), "end of list", describe(s, ip, "the list ends although encoded instructions are left"))
            continue
        R.ob(zero is False, "after the end", describe(s, ip, "an instruction is produced although none is left"))
        R.ob(same(ip, s, it.rec.get(s, "remaining"), addk(it.left, -1)), "remaining count", describe(s, ip, "producing an instruction does not use up exactly one of the announced number"))
        r = s.ret.f[0]; rv = vname(ip, r)
        p = it.byte(c0); n = it.byte(addk(c0, 1)); tot = at_var(ip, s, add(addk(c0, 2), n)); dl = V(ldv(D.root, tot, 2)); end = add(addk(tot, 2), dl)
        if rv == "Err":
            nerr += 1
            here = it.rec.get(s, "cursor")
            why = [lt(D.meta, addk(c0, 2)), le(A, p), lt(K(253), n), lt(D.meta, add(c0, K(1))), lt(D.meta, addk(tot, 2)), lt(D.meta, end), le(D.meta, here), lt(D.meta, addk(here, 2)), le(A, it.byte(here)), le(A, it.byte(addk(here, -1)))]
            R.ob(any(s.facts.prove(f) for f in why) or s.facts.prove(f_or(*why)), "refusal", describe(s, ip, "a well-formed encoding is refused"))
            continue
        if rv != "Ok": R.ob(False, "parser result", describe(s, ip, "unknown result %r" % (r,))); continue
        nsome += 1
        h = r.f[0]
        pid = field(ip, h, "program_id"); R.ob(s.facts.prove(lt(p, A)), "program index in range", describe(s, ip, "the program index is used without being below the number of accounts"))
        R.ob(isinstance(pid, Ptr) and pid.root == accroot(ip, it.accs, p) and s.facts.prove(eq(pid.off, K(AI_KEY))), "program", describe(s, ip, "the program invoked is not the account the first byte names"))
        for nm in ("accounts", "indexes", "cpi_accounts"):
            x = field(ip, h, nm)
            ln = s.vlen.get(x.rid) if isinstance(x, Vecv) else None
            R.ob(ln is not None and s.facts.prove(eq(ln, n)), "number of accounts", describe(s, ip, "`%s` does not hold exactly the encoded number of accounts" % nm))
            R.ob(ln is not None and (any(x.rid == e[1] for lr in loops for t in lr.latches for e in t.events[len(lr.head.events):] if e[0] == "push")), "collected list", describe(s, ip, "`%s` is not the list the accounts were collected in" % nm))
        R.ob(s.facts.prove(le(n, K(254))), "too many accounts", describe(s, ip, "more accounts than an instruction may have are accepted"))
        d = field(ip, h, "data")
        R.ob(isinstance(d, Ptr) and d.root == D.root and s.facts.prove(eq(d.off, addk(tot, 2))) and s.facts.prove(eq(d.meta, dl)), "instruction data", describe(s, ip, "the data handed on is not the encoded data"))
        R.ob(s.facts.prove(le(end, D.meta)), "truncated data", describe(s, ip, "data beyond the end of the encoding is accepted"))
        R.ob(same(ip, s, cd, end), "next instruction", describe(s, ip, "the next instruction does not start where this one ended"))
        uses(R, P, ip, it, s, h, loops)
    R.floor("expanded instructions", nsome, 1); R.floor("end of list", nnone, 1); R.floor("refusals", nerr, 4)

def uses(R, P, ip, it, s, h, loops):
    """the holder tells whether the wallet's own signature is handed on: true exactly from the first account that carries it"""
    u = flag_of(field(ip, h, "uses_swig_signer")); bool_t = P.bystr["bool"]
    for lr in loops:
        lf = None
        for x, (val, init, ty) in lr.leaves.items():
            if x[0] != "S" or not isinstance(val, tuple): continue
            if val == u or same(ip, s, u, val): lf = x; v0, i0 = val, init
        if lf is None: continue
        R.ob(i0 == FALSE, "signature report starts", describe(s, ip, "the report of the wallet's own signature does not start at no"))
        for t in lr.latches:
            t = t.copy(); t.assume(*it.live())
            if contradictory(t): continue
            b = it.byte(it.rec.get(lr.head, "cursor")); acc = accroot(ip, it.accs, b)
            own = interp.bytes_eq_any(init_at(ip, acc, K(AI_KEY), K(32)), init_at(ip, it.signer.root, it.signer.off, K(32)))
            rr = [ip.mat(e[3], bool_t) for e in t.events[len(lr.head.events):] if e[0] == "call" and re.search(r"is_restricted$", e[1])]
            def ref(d, st):
                if d(v0): return True
                if not d(own): return False
                return None if not rr else not d(rr[0])
            for c, want in cases(t, ref):
                if contradictory(c): continue
                R.ob(want is not None and truth(c, flag_of(ip.get_leaf(t, lf))) is want, "signature report", describe(c, ip, "the report of the wallet's own signature is wrong for an account"))
        return
    R.ob(False, "signature report", describe(s, ip, "whether the wallet's own signature is handed on is not computed from the accounts"))

def restricted_args(ip, t, e, it, key):
    """is_restricted(&self.restricted_keys, pubkey of this account)"""
    a, k = e[2][0], e[2][1]
    want_k = init_at(ip, key.root, key.off, K(32))
    ok_k = isinstance(k, tuple) and k[0] == "bytes" and (k[1] == want_k or ip.canon(t, k[1]) == want_k)
    ok_a = isinstance(a, tuple) and a[:3] == ("ptr", A0, ()) and getattr(a[3], "const", a[3]) == it.rec.v["offs"][it.rec.idx("restricted_keys")]
    return ok_k and ok_a

def flatten(v):
    if isinstance(v, Agg):
        for x in v.f: yield from flatten(x)
    else: yield v

def meta_ty(P): return uniq(P, r"^pinocchio::instruction::AccountMeta(<.*>)?$")
def cpi_ty(P): return uniq(P, r"^pinocchio::instruction::Account(<.*>)?$")
def uniq(P, pat):
    c = [s for s in P.bystr if re.search(pat, s)]
    if not c: raise Missing("type " + pat)
    return c[0]

def vec_elem(ip, P, t, e, rid):
    """what kind of element a push event adds, from the element's size in the vector's memory"""
    m = t.mem[rid]; sz = {}
    for nm, ty in (("meta", P.bystr[meta_ty(P)]), ("cpi", P.bystr[cpi_ty(P)])): sz[nm] = P.types[ty]["size"]
    w = e[2]
    if isinstance(w, tuple) and w and w[0] == "agg":
        n = len(w) - 2
        return "meta" if n == len(P.types[P.bystr[meta_ty(P)]]["variants"][0]["fields"]) else "cpi"
    return "index"

def ctor(R, P):
    fn = P.one(NEW); ip = R.interp("solana"); n = 0
    d = Ptr(("R", atom("sym", "a1"))); ln = V(atom("len", atom("sym", "a1"), lo=0, hi=U63))
    for s in ip.run(fn):
        if contradictory(s): continue
        n += 1
        v = outcome(ip, s)
        if v == "Err": R.ob(s.facts.prove(eq(ln)), "start refused", describe(s, ip, "a non-empty list is refused")); continue
        if not R.ob(v == "Ok", "start", describe(s, ip, "starting to read a list aborts")): continue
        it = s.ret.f[0]
        R.ob(s.facts.prove(le(K(1), ln)), "empty list", describe(s, ip, "an empty encoding is accepted"))
        R.ob(same(ip, s, field(ip, it, "cursor"), K(1)) and same(ip, s, field(ip, it, "remaining"), V(ldv(("R", atom("sym", "a1")), K(0), 1))), "start of list", describe(s, ip, "the first byte is not taken as the number of instructions"))
        for nm, i in (("accounts", 0), ("data", 1), ("signer", 2), ("restricted_keys", 3)):
            x = field(ip, it, nm)
            R.ob(isinstance(x, Ptr) and x.root == ("R", atom("sym", "a%d" % i)) and s.facts.prove(eq(x.off)) and (x.meta is None or s.facts.prove(eq(x.meta, V(atom("len", atom("sym", "a%d" % i), lo=0, hi=U63))))), "list " + nm, describe(s, ip, "`%s` is not what was passed in" % nm))
    R.done(ip); R.floor("paths of new", n, 2)

def restricted(R, P):
    """is_restricted answers whether the key is in the list, for every list"""
    cs = P.find(RESTR)
    R.floor("restricted-list lookups", len(cs), 1)
    for fn in cs:
        ip = R.interp("solana"); paths = ip.run(fn); R.done(ip); n = 0
        for s in paths:
            if contradictory(s): continue
            n += 1
            if s.out != "ret": R.ob(False, "restricted list aborts", describe(s, ip, "asking the restricted list aborts")); continue
            f = flag_of(s.ret)
            pr = [x for x in atoms_in(f) if x.op == "contains"]
            if pr:
                a, x = pr[0].args; lst = listarg(ip, fn)
                R.ob(f == pred(pr[0]) and a == ip.canon(ip.new_state(), lst, None) and x == init_at(ip, ("R", atom("sym", "a1")), K(0), K(32)), "restricted list", describe(s, ip, "the restricted list is not asked for the key"))
                continue
            # a walk: true when some element equals, false when all were compared
            ok = False
            for lr in ip.looprecs:
                ok = ok or walk_any(ip, lr, s, f)
            R.ob(ok, "restricted list", describe(s, ip, "is_restricted does not decide membership of the key in the list"))
        R.floor("paths of is_restricted", n, 1)

def listarg(ip, fn):
    st0 = ip.new_state()
    return ip.tload(st0, ip.region_mem(st0, A0), K(0), ip.T[fn["locals"][1]]["to"])

def atoms_in(f):
    if isinstance(f, tuple) and f and f[0] == "p": return [f[1]] if isinstance(f[1], Atom) else []
    if isinstance(f, tuple) and f and f[0] in ("ne", "eq", "le"): return list(atoms_of(f[1]))
    return []

def walk_any(ip, lr, s, f):
    """s leaves a walk over the whole list: at an equal key (true) or after every key was unequal (false)"""
    st0 = ip.new_state(); lst = listarg(ip, lr.head.frames[0].fn)
    keyc = init_at(ip, ("R", atom("sym", "a1")), K(0), K(32))
    for lf, val in stepping(ip, lr, lambda t, v: addk(v, 8), K(0)) + stepping(ip, lr, lambda t, v: addk(v, 1), K(0)):
        k = 8 if ip.get_leaf(lr.latches[0], lf) is addk(val, 8) else 1
        off = val if k == 8 else scale(val, 8)
        e = ip.tload(st0, ip.region_mem(st0, lst.root), off, ip.p.bystr["&[u8; 32]"])
        eq1 = interp.bytes_eq_any(init_at(ip, e.root, K(0), K(32)), keyc)
        if s.facts.prove(f) and s.facts.prove(eq1): return True
        if s.facts.prove(neg(f)) and s.facts.prove(le(scale(lst.meta, 8), off)) and all(t.facts.prove(neg(eq1)) for t in lr.latches if not contradictory(t)): return True
    return False

def p21(R):
    P = R.prog("solana")
    R.rule("InstructionIterator::new and next, every path, all encodings and account lists: announced number and cursor; program = account of the first byte, below the account count; every iteration of the account walk reads one byte, below the account count, and records the index, the key, the outer writable flag, the account itself, and a signer flag that is (own key or outer signer) and not restricted; list lengths equal the encoded count (at most 254); data is the encoded range within bounds; the cursor ends after it; every refusal has one of the stated reasons; no path aborts")
    R.rule("is_restricted decides membership of the key in the list")
    R.assume("accounts are at most 10 MiB, so positions do not overflow; the account slice passed in is pinocchio's")
    parser(R, P); ctor(R, P); restricted(R, P)
    return R.finish("other", "Path-partitioned abstract interpretation with inductive loop summaries of the on-chain parser of compact instructions (on-chain configuration), for all encodings, account lists and restricted lists.")

EXEC = r"InstructionHolder::<.*>::execute$"
INVOKE = [r"invoke_signed", r"pinocchio::program::invoke", r"pinocchio::cpi::invoke"]

def p23(R):
    P = R.prog("solana")
    R.rule("execute, every path, split on: invoked program is the system program, at least 12 data bytes beginning 2,0,0,0, at least two accounts, first account is the wallet, source account not system-owned. All true: no invocation; an Ok path leaves source and destination lamports at their old values minus / plus the encoded amount with no overflow and changes nothing else; otherwise exactly one invocation of exactly this instruction (program, metadata, data), with its accounts and the given signature, and no lamport change")
    R.assume("the holder comes from the parser: its three lists have equal length and recorded indexes lie below the number of accounts (P21); source and destination are different accounts (the runtime refuses unbalanced changes otherwise)")
    fn = P.one(EXEC); ip = R.interp("solana", opaque=INVOKE); paths = ip.run(fn); R.done(ip)
    h = Rec(ip, Ptr(A0), P.T[fn["locals"][1]]["to"] if hasattr(P, "T") else P.types[fn["locals"][1]]["to"]); st0 = ip.new_state()
    g = lambda n: h.init(st0, n)
    prog, metas, idxs, cpis, data = g("program_id"), g("accounts"), g("indexes"), g("cpi_accounts"), g("data")
    L = lambda v: V(atom("len", v.rid[1], lo=0, hi=U63)) if isinstance(v, Vecv) else v.meta
    root = lambda v: v.rid if isinstance(v, Vecv) else v.root
    n = L(metas)
    all_ = Ptr(("R", atom("sym", "a1")), (), K(0), V(atom("len", atom("sym", "a1"), lo=0, hi=U63)))
    mty = P.bystr[meta_ty(P)]
    def idx(i): return V(ldv(root(idxs), K(8 * i), 8))
    first = ip.tload(ip.new_state(), ip.region_mem(ip.new_state(), root(metas)), K(0), mty)
    fkey = field(ip, first, "pubkey")
    c32 = lambda p: init_at(ip, p.root, p.off, K(32))
    src, dst = accroot(ip, all_, idx(0)), accroot(ip, all_, idx(1))
    lam = lambda r: V(ldv(r, K(AI_LAMP), 8))
    amount = V(ldv(data.root, K(4), 8))
    conds = [("the system program", interp.bytes_eq_any(c32(prog), SYS0)), ("at least 12 data bytes", le(K(12), data.meta)),
             ("a transfer", interp.bytes_eq_any(init_at(ip, data.root, K(0), K(4)), bytes([2, 0, 0, 0]))),
             ("at least two accounts", le(K(2), n)), ("the wallet as source", interp.bytes_eq_any(c32(fkey), init_at(ip, ("R", atom("sym", "a2")), K(0), K(32)))),
             ("a source the system program does not own", neg(interp.bytes_eq_any(init_at(ip, src, K(AI_OWNER), K(32)), SYS0)))]
    nm = nd = ni = 0
    for s in paths:
        s.assume(eq(L(idxs), n), eq(L(cpis), n))
        if contradictory(s): continue
        def ref(d, st):
            for w, f in conds:
                if not d(f): return w
            return None
        for c, miss in cases(s, ref):
            if miss != "at least two accounts" and miss != "at least 12 data bytes": c.assume(lt(idx(0), all_.meta), lt(idx(1), all_.meta))
            if contradictory(c): continue
            nm += 1
            inv = [e for e in c.events if e[0] == "call" and re.search(r"invoke", e[1])]
            st = [e for e in c.events if e[0] == "store" and e[1][0] in ("R", "V")]
            if miss is None:
                nd += 1
                R.ob(not inv, "direct transfer", describe(c, ip, "a transfer out of the wallet's own account also invokes a program"))
                out = outcome(ip, c); x, y = lam(src), lam(dst)
                if out == "Ok":
                    R.ob(c.facts.prove(le(amount, x)) and c.facts.prove(le(add(y, amount), K((1 << 64) - 1))), "no wrap", describe(c, ip, "a balance may wrap"))
                    R.ob(same(ip, c, u_at(ip, c, src, K(AI_LAMP), 8), sub(x, amount)), "source", describe(c, ip, "the source does not lose exactly the encoded amount"))
                    R.ob(same(ip, c, u_at(ip, c, dst, K(AI_LAMP), 8), add(y, amount)), "destination", describe(c, ip, "the destination does not gain exactly the encoded amount"))
                    R.ob({e[1] for e in st} == {src, dst} and all(e[2].const == AI_LAMP and e[3].const == 8 for e in st), "only balances", describe(c, ip, "something besides the two balances changes"))
                else: R.ob(out == "Err" and (truth(c, lt(x, amount)) is True or truth(c, lt(K((1 << 64) - 1), add(y, amount))) is True), "direct transfer refused", describe(c, ip, "a covered transfer is refused"))
            else:
                ni += 1
                R.ob(not st, "shortcut without %s" % miss, describe(c, ip, "lamports move directly although the instruction is not %s" % miss))
                R.ob(len(inv) == 1, "invocation without %s" % miss, describe(c, ip, "an instruction that is not %s is not invoked exactly once" % miss))
                if len(inv) == 1: R.ob(invoked(ip, c, inv[0], prog, metas, data, cpis, n), "what is invoked", describe(c, ip, "what is invoked is not exactly this instruction with its accounts and the given signature"))
                R.ob(outcome(ip, c) in ("Ok", "Err"), "execute aborts", describe(c, ip, "executing an instruction aborts"))
    R.floor("execution cases", nm, 8); R.floor("direct transfers", nd, 1); R.floor("invocations", ni, 6)
    return R.finish("other", "Path-partitioned abstract interpretation of InstructionHolder::execute (on-chain configuration), every path against the reference case split.")

def parts(x):
    """all pointers in the canonical form of an argument"""
    if isinstance(x, tuple):
        if x and x[0] == "ptr": yield x
        else:
            for y in x: yield from parts(y)

def invoked(ip, c, e, prog, metas, data, cpis, n):
    a = e[2]
    ins = a[0]
    if isinstance(ins, tuple) and ins and ins[0] == "ptr":
        try:
            r = c.slots.get(ins[1])
            ins = ip.canon(c, r, None) if r is not None else ins
        except Unsupported: pass
    ps = list(parts(ins))
    want = [("ptr", prog.root, (), 0, None)]
    root = lambda v: v.rid if isinstance(v, Vecv) else v.root
    def has(r, off, ln):
        for p in ps:
            if p[1] != r: continue
            m = p[4] if len(p) > 4 else None
            o = p[3] if isinstance(p[3], Lin) else K(p[3]) if isinstance(p[3], int) else None
            if o is None or not c.facts.prove(eq(o, off)): continue
            if ln is None or (isinstance(m, Lin) and c.facts.prove(eq(m, ln))): return True
        return False
    if len(ps) != 3: return False
    ok = has(prog.root, K(0), None) and has(root(metas), K(0), n) and has(data.root, K(0), data.meta)
    ps = list(parts(a[1])); ok = ok and len(ps) == 1 and has(root(cpis), K(0), n)
    ps = list(parts(a[2])); ok = ok and len(ps) == 1 and ps[0][1] == ("R", atom("sym", "a3"))
    return ok

ENC = (("compact_instructions", 1), ("compact_instructions_sub_account", 2))
def widthless(v):
    """value before its conversion to the width written"""
    while isinstance(v, Lin):
        a = single(v)
        if a is None or a.op != "trunc": return v
        v = a.args[0] if isinstance(a.args[0], Lin) else V(a.args[0])
    return v
def le_value(x):
    """integer a pushed element holds"""
    if isinstance(x, Atom) and x.op == "le": return x.args[0]
    if isinstance(x, bytes): return K(int.from_bytes(x, "little"))
    if isinstance(x, Lin): return x
    return V(x) if isinstance(x, Atom) else None

def p22(R):
    P = R.prog("solana")
    R.rule("encoders (wallet and sub-account form), every loop iteration, all inputs: each key stored in the index map names the outer entry at that index; each inner account writes exactly one index byte, either one the map gave for that account's own key or the position of the entry just added; an added entry has the account's own key and writable flag and its signer flag except that the wallet (and sub-account) is never a signer; the program of each instruction is added as a read-only non-signer and named by its position; the caller's entries are not touched; data and account lists go into the compact instruction unchanged, in order")
    R.rule("into_bytes: instruction count, then for each instruction in order program index, account count, account indexes, data length (2 bytes, little endian), data: the format the parser is shown to read (P21)")
    R.assume("at most 256 outer accounts, 255 instructions, 255 accounts per instruction and 65535 data bytes, the widths of the format (larger requests are truncated by the encoder)")
    R.par(list(ENC) + [None], lambda r, j: encoder(r, P, *j) if j else serial(r, P))
    return R.finish("other", "Path-partitioned abstract interpretation with inductive loop summaries of the two client encoders and of into_bytes, for all instruction lists.")

def new_entries(ip, lr, t, rid):
    """[(index, event)] of entries a path adds to a list since the loop head"""
    n0 = lr.head.vlen.get(rid); out = []
    for e in t.events[len(lr.head.events):]:
        if e[0] == "push" and e[1] == rid: out.append((addk(n0, len(out)), e))
    return out

def encoder(R, P, nm, nkeys):
    fn = P.one(r"^swig_compact_instructions::%s$" % nm); ip = R.interp("solana"); paths = ip.run(fn); R.done(ip)
    key = nm; accs = ("V", atom("sym", "a%d" % nkeys)); mt = P.bystr["solana_instruction::account_meta::AccountMeta"] if "solana_instruction::account_meta::AccountMeta" in P.bystr else P.bystr[uniq(P, r"^solana.*::AccountMeta$")]
    es = P.types[mt]["size"]; mv = P.types[mt]["variants"][0]; off = {n: mv["offs"][mv["names"].index(n)] for n in ("pubkey", "is_signer", "is_writable")}
    own = [ip.canon(ip.new_state(), ip.arr_bytes(ip.new_state(), v) if isinstance(v, Arr) else v, 32) for v in ()]
    argk = [content_arg(ip, fn, i) for i in range(nkeys)]
    ngets = nsets = nbytes = nprog = nix = 0
    for lr in ip.looprecs:
        for t in lr.latches:
            if contradictory(t): continue
            ev = t.events[len(lr.head.events):]
            inner = {id(e) for l2 in ip.looprecs if l2 is not lr for t2 in l2.latches for e in t2.events[len(l2.head.events):]}
            ev = [e for e in ev if id(e) not in inner]
            if not ev: continue
            added = new_entries(ip, lr, t, accs); gets = [e for e in ev if e[0] == "mapget"]; sets = [e for e in ev if e[0] == "mapset"]
            for e in ev:
                if e[0] == "store" and e[1] == accs: R.ob(False, key + " entries", describe(t, ip, "%s: an entry of the outer account list is overwritten" % nm))
            for e in sets:
                nsets += 1
                R.ob(entry_key(ip, lr, t, accs, e[2], es, off) == e[1] if isinstance(e[2], Lin) else False, key + " index map", describe(t, ip, "%s: a key is recorded at a position that does not hold it" % nm))
            small = [e for e in ev if e[0] == "push" and e[1] != accs and is_byte(e[2])]
            metas = [e for e in ev if e[0] == "push" and e[1] == accs]
            structs = [e for e in ev if e[0] == "push" and e[1] != accs and not is_byte(e[2])]
            for e in structs:
                nix += 1
                instruction(R, P, ip, lr, t, e, accs, added, es, off, key, [("V", atom("sym", "a%d" % (nkeys + 1)))])
            src = None
            if gets or small:
                R.ob(len(small) == 1, key + " one index", describe(t, ip, "%s: an inner account does not write exactly one index" % nm))
                ks = {e[1] if isinstance(e[1], bytes) else e[1] for e in gets}
                for e in small:
                    nbytes += 1
                    v = widthless(le_value(e[2])); ok = False
                    for gt in gets:
                        some = truth(t, eq(V(atom("discr", gt[2])), K(1))) is True
                        if some and v is V(atom("vf", gt[2], 1, 0)) or some and same_load(ip, t, v, gt[2]): ok = True
                    for i, p in added:
                        if isinstance(v, Lin) and t.facts.prove(eq(v, i)): ok = True
                    R.ob(ok, key + " index", describe(t, ip, "%s: an index written for an account is neither the map's answer for it nor the position it was added at" % nm))
                ngets += len(gets)
                src = element(ip, lr, t, gets)
                for gt in gets: R.ob(src is not None and gt[1] == src["pubkey"], key + " account asked", describe(t, ip, "%s: the map is asked about a key that is not the account's" % nm))
                for i, p in added:
                    have = {n: entry(ip, t, accs, i, es, off[n], 32 if n == "pubkey" else 1) for n in off}
                    R.ob(src is not None and have["pubkey"] == src["pubkey"], key + " added key", describe(t, ip, "%s: the entry added for an account has another key" % nm))
                    R.ob(src is not None and same(ip, t, as_flag(have["is_writable"]), as_flag(src["is_writable"])), key + " added writable", describe(t, ip, "%s: the entry added for an account has another writable flag" % nm))
                    def ref(d, st):
                        if any(d(interp.bytes_eq_any(src["pubkey"], k)) for k in argk): return False
                        return d(as_flag(src["is_signer"]))
                    if src is not None:
                        for c, want in cases(t, ref):
                            if contradictory(c): continue
                            R.ob(truth(c, as_flag(have["is_signer"])) is want, key + " added signer", describe(c, ip, "%s: the entry added for an account is %sa signer" % (nm, "not " if want else "")))
                R.ob(len(added) <= 1, key + " one entry", describe(t, ip, "%s: an account is added more than once" % nm))
                if added: R.ob(any(gt for gt in gets if truth(t, eq(V(atom("discr", gt[2])), K(1))) is False) and any(sets_same(t, e, src) for e in sets), key + " added once", describe(t, ip, "%s: an account is added although it is already listed, or without being recorded as listed" % nm))
            elif added:
                for i, p in added:
                    if id(p) in inner: continue
                    nprog += 1
                    R.ob(all(truth(t, pushed(ip, t, accs, i, p, n, es, off, mv)) is False for n in ("is_signer", "is_writable")), key + " program entry", describe(t, ip, "%s: a program is listed as signer or writable" % nm))
    R.floor(nm + " map answers", ngets, 2); R.floor(nm + " recorded keys", nsets, 2); R.floor(nm + " index bytes", nbytes, 2); R.floor(nm + " instructions", nix, 1)
    for s in paths:
        if contradictory(s): continue
        R.ob(s.out == "ret", key + " aborts", describe(s, ip, "%s aborts" % nm))
        if s.out != "ret": continue
        out = s.ret.f[0]
        R.ob(isinstance(out, Vecv) and out.rid == accs, key + " result", describe(s, ip, "%s: the outer list returned is not the one the indexes refer to" % nm))

def content_arg(ip, fn, i):
    st = ip.new_state(); vals = ip.arg_values(st, fn)
    m = ip.tstore(st, Mem(("un",)), K(0), fn["locals"][i + 1], vals[i])
    return ip.canon(st, ip.range_bytes(st, m, K(0), K(32)))
def is_byte(c): return isinstance(c, bytes) and len(c) == 1 or isinstance(c, Atom) and (c.op == "le" and c.args[1] == 1 or c.op in ("ld", "sub"))
def as_flag(x):
    if isinstance(x, bytes): return FALSE if x == b"\0" else TRUE
    if isinstance(x, Atom) and x.op == "le": return flag_of(x.args[0])
    if isinstance(x, Atom):
        if x.lo is None: x.lo, x.hi = 0, 255
        return flag_of(V(x))
    return flag_of(x)
def entry(ip, t, rid, i, es, o, n): return ip.canon(t, ip.slice_bytes_nochk(t, Ptr(rid, (), addk(scale(i, es), o)), K(n)))
def pushed(ip, t, rid, i, e, n, es, off, mv):
    """flag of an entry as it was added"""
    c = e[2]
    if isinstance(c, tuple) and c and c[0] == "agg":
        c = c[2 + mv["names"].index(n)]
        return c[1] if isinstance(c, tuple) and len(c) == 2 and c[0] == "c" and isinstance(c[1], tuple) else as_const(c)
    return as_flag(entry(ip, t, rid, i, es, off[n], 1))
def as_const(c):
    if isinstance(c, tuple) and c[0] == "c" and isinstance(c[1], bool): return TRUE if c[1] else FALSE
    return as_flag(c) if isinstance(c, (bytes, Atom, Lin)) else c
def entry_key(ip, lr, t, rid, i, es, off):
    best = entry(ip, t, rid, i, es, off["pubkey"], 32)
    for lf, (val, i0, ty) in lr.leaves.items():
        if isinstance(val, Lin) and single(val) is not None and lr.head.facts.prove(eq(val, scale(i, es))):
            return ip.canon(t, ip.slice_bytes_nochk(t, Ptr(rid, (), addk(val, off["pubkey"])), K(32)))
    return best
def same_load(ip, t, v, a):
    """v is the value behind the reference the map answered with"""
    x = single(v) if isinstance(v, Lin) else None
    return x is not None and x.op == "ld" and str(a) in str(x) and fmt(v).startswith("(R,vf(") and fmt(v).endswith("[0;8]")
def sets_same(t, e, src): return src is not None and e[1] == src["pubkey"]

def walks(ip, lr, es, roots=()):
    """[(region, byte position)] a loop may be walking, one element of es bytes a time: by pointer, or by index into one of the regions"""
    out = []
    for lf, val in stepping(ip, lr, lambda s, v: addk(v, es), K(0)):
        if lf[0] != "S": continue
        v = lr.head.slots.get(lf[1]); p = ip.get_path(lr.head, v, lf[2]) if v is not None else None
        if isinstance(p, Ptr): out.append((p.root, val))
    for lf, val in stepping(ip, lr, lambda s, v: addk(v, 1), K(0)):
        if lf[0] == "S": out += [(r, scale(val, es)) for r in roots]
    return out

def element(ip, lr, t, gets=()):
    """fields of the inner account this iteration handles, read at the walk's position"""
    P = ip.p; mt = P.bystr[uniq(P, r"^solana.*::AccountMeta$")]; mv = P.types[mt]["variants"][0]; es = P.types[mt]["size"]
    asked = {e[1].args[0] for e in gets if isinstance(e[1], Atom) and e[1].op == "ld" and isinstance(e[1].args[0], tuple)}
    for root, val in walks(ip, lr, es, asked):
        return {n: ip.canon(lr.head, ip.slice_bytes_nochk(lr.head, Ptr(root, (), addk(val, mv["offs"][mv["names"].index(n)])), K(32 if n == "pubkey" else 1))) for n in ("pubkey", "is_signer", "is_writable")}
    return None

def instruction(R, P, ip, lr, t, e, accs, added, es, off, key, given):
    """the compact instruction recorded for an instruction of the walk"""
    it = P.bystr[uniq(P, r"^solana.*::instruction::Instruction$|^solana_instruction::Instruction$")]; iv = P.types[it]["variants"][0]
    ct = P.bystr["swig_compact_instructions::CompactInstruction"]; cv = P.types[ct]["variants"][0]; cs = P.types[ct]["size"]
    n0 = lr.head.vlen.get(e[1])
    src = next(iter(walks(ip, lr, P.types[it]["size"], given)), None)
    if not R.ob(src is not None and n0 is not None, key + " order", describe(t, ip, "%s: instructions are not encoded one by one in their order" % key)): return
    c = ip.tload(t, t.mem[e[1]], scale(n0, cs), ct)
    hd = lr.head.copy()
    def at(n): i = iv["names"].index(n); return ip.tload(hd, ip.region_mem(hd, src[0]), addk(src[1], iv["offs"][i]), iv["fields"][i])
    d, d0 = field(ip, c, "data"), at("data")
    R.ob(isinstance(d, Vecv) and isinstance(d0, Vecv) and d.rid == d0.rid, key + " data", describe(t, ip, "%s: the data encoded is not the instruction's data" % key))
    pi = widthless(field(ip, c, "program_id_index"))
    pk = ip.canon(hd, ip.slice_bytes_nochk(hd, Ptr(src[0], (), addk(src[1], iv["offs"][iv["names"].index("program_id")])), K(32)))
    hit = [i for i, p in before_inner(ip, lr, t, accs) if t.facts.prove(eq(pi, i)) and p == pk]
    R.ob(bool(hit), key + " program", describe(t, ip, "%s: the program index does not name an entry holding the instruction's program" % key))
    a = field(ip, c, "accounts"); a0 = at("accounts")
    walk = [l2 for l2 in ip.looprecs if l2 is not lr and any(x[0] == "push" and isinstance(a, Vecv) and x[1] == a.rid for t2 in l2.latches for x in t2.events[len(l2.head.events):])]
    if not R.ob(len(walk) == 1, key + " account walk", describe(t, ip, "%s: the index list recorded is not the one filled for this instruction" % key)): return
    l2 = walk[0]; em = P.types[P.bystr[uniq(P, r"^solana.*::AccountMeta$")]]["size"]; ok = False
    for root, val in walks(ip, l2, em, [a0.rid] if isinstance(a0, Vecv) else []):
        if isinstance(a0, Vecv) and root == a0.rid:
            ok = ok or t.facts.prove(eq(val, scale(V(atom("len", a0.rid[1], lo=0, hi=U63)), em))) and same_init(l2, a.rid)
    R.ob(ok, key + " account walk", describe(t, ip, "%s: not every account of the instruction gets its index, in order" % key))

def same_init(l2, rid):
    lf = l2.leaves.get(("VL", rid))
    return lf is not None and isinstance(lf[1], Lin) and lf[1].const == 0

def before_inner(ip, lr, t, accs):
    """[(index, key)] of entries an outer iteration adds outside the inner walk"""
    n0 = lr.head.vlen.get(accs); out = []; P = ip.p
    for e in t.events[len(lr.head.events):]:
        if e[0] != "push" or e[1] != accs: continue
        if any(e is x for l2 in ip.looprecs if l2 is not lr for t2 in l2.latches for x in t2.events[len(l2.head.events):]): continue
        k = e[2]
        while isinstance(k, tuple) and k and k[0] == "agg": k = k[2]
        out.append((addk(n0, len(out)), k))
    return out
def serial(R, P):
    """into_bytes: count, then one record after another"""
    fn = P.one(r"^swig_compact_instructions::CompactInstructions::into_bytes$"); ip = R.interp("solana"); paths = ip.run(fn); R.done(ip)
    ct = P.bystr["swig_compact_instructions::CompactInstruction"]; cv = P.types[ct]["variants"][0]; cs = P.types[ct]["size"]
    lists = {s.ret.rid for s in paths if s.out == "ret" and isinstance(s.ret, Vecv)}
    R.ob(len(lists) == 1 and all(s.out == "ret" for s in paths if not contradictory(s)), "one encoding", "into_bytes does not always answer with one list")
    out = next(iter(lists)) if lists else None
    s0 = ip.new_state(); given = ip.arg_values(s0, fn)[0]
    if isinstance(given, Ptr): given = ip.read(s0, given.root, given.path, given.off, ip.T[fn["locals"][1]]["to"])
    given = field(ip, given, "inner_instructions").rid
    nl = 0; seen = []
    for lr in ip.looprecs:
        for t in lr.latches:
            if contradictory(t): continue
            if lr.entry.vlen.get(out) is not None and lr.entry.vlen[out].const is None: continue      # copies within one record
            walk = next(iter(walks(ip, lr, cs, [given])), None)
            if not R.ob(walk is not None, "order", describe(t, ip, "into_bytes does not write the instructions one by one in their order")): continue
            nl += 1; seen.append((lr, walk))
            hd = lr.head.copy(); L = lr.head.vlen.get(out)
            if not R.ob(L is not None and ("VL", out) in lr.leaves and t.facts.prove(le(K(1), L)), "record written", describe(t, ip, "into_bytes does not add to its result")): continue
            def at(n): i = cv["names"].index(n); return ip.tload(hd, ip.region_mem(hd, walk[0]), addk(walk[1], cv["offs"][i]), cv["fields"][i])
            acc, dat, prog = at("accounts"), at("data"), at("program_id_index")
            n, m = veclen(ip, acc), veclen(ip, dat)
            t = t.copy(); t.assume(le(n, K(255)), le(m, K(65535)), le(K(0), n), le(K(0), m))
            o = L; mem = t.mem[out]
            for nm, o, ln, want in (("program index", L, 1, prog), ("account count", addk(L, 1), 1, n), ("data length", add(addk(L, 2), n), 2, m)):
                v = widthless(ip.tload(t, mem, o, P.bystr["u8" if ln == 1 else "u16"]))
                R.ob(same(ip, t, v, widthless(want)), nm, describe(t, ip, "into_bytes writes another %s than the parser reads: %s" % (nm, fmt(v)[:80] if isinstance(v, Lin) else v)))
            for nm, src, o, ln in (("account indexes", acc, addk(L, 2), n), ("data", dat, add(addk(L, 4), n), m)):
                have = ip.canon(t, ip.range_bytes(t, mem, o, ln)); want = ip.canon(t, ip.slice_bytes_nochk(t, Ptr(src.rid, (), K(0)), ln))
                R.ob(same(ip, t, have, want), nm, describe(t, ip, "into_bytes does not copy the %s at the place the parser reads them" % nm))
            R.ob(same(ip, t, t.vlen.get(out), add(add(addk(L, 4), n), m)), "record end", describe(t, ip, "the next record does not start where the parser expects it"))
    R.ob(nl > 0, "order", "into_bytes does not write the instructions one by one in their order")
    for s in paths:
        if contradictory(s) or s.out != "ret": continue
        for lr, w in seen:
            cnt = V(atom("len", w[0][1], lo=0, hi=U63))
            R.ob(lr.entry.vlen.get(out) is not None and s.facts.prove(eq(lr.entry.vlen[out], K(1))), "header", describe(s, ip, "the records do not start after the one count byte"))
            c = ip.tload(lr.entry, lr.entry.mem[out], K(0), P.bystr["u8"])
            R.ob(same(ip, s, widthless(c), cnt), "instruction count", describe(s, ip, "the first byte is not the number of instructions"))
            R.ob(s.facts.prove(eq(w[1], scale(cnt, cs))), "all written", describe(s, ip, "into_bytes stops before the last instruction"))
            R.ob(same(ip, s, s.vlen.get(out), lr.head.vlen.get(out)), "nothing after", describe(s, ip, "into_bytes adds something after the last instruction"))

def veclen(ip, v): return V(atom("len", v.rid[1], lo=0, hi=U63))
