"""P18: the optional trailer; P19: derived-address inputs."""
from engine.spec import *
from engine.interp import Snap
from .limits import outcome
from .lookup import ldv
from .roles import rounds, stores, mem_at, init_at, u_at, stepping, in_state, MAXACC

ENTRY = bytes([1, 1, 32, 0, 0, 0, 0, 0])
N = 40

def opt(ip, v):
    """None / the payload of an Option value"""
    n = vname(ip, v)
    return (n, v.f[0] if n == "Some" else None)

def strict(R, P):
    fn = P.one(r"^swig_state::tail::rent_claimer::read_strict$"); key = "rent_claimer::read_strict"
    a = atom("sym", "a0"); root = ("R", a); n = V(atom("len", a, lo=0, hi=U63))
    ip = R.interp("solana"); paths = ip.run(fn); R.done(ip); R.count("paths", len(paths))
    hits = set()
    for s in paths:
        for w, o in ((2, 2), (4, 4)):      # wide loads are their bytes, little-endian
            x = K(0)
            for i in range(w): x = add(x, scale(V(ldv(root, K(o + i), 1)), 256 ** i))
            s.assume(eq(V(ldv(root, K(o), w)), x))
        if contradictory(s): continue
        if not R.ob(s.out == "ret", key + " aborts", describe(s, ip, key + ": aborts")): continue
        def ref(d, st):
            if d(eq(n, K(0))): return "unset"
            if not d(eq(n, K(N))): return "bad"
            for i, b in reversed(list(enumerate(ENTRY))):
                x = V(ldv(root, K(i), 1))
                for f in (le(x, K(b)), le(K(b), x)):
                    if not d(f): return "bad"
                    st.assume(f)
            return "set"
        for c, want in cases(s, ref):
            hits.add(want)
            got = vname(ip, c.ret)
            if want == "bad": R.ob(got == "Err", key + " refuses", describe(c, ip, key + ": accepts a trailer that is neither empty nor one well-formed entry"))
            else:
                if not R.ob(got == "Ok", key + " accepts " + want, describe(c, ip, key + ": refuses a trailer that is " + want)): continue
                o, p = opt(ip, c.ret.f[0])
                if want == "unset": ok = o == "None"
                else: ok = o == "Some" and isinstance(p, Ptr) and p.root == root and c.facts.prove(eq(p.off, K(8)))
                R.ob(ok, key + " result " + want, describe(c, ip, key + ": the result for a trailer that is %s is wrong" % want), sample={"function": key, "trailer": want, "result": o})
    R.floor("trailer shapes distinguished by read_strict", len(hits), 3)

def entry(R, P):
    fn = P.one(r"^swig_state::tail::rent_claimer::entry$"); key = "rent_claimer::entry"
    ip = R.interp("solana"); paths = ip.run(fn); R.done(ip); n = 0
    for s in paths:
        if contradictory(s): continue
        n += 1
        b = ip.canon(s, s.ret, N)
        want = atom("cat", (8, ENTRY), (32, ldv(("R", atom("sym", "a0")), K(0), 32)))
        R.ob(s.out == "ret" and same(ip, s, b, want), key, describe(s, ip, key + ": the stored entry is %s, not the header 01 01 20 00 0000 0000 and the claimer" % fmt(b)))
    R.floor("paths of entry", n, 1)

def saved(R, P):
    t = P.adt("SavedTail")
    # take
    fn = P.one(r"^swig_state::tail::SavedTail::take$"); key = "SavedTail::take"
    a = atom("sym", "a0"); root = ("R", a); n = V(atom("len", a, lo=0, hi=U63))
    ip = R.interp("solana", opaque=[r"rent_claimer::read_strict$"]); paths = ip.run(fn); R.done(ip)
    nok = 0
    for s in paths:
        if contradictory(s): continue
        cs = [e for e in s.events if e[0] == "call" and e[1].endswith("rent_claimer::read_strict")]
        good = [e for e in cs if e[2][0][0] == "bytes" and s.facts.prove(eq(e[2][0][2], n)) and same(ip, s, e[2][0][1], init_at(ip, root, K(0), n))]
        s.assume(le(n, K(N)))       # what the strict reader accepts
        if contradictory(s): continue
        got = outcome(ip, s)
        acc = good and s.facts.prove(eq(V(atom("discr", good[0][3])), K(0)))
        rej = good and s.facts.prove(eq(V(atom("discr", good[0][3])), K(1)))
        if got == "Ok":
            nok += 1
            R.ob(acc, key + " check", describe(s, ip, key + ": carries bytes the strict reader did not accept"))
            rec = s.ret.f[0]; names = P.types[t]["variants"][0]["names"]
            R.ob(same(ip, s, rec.f[names.index("len")], n), key + " length", describe(s, ip, key + ": records a length other than the trailer's"))
            b = prefix(ip, s, rec.f[names.index("bytes")], n)
            R.ob(s.facts.prove(eq(n, K(0))) or same(ip, s, b, init_at(ip, root, K(0), n)), key + " bytes", describe(s, ip, key + ": the carried bytes are not the trailer's: %s" % fmt(b)))
        else:
            R.ob(got == "Err" and rej, key + " " + got, describe(s, ip, key + ": fails (%s) on a trailer the strict reader accepts" % got))
    R.floor("successful paths of SavedTail::take", nok, 1)
    for m in ("restore", "restore_at"):
        fn = P.one(r"^swig_state::tail::SavedTail::%s$" % m); key = "SavedTail::" + m
        ip = R.interp("solana"); paths = ip.run(fn); R.done(ip); nok = 0
        rec = Rec(ip, Ptr(("R", atom("sym", "a0"))), t); st = ip.new_state()
        ln = rec.init(st, "len"); acct = ("R", atom("sym", "a1")); al = V(atom("len", atom("sym", "a1"), lo=0, hi=U63))
        off = V(atom("sym", "a2")) if m == "restore_at" else sub(al, ln)
        boff = P.types[t]["variants"][0]["offs"][rec.idx("bytes")]
        for s in paths:
            s.assume(le(ln, K(N)), le(al, K(MAXACC)))
            if contradictory(s): continue
            def ref(d, st):
                if d(eq(ln, K(0))): return "noop"
                return "put" if d(le(K(0), off)) and d(le(add(off, ln), al)) else "refuse"
            for c, want in cases(s, ref):
                got = outcome(ip, c); ev = stores(c, acct); why = None
                if want == "refuse": ok = got == "Err" and not ev
                elif want == "noop": ok = got == "Ok" and not ev
                else:
                    ok = got == "Ok" and all(c.facts.prove(le(off, e[2])) and c.facts.prove(le(add(e[2], e[3]), add(off, ln))) for e in ev) and \
                        same(ip, c, mem_at(ip, c, acct, off, ln), init_at(ip, ("R", atom("sym", "a0")), K(boff), ln))
                    nok += 1
                other = [e for e in c.events if e[0] == "store" and e[1] != acct and e[1][0] == "R"]
                R.ob(ok and not other, key + " " + want, describe(c, ip, "%s (%s): result %s, writes %s" % (key, want, got, [fmt(e[2]) for e in ev])), sample={"function": key, "case": want, "result": got})
        R.floor("paths of %s that write" % key, nok, 1)

def prefix(ip, s, v, n):
    """first n bytes of an array value"""
    if isinstance(v, (Arr, Snap)): return ip.range_bytes(s, v.mem, v.off if isinstance(v, Snap) else K(0), n)
    return ip.canon(s, v)

def roles_end(R, P):
    fn = P.one(r"^swig_state::swig::Swig::roles_end_offset$"); key = "Swig::roles_end_offset"; found = 0
    ip = R.interp("solana"); paths = ip.run(fn); R.done(ip); nok = 0
    a = atom("sym", "a0"); root = ("R", a); n = V(atom("len", a, lo=0, hi=U63)); roles = V(ldv(root, K(34), 2))
    for s in paths:
        s.assume(le(n, K(MAXACC)))
        if contradictory(s): continue
        got = outcome(ip, s)
        if not R.ob(got in ("Ok", "Err"), key + " aborts", describe(s, ip, key + ": aborts")): continue
        if got == "Err": continue
        nok += 1; r = s.ret.f[0]; why = "the end is not where a walk over the recorded number of roles stops"
        for lr in ip.looprecs:
            for lf, c in stepping(ip, lr, lambda t, v: V(ldv(root, addk(v, 60), 4)), K(0)):
                inside = True       # by induction on the walk: the cursor stays 48 short of the account's end
                for t in lr.latches:
                    t = t.copy(); t.assume(le(n, K(MAXACC)), le(addk(c, 48), n))
                    if contradictory(t): continue
                    nx = V(ldv(root, addk(c, 60), 4))
                    if not (t.facts.prove(le(addk(c, 16), nx)) and t.facts.prove(le(addk(nx, 48), n))): inside = False
                for _ in (1,):
                    f = s.copy()
                    if inside: f.assume(le(addk(c, 48), n))
                    if contradictory(f): why = None; continue
                    if f.facts.prove(eq(r, addk(c, 48))) and rounds(ip, lr, f.facts, roles):
                        why = None if inside else "a role's recorded end may lie before the end of its header or outside the account"
                        if inside: found += 1
        R.ob(why is None, key, describe(s, ip, "%s: %s" % (key, why)), sample={"function": key, "end": fmt(r)})
    R.floor("walk results of roles_end_offset", found, 1)

def split(R, P):
    for m, mut in (("split_parts", 0), ("split_parts_mut", 1)):
        fn = P.one(r"^swig_state::swig::Swig::%s$" % m); key = "Swig::" + m
        ip = R.interp("solana", opaque=[r"Swig::roles_end_offset$"]); paths = ip.run(fn); R.done(ip); nok = 0
        a = atom("sym", "a0"); root = ("R", a); n = V(atom("len", a, lo=0, hi=U63))
        for s in paths:
            cs = [e for e in s.events if e[0] == "call" and e[1].endswith("roles_end_offset")]
            E = V(atom("vf", cs[0][3], 0, 0)) if cs else None
            if E is not None and not s.facts.prove(ne(V(atom("discr", cs[0][3])), K(0))): s.assume(f_and(le(K(48), E), le(E, n)))
            if contradictory(s): continue
            got = outcome(ip, s)
            if not R.ob(got in ("Ok", "Err"), key + " aborts", describe(s, ip, key + ": aborts although the end of the roles is in range")): continue
            if got != "Ok": continue
            nok += 1
            v = s.ret.f[0]; names = ip.T[v.ty]["variants"][0]["names"]; g = lambda x: v.f[names.index(x)]
            st, ro, ta = g("state"), g("roles"), g("tail")
            ok = E is not None and cs[0][2][0][0] == "bytes" and s.facts.prove(eq(cs[0][2][0][2], n)) and s.facts.prove(eq(V(atom("discr", cs[0][3])), K(0)))
            ok = ok and st.root == root and s.facts.prove(eq(st.off, K(0)))
            ok = ok and ro.root == root and s.facts.prove(eq(ro.off, K(48))) and s.facts.prove(eq(ro.meta, addk(E, -48)))
            ok = ok and ta.root == root and s.facts.prove(eq(ta.off, E)) and s.facts.prove(eq(ta.meta, sub(n, E)))
            R.ob(ok, key, describe(s, ip, key + ": the parts are not header [0,48), roles [48,end), trailer [end,len)"))
        R.floor("successful paths of " + key, nok, 1)

def p18(R):
    P = R.prog("solana")
    R.rule("read_strict: Ok(None) exactly for the empty trailer, Ok(claimer at 8) exactly for 40 bytes starting 01 01 20 00 00 00 00 00, Err otherwise, never an abort. entry(claimer) is those eight bytes and the claimer. SavedTail::take is Ok exactly when the strict reader accepts the very same bytes and carries their length and content; restore/restore_at write exactly the carried bytes at the end of the buffer / the given offset, nothing else, or fail without writing when they do not fit.")
    R.rule("roles_end_offset: 48 + the cursor after exactly `roles` steps over recorded ends, each at least 16 past its role's start and inside the account; split_parts(_mut) returns header, roles and trailer as the disjoint ranges [0,48), [48,end), [end,len).")
    R.assume("accounts are at most 10 MiB")
    for f in (strict, entry, saved, roles_end, split): f(R, P)
    return R.finish("other", "Path-partitioned abstract interpretation, on-chain configuration, of the trailer reader, writer, save/restore and account splitting routines for all byte strings.")

# ---------------------------------------------------------------- P19
KINDS = (("wallet configuration", "swig_account", (32,)), ("wallet address", "swig_wallet_address", (32,)), ("sub-account", "sub_account", (32, 4)),
         ("second-generation sub-account state", "sub_account_v2_state", (32, 4)), ("second-generation sub-account asset", "sub_account_v2_asset", (32, 4)))
FORMS = (("address", "_seeds", 0), ("bump", "_seeds_with_bump", 1), ("signing", "_signer", 1))

def pieces(ip, s, v):
    """(length, content) of each slice of a returned seed list"""
    if not isinstance(v, Arr): return None
    sl = ip.p.bystr["&[u8]"]
    t = ip.T[ip.T[v.ty]["elem"]]; out = []
    if t["size"] != 16: raise Unsupported("seed element of %s bytes" % t["size"])
    for i in range(v.n // 16):
        if t["k"] == "ref":
            p = ip.tload(s, v.mem, K(16 * i), sl)
            if not isinstance(p, Ptr): return None
            out.append((p.meta, ip.slice_bytes(s, p, p.meta)))
        else:       # library struct: address and length
            names = t["variants"][0]["names"]; offs = t["variants"][0]["offs"]; fl = t["variants"][0]["fields"]
            p = ip.tload(s, v.mem, K(16 * i + offs[names.index("seed")]), fl[names.index("seed")])
            n = ip.tload(s, v.mem, K(16 * i + offs[names.index("len")]), fl[names.index("len")])
            if not isinstance(p, Ptr) or not isinstance(n, Lin): return None
            out.append((n, ip.slice_bytes(s, p, n)))
    return out

def p19(R):
    P = R.prog("solana")
    R.rule("each of the fifteen seed builders returns a constant prefix followed by its arguments, whole, in order; the three forms of a kind share one prefix and one order, the bump and signing forms adding exactly the bump as last element; for any two kinds either the prefixes differ at a common position or the total number of bytes differs, so no concatenation of one kind is one of another")
    R.assume("wallet identifiers and account keys are 32 bytes and role / sub-account ids are passed as 4 bytes (fixed-size arrays at every caller)")
    pre = {}; n = 0
    for label, base, lens in KINDS:
        for form, suf, bump in FORMS:
            fn = P.one(r"^swig_state::swig::%s%s$" % (base, suf)); key = base + suf
            ip = R.interp("solana"); paths = ip.run(fn); R.done(ip)
            for s in paths:
                if contradictory(s): continue
                n += 1
                ps = pieces(ip, s, s.ret) if s.out == "ret" else None
                if not R.ob(ps is not None and len(ps) == 1 + len(lens) + bump, key + " shape", describe(s, ip, "%s: not one prefix, %d inputs%s" % (key, len(lens), " and the bump" if bump else ""))): continue
                c = ps[0][1]
                if not R.ob(isinstance(c, bytes) and ps[0][0].const == len(c), key + " prefix", "%s: the first element %s is not a constant" % (key, fmt(c))): continue
                pre.setdefault(base, []).append((form, c))
                for i in range(len(lens) + bump):
                    a = ip.T[fn["locals"][1 + i]]; el = ip.T[a["to"]]
                    ln = K(el["n"]) if el["k"] == "array" else V(atom("len", atom("sym", "a%d" % i), lo=0, hi=U63))
                    want = init_at(ip, ("R", atom("sym", "a%d" % i)), K(0), ln)
                    R.ob(s.facts.prove(eq(ps[1 + i][0], ln)) and ps[1 + i][1] == want, key + " input %d" % i, "%s: element %d is %s, not the whole of argument %d" % (key, 1 + i, fmt(ps[1 + i][1]), i),
                         sample={"builder": key, "prefix": c.decode("latin1"), "elements": len(ps)})
    for b, l in pre.items():
        R.ob(len(set(c for _, c in l)) == 1, b + " forms", "%s: its forms start with different prefixes: %s" % (b, ["%s %r" % x for x in l]))
    ks = [(b, l[0][1], sum(ls)) for (lab, b, ls) in KINDS for l in [pre.get(b)] if l]
    for i, (a, p, x) in enumerate(ks):
        for b, q, y in ks[i + 1:]:
            R.ob(p[:min(len(p), len(q))] != q[:min(len(p), len(q))] or len(p) + x != len(q) + y, "%s vs %s" % (a, b), "%s and %s: prefixes %r and %r with inputs of %d and %d bytes can produce the same derivation input" % (a, b, p, q, x, y))
    R.floor("seed builders analysed", n, 15)
    return R.finish("other", "Abstract interpretation of every seed builder, whose result is compared element by element with its arguments; pairwise comparison of the derivation shapes.")
