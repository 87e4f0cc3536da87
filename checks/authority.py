"""P06: kind numbers, record types and implementations."""
import re
from engine.spec import *
from .layout import SNAKE, kind_table
from .lookup import ldv

AUTH = {"Ed25519": "ED25519Authority", "Ed25519Session": "Ed25519SessionAuthority", "Secp256k1": "Secp256k1Authority",
  "Secp256k1Session": "Secp256k1SessionAuthority", "Secp256r1": "Secp256r1Authority", "Secp256r1Session": "Secp256r1SessionAuthority",
  "ProgramExec": "ProgramExecAuthority", "ProgramExecSession": "ProgramExecSessionAuthority"}
ANUM = {"Ed25519": 1, "Ed25519Session": 2, "Secp256k1": 3, "Secp256k1Session": 4, "Secp256r1": 5, "Secp256r1Session": 6, "ProgramExec": 7, "ProgramExecSession": 8}
PNUM = ["None", "SolLimit", "SolRecurringLimit", "Program", "ProgramScope", "TokenLimit", "TokenRecurringLimit", "All", "ManageAuthority", "SubAccount",
  "StakeLimit", "StakeRecurringLimit", "StakeAll", "ProgramAll", "ProgramCurated", "AllButManageAuthority", "SolDestinationLimit", "SolRecurringDestinationLimit",
  "TokenDestinationLimit", "TokenRecurringDestinationLimit", "CloseSwigAuthority", "ReplaceAuthority", "SubAccountV2Create", "SubAccountV2All",
  "SubAccountV2Sign", "SubAccountV2Withdraw", "SubAccountV2Toggle"]

def auth_tables(P):
    t = P.types[P.adt("AuthorityType")]
    return {v["name"]: v["discr"] for v in t["variants"]}, {v["name"]: i for i, v in enumerate(t["variants"])}

def tname(ip, ty): return strip_generics(ip.T[ty]["s"]).split("::")[-1]

def by_number(R, P, tab, tyname, srcpat, srcbits, lo):
    """TryFrom<int>: exactly the declared numbers decode, each to its own variant"""
    fn = P.one(srcpat)
    ip = R.interp(); paths = ip.run(fn); R.done(ip)
    v = V(atom("sym", "a0"))
    inv = {d: n for n, d in tab.items()}
    seen = set()
    for s in paths:
        if contradictory(s): continue
        if not R.ob(s.out == "ret", tyname + " decoding aborts", describe(s, ip, "decoding a %s number aborts" % tyname)): continue
        ok = vname(ip, s.ret) == "Ok"
        if ok:
            d = ip.discr(s, s.ret.f[0])
            good = s.facts.prove(eq(d, v))
            R.ob(good, tyname + " decoding", describe(s, ip, "a number decodes to a %s with a different number" % tyname))
            nums = [k for k in range(0, 64) if s.facts.consistent(eq(v, K(k)))]
            seen.update(nums)
            R.ob(not s.facts.consistent(le(K(64), v)) and all(k in inv for k in nums), tyname + " decoding range", describe(s, ip, "numbers without a variant decode to a %s" % tyname))
        else:
            for n, d in tab.items():
                if d >= lo: R.ob(not s.facts.consistent(eq(v, K(d))), tyname + " decoding refuses " + n, describe(s, ip, "number %d (%s) is refused" % (d, n)))
    want = {d for d in tab.values() if d >= lo}
    R.ob(seen == want, tyname + " decoding set", "numbers decoded to a %s: %s, declared: %s" % (tyname, sorted(seen), sorted(want)))

def role_walk(R, ip, paths, root, key, endcond, ridtest):
    """one walk over the stored roles; returns the position term"""
    if not R.ob(len(ip.looprecs) == 1, key + " walk", "%s: expected one walk over the roles, found %d loops" % (key, len(ip.looprecs))): return None
    lr = ip.looprecs[0]
    X = None
    for lf, (val, init, lty) in lr.leaves.items():
        if isinstance(val, Lin) and isinstance(init, Lin) and init.const == 0:
            kd = ldv(root, addk(val, 8), 4); bd = ldv(root, addk(val, 12), 4)
            if any(kd in atoms_of(f) or bd in atoms_of(f) for s in lr.latches + lr.exits + paths for f in s.facts.lst) or any(s.facts.prove(eq(ip.get_leaf(s, lf), V(bd))) for s in lr.latches):
                X = (lf, val)
    if not R.ob(X is not None, key + " walk", "%s: no variable walks the roles from the first one" % key): return None
    lf, X = X
    for s in lr.latches:
        if contradictory(s): continue
        R.ob(s.facts.prove(eq(ip.get_leaf(s, lf), V(ldv(root, addk(X, 12), 4)))), key + " step", describe(s, ip, "%s: the walk does not move to the role's recorded end" % key))
        if ridtest is not None:
            R.ob(s.facts.prove(ne(V(ldv(root, addk(X, 8), 4)), ridtest)), key + " skips", describe(s, ip, "%s: a role with the requested id is skipped" % key))
    return lf, X, lr

def wf_role(c, root, X, rlen, sizes):
    """the role at X is structurally sound"""
    kd, al, bd = V(ldv(root, X, 2)), V(ldv(root, addk(X, 2), 2)), V(ldv(root, addk(X, 12), 4))
    c.assume(le(addk(X, 16), rlen), le(K(1), kd), le(kd, K(8)), le(add(addk(X, 16), al), bd), le(bd, rlen), le(rlen, K(1 << 40)))
    for n, sz in sizes.items(): c.assume(f_or(ne(kd, K(n)), eq(al, K(sz))))
    for n, sz in sizes.items():
        if c.facts.prove(eq(kd, K(n))): c.assume(eq(al, K(sz)))
    return c

def p06(R):
    P = R.prog()
    R.rule("Numbers: unique, contiguous, decoded to themselves and nothing else; every record type's declared kind/length/session flag is that of its own kind; each dispatch site (role lookup by id for reading and for writing, lookup by key, role creation, length table, layout dispatch [P04]) pairs a stored number with the implementation, offset and length of that very kind.")
    R.assume("stored roles are structurally sound when judging refusals (what adding a role guarantees, P16)")
    anum, avar = auth_tables(P)
    pk = kind_table(P)
    R.ob({k: v for k, v in anum.items() if k != "None"} == ANUM, "AuthorityType numbers", "authority kinds are numbered %s" % anum)
    R.ob(sorted(pk.values()) == list(range(len(pk))), "Permission numbers", "permission kinds are numbered %s" % pk)
    R.ob([k for k, v in sorted(pk.items(), key=lambda x: x[1])][:len(PNUM)] == PNUM, "Permission order", "permission kinds are ordered %s" % sorted(pk, key=pk.get))
    sizes = {}
    for k, t in AUTH.items():
        im = P.impl("Authority", t); ty = im["self"]; sizes[ANUM[k]] = P.types[ty]["size"]
        c = im["consts"]
        R.ob(int.from_bytes(bytes(c["TYPE"]["a"]["b"]), "little") == ANUM[k], "TYPE of " + t, "%s declares kind number %s" % (t, c["TYPE"]["a"]["b"]))
        R.ob(bool(c["SESSION_BASED"]["a"]["b"][0]) == k.endswith("Session"), "SESSION_BASED of " + t, "%s: session flag %s" % (t, c["SESSION_BASED"]["a"]["b"]))
        for m, want in (("authority_type", None), ("length", sizes[ANUM[k]]), ("session_based", k.endswith("Session"))):
            key = P.impl("AuthorityInfo", t)["fns"].get(m)
            if key is None: raise Missing("%s::%s" % (t, m))
            ip = R.interp(); paths = ip.run(P.fns[key]); R.done(ip)
            for s in paths:
                if m == "authority_type": ok = s.out == "ret" and vname(ip, s.ret) == k
                elif m == "length": ok = s.out == "ret" and same(ip, s, s.ret, K(want))
                else: ok = s.out == "ret" and s.facts.prove(s.ret if want else neg(s.ret))
                R.ob(ok, "%s::%s" % (t, m), describe(s, ip, "%s::%s does not report its own kind's value" % (t, m)))
    for k in SNAKE:
        im = P.impl("Actionable", k)
        R.ob(int.from_bytes(bytes(im["consts"]["TYPE"]["a"]["b"]), "little") == pk[k], "TYPE of " + k, "%s declares kind number %s" % (k, im["consts"]["TYPE"]["a"]["b"]))
    R.floor("record kinds", len(SNAKE), 26)
    by_number(R, P, anum, "AuthorityType", r"^<swig_state::authority::AuthorityType as std::convert::TryFrom<u16>>::try_from$", 16, 1)
    by_number(R, P, pk, "Permission", r"^<swig_state::action::Permission as std::convert::TryFrom<u16>>::try_from$", 16, 0)
    # stored-number accessors decode the stored number
    for pat, ty, off, n in ((r"^swig_state::role::Position::authority_type$", "AuthorityType", 0, 2), (r"^swig_state::action::Action::permission$", "Permission", 0, 2)):
        ip = R.interp(); fn = P.one(pat); paths = ip.run(fn); R.done(ip)
        for s in paths:
            if vname(ip, s.ret) == "Ok":
                R.ob(s.facts.prove(eq(ip.discr(s, s.ret.f[0]), V(ldv(("R", atom("sym", "a0")), K(off), n)))), pat, describe(s, ip, "the decoded kind is not the stored number"))
    # length table
    fn = P.one(r"^swig_state::authority::authority_type_to_length$")
    at = P.adt("AuthorityType")
    for k, n in anum.items():
        ip = R.interp()
        def args(ip, st, fn):
            ref = ip.mat(atom("sym", "a0"), fn["locals"][1])
            ip.write(st, ref.root, ref.path, ref.off, at, Agg(at, avar[k], ()))
            return [ref]
        for s in ip.run(fn, args=args):
            if contradictory(s): continue
            if k == "None": ok = s.out == "ret" and vname(ip, s.ret) == "Err"
            else: ok = s.out == "ret" and vname(ip, s.ret) == "Ok" and same(ip, s, s.ret.f[0], K(sizes[n]))
            R.ob(ok, "authority_type_to_length " + k, describe(s, ip, "length table: wrong entry for %s" % k))
        R.done(ip)
    jobs = [lambda r: site_get_role(r, P, sizes, True), lambda r: site_get_role(r, P, sizes, False), lambda r: site_lookup(r, P, sizes)]
    jobs += [(lambda r, k=k: site_add(r, P, k, avar, sizes)) for k in AUTH]
    R.par(jobs, lambda r, j: j(r))
    return R.finish("other", "Table agreement over compiler-evaluated constants and layouts, plus abstract interpretation of every dispatch site: each path's stored number is matched against the implementation type, offset and length the path ends with.")

def site_get_role(R, P, sizes, mut):
    fn = P.one(r"^swig_state::swig::Swig::get_mut_role$" if mut else r"^swig_state::swig::SwigWithRoles::<.*>::get_role$")
    ip = R.interp(); paths = ip.run(fn); R.done(ip)
    key = strip_generics(fn["name"])
    if mut:
        rid = V(atom("sym", "a0")); root = ("R", atom("sym", "a1")); rlen = V(atom("len", atom("sym", "a1"), lo=0, hi=U63)); count = None
    else:
        rid = V(atom("sym", "a1"))
        st0 = ip.new_state(); rec = Rec(ip, Ptr(("R", atom("sym", "a0"))), ip.T[fn["locals"][1]]["to"])
        r = rec.init(st0, "roles"); root, rlen = r.root, r.meta
        sp = rec.init(st0, "state"); srec = Rec(ip, sp, ip.T[rec.v["fields"][rec.idx("state")]]["to"]); count = srec.init(st0, "roles")
    w = role_walk(R, ip, paths, root, key, None, rid)
    if w is None: return
    lf, X, lr = w
    some = set()
    for s in paths:
        if contradictory(s): continue
        if s.out == "ret" and vname(ip, s.ret) == "Ok":
            o = s.ret.f[0]
            if vname(ip, o) == "None":
                end = s.facts.prove(le(rlen, X)) or (count is not None and any(isinstance(v, Lin) and s.facts.prove(le(count, v)) for v, i, t in lr.leaves.values()))
                R.ob(end, key + " gives up early", describe(s, ip, "%s: reports absence before the last role" % key)); continue
            if not R.ob(vname(ip, o) == "Some", key + " result", describe(s, ip, "%s: unrecognised result" % key)): continue
            role = o.f[0]; names = ip.T[role.ty]["variants"][0]["names"]; f = dict(zip(names, role.f))
            pos, au, ac = f["position"], f["authority"], f["actions"]
            p = s.facts.prove
            R.ob(isinstance(pos, Ptr) and pos.root == root and p(eq(pos.off, X)) and p(eq(V(ldv(root, addk(X, 8), 4)), rid)), key + " id",
                 describe(s, ip, "%s: returns a role whose stored id is not the requested one" % key))
            al = V(ldv(root, addk(X, 2), 2))
            ok = isinstance(au, Ptr) and au.root == root and p(eq(au.off, addk(X, 16))) and isinstance(au.meta, tuple) and au.meta[0] == "dynty"
            if R.ob(ok, key + " authority", describe(s, ip, "%s: authority view is not taken right after the position record" % key)):
                t = tname(ip, au.meta[1]); k = [x for x in AUTH if AUTH[x] == t]
                R.ob(bool(k) and p(eq(V(ldv(root, X, 2)), K(ANUM[k[0]]))), key + " implementation " + t,
                     describe(s, ip, "%s: uses %s for a stored kind number that is not its own" % (key, t)), sample={"site": key, "implementation": t})
                some.add(t)
            bd = V(ldv(root, addk(X, 12), 4))
            R.ob(isinstance(ac, Ptr) and ac.root == root and p(eq(ac.off, add(addk(X, 16), al))) and p(eq(add(ac.off, ac.meta), bd)), key + " actions",
                 describe(s, ip, "%s: the permission bytes are not exactly those between authority and recorded end" % key))
            if "num_actions" in f:
                c = s.copy(); na = V(ldv(root, addk(X, 4), 2)); c.assume(le(na, K(255)))
                R.ob(same(ip, c, f["num_actions"], na), key + " num_actions", describe(c, ip, "%s: permission count differs from the stored one" % key))
        else:
            c = wf_role(s.copy(), root, X, rlen, sizes)
            R.ob(contradictory(c), key + " refuses", describe(c, ip, "%s: %s on a well-formed wallet at %s" % (key, s.out if s.out != "ret" else "error", site_fn(s, ip))))
    R.ob(some == set(AUTH.values()), key + " kinds", "%s: implementations reachable: %s" % (key, sorted(some)))

def site_lookup(R, P, sizes):
    fn = P.one(r"^swig_state::swig::SwigWithRoles::<.*>::lookup_role_id$")
    ip = R.interp(opaque=[r"::match_data$"]); paths = ip.run(fn); R.done(ip)
    key = strip_generics(fn["name"])
    st0 = ip.new_state(); rec = Rec(ip, Ptr(("R", atom("sym", "a0"))), ip.T[fn["locals"][1]]["to"])
    r = rec.init(st0, "roles"); root, rlen = r.root, r.meta
    w = role_walk(R, ip, paths, root, key, None, None)
    if w is None: return
    lf, X, lr = w
    some = set()
    def match_events(s): return [e for e in s.events if e[0] == "call" and e[1].endswith("::match_data")]
    def judge(s, positive):
        for e in match_events(s):
            t = e[1].split("::")[-2]; k = [x for x in AUTH if AUTH[x] == t]
            p = e[2][0]; d = e[2][1]
            ok = bool(k) and s.facts.prove(eq(V(ldv(root, X, 2)), K(ANUM[k[0]]))) and p[0] == "ptr" and p[1] == root and s.facts.prove(eq(p[3], addk(X, 16)))
            R.ob(ok, key + " implementation " + t, describe(s, ip, "%s: compares with %s for a stored kind number that is not its own" % (key, t)))
            R.ob(d[0] == "bytes" and d[1] == atom("ld", ("R", atom("sym", "a1")), 0, K(0), V(atom("len", atom("sym", "a1"), lo=0, hi=U63))), key + " key bytes", describe(s, ip, "%s: the key compared is not the whole key supplied" % key))
            some.add(t)
    short = lt(V(atom("len", atom("sym", "a1"), lo=0, hi=U63)), K(32))
    for s in lr.latches:
        if contradictory(s): continue
        judge(s, False)
        ev = match_events(s)
        R.ob(s.facts.prove(short) or any(s.facts.prove(eq(V(e[3]), K(0))) for e in ev), key + " skips", describe(s, ip, "%s: a role is passed over without a failed comparison" % key))
    for s in paths:
        if contradictory(s): continue
        if s.out == "ret" and vname(ip, s.ret) == "Ok":
            o = s.ret.f[0]
            if vname(ip, o) == "Some":
                judge(s, True)
                R.ob(any(s.facts.prove(ne(V(e[3]), K(0))) for e in match_events(s)) and same(ip, s, o.f[0], V(ldv(root, addk(X, 8), 4))), key + " result",
                     describe(s, ip, "%s: returns an id without a successful comparison of that role" % key))
        else:
            c = wf_role(s.copy(), root, X, rlen, sizes)
            R.ob(contradictory(c), key + " refuses", describe(c, ip, "%s: %s on a well-formed wallet at %s" % (key, s.out if s.out != "ret" else "error", site_fn(s, ip))))
    R.ob(some == set(AUTH.values()), key + " kinds", "%s: implementations reachable: %s" % (key, sorted(some)))

OPQ = [r"::set_into_bytes$", r"calculate_num_actions$", r"reject_duplicate_v2_scoped$", r"validate_layout$"]
def run_add(R, P, k, avar):
    fn = P.one(r"^swig_state::swig::SwigBuilder::<.*>::add_role$")
    pty = P.adt("AuthorityType")
    ip = R.interp(opaque=OPQ)
    def args(ip, st, fn):
        v = ip.arg_values(st, fn); v[1] = Agg(pty, avar[k], ()); return v
    return fn, ip, ip.run(fn, args=args)

def site_add(R, P, k, avar, sizes):
    fn, ip, paths = run_add(R, P, k, avar)
    R.done(ip)
    key = strip_generics(fn["name"]); n = ANUM[k]
    oks = 0
    for s in paths:
        if contradictory(s) or s.out != "ret" or vname(ip, s.ret) != "Ok": continue
        oks += 1
        ev = [e for e in s.events if e[0] == "call" and e[1].endswith("::set_into_bytes")]
        ok = len(ev) == 1 and ev[0][1].split("::")[-2] == AUTH[k]
        if not R.ob(ok, key + " creation " + k, describe(s, ip, "%s: %s is created through %s" % (key, k, [e[1] for e in ev]))): continue
        src, dst = ev[0][2][0], ev[0][2][1]
        R.ob(src[0] == "bytes" and src[1] == atom("ld", ("R", atom("sym", "a2")), 0, K(0), V(atom("len", atom("sym", "a2"), lo=0, hi=U63))), key + " creation data " + k, describe(s, ip, "%s: %s is not created from the supplied authority data" % (key, k)))
        R.ob(dst[0] == "bytes" and s.facts.prove(eq(dst[2], K(sizes[n]))), key + " creation length " + k, describe(s, ip, "%s: %s gets a record of %s bytes" % (key, k, fmt(dst[2]))))
        st = position_stores(ip, s)
        R.ob(st is not None and s.facts.prove(eq(st["authority_type"], K(n))) and s.facts.prove(eq(st["authority_length"], K(sizes[n]))), key + " header " + k,
             describe(s, ip, "%s: the stored kind number or length is not that of %s" % (key, k)))
    R.floor("successful creation paths for " + k, oks, 1)

def position_stores(ip, s):
    """the Position record written by add_role: field values at its location"""
    try:
        v = position_at(ip, s)
    except Unsupported:
        return None
    return v

def role_buffer(ip, s, fn=None):
    rec = Rec(ip, Ptr(("R", atom("sym", "a0"))), ip.p.adt("SwigBuilder"))
    st0 = s.copy(); st0.mem = {}
    return rec.init(s, "role_buffer"), rec

def position_at(ip, s):
    buf, rec = role_buffer(ip, s)
    pos_ty = ip.p.adt("Position")
    v = ip.T[pos_ty]["variants"][0]
    ev = [e for e in s.events if e[0] == "call" and e[1].endswith("::set_into_bytes")]
    X = None
    for e in s.events:
        if e[0] == "store" and e[1] == buf.root and isinstance(e[2], Lin): pass
    # the position starts 16 bytes before the authority record
    lr = ip.looprecs[0]
    cands = [val for lf, (val, init, ty) in lr.leaves.items() if isinstance(val, Lin) and isinstance(init, Lin) and init.const == 0]
    for X in cands:
        r = Rec(ip, Ptr(buf.root, (), X), pos_ty)
        try: t = {n: r.get(s, n) for n in v["names"]}
        except Unsupported: continue
        if isinstance(t["authority_type"], Lin) and t["authority_type"].const is not None: t["_at"] = X; return t
    return None
