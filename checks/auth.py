"""P07, P08: key-based authentication and sessions."""
import re
from engine.spec import *
from .lookup import ldv
from .limits import outcome

SESSION = ["Ed25519SessionAuthority", "Secp256k1SessionAuthority", "Secp256r1SessionAuthority", "ProgramExecSessionAuthority"]
PLAIN = ["ED25519Authority", "Secp256k1Authority", "Secp256r1Authority", "ProgramExecAuthority"]

PROBE = {"ED25519Authority": "au_ed25519", "Ed25519SessionAuthority": "au_ed25519_session", "Secp256k1Authority": "au_secp256k1",
  "Secp256k1SessionAuthority": "au_secp256k1_session", "Secp256r1Authority": "au_secp256r1", "Secp256r1SessionAuthority": "au_secp256r1_session",
  "ProgramExecAuthority": "au_program_exec", "ProgramExecSessionAuthority": "au_program_exec_session"}

def method(P, ty, trait, name):
    return P.one(r"::%s as .*::%s>::%s$" % (ty, trait, name))

def self_rec(ip, fn, arg=0):
    return Rec(ip, Ptr(("R", atom("sym", "a%d" % arg))), ip.T[fn["locals"][1 + arg]]["to"])

def length_of(arg): return V(atom("len", atom("sym", "a%d" % arg), lo=0, hi=U63))

def account(i, arg):
    """region of account number i (linear term) of a slice argument"""
    return ("R", ldv(("R", atom("sym", "a%d" % arg)), scale(i, 8), 8))

def fields_same(R, ip, c, rec, key, label, why, skip=()):
    for n in rec.names:
        if n in skip: continue
        have, init = rec.get(c, n), rec.init(c, n)
        R.ob(same(ip, c, have, init, ip.size(rec.v["fields"][rec.idx(n)])), key + " changes " + n,
             describe(c, ip, "%s: field `%s` changes %s: ends as %s" % (label, n, why, fmt(rec.canon(c, have, n)))))

def no_abort(R, ip, s, key, label):
    got = outcome(ip, s)
    if got in ("Ok", "Err"): return got
    R.ob(False, key + " aborts", describe(s, ip, "%s: aborts (%s) instead of refusing, at %s" % (label, s.ret, site_fn(s, ip))))
    return None

def keyed(R, fn, ty, keyfield, session, accs=1, payload=2, slot=4):
    """authenticate by an account key held in the record"""
    ip = R.interp(); paths = ip.run(fn); R.done(ip); R.count("paths", len(paths))
    rec = self_rec(ip, fn)
    label = "%s::%s" % (ty, fn["name"].rsplit("::", 1)[1]); key = label
    n, ln = length_of(payload), length_of(accs)
    idx = V(ldv(("R", atom("sym", "a%d" % payload)), K(0), 1))
    acc = account(idx, accs)
    ko = rec.v["offs"][rec.idx(keyfield)]
    nok = 0
    for s in paths:
        if contradictory(s): continue
        def ref(d, st):
            if d(eq(n, K(0))): return "Err"
            if session and d(lt(rec.init(st, "current_session_expiration"), V(atom("sym", "a%d" % slot)))): return "Err"
            if not d(lt(idx, ln)): return "Err"
            if not d(ne(V(ldv(acc, K(1), 1)))): return "Err"
            if not d(bytes_eq(ldv(acc, K(8), 32), ldv(("R", atom("sym", "a0")), K(ko), 32))): return "Err"
            return "Ok" if d(eq(n, K(1))) else "any"
        for c, want in cases(s, ref):
            R.count("path cases compared with the reference")
            got = no_abort(R, ip, s, key, label)
            if got is None: continue
            if want != "any":
                R.ob(got == want, key + " returns " + got, describe(c, ip, "%s: returns %s where the rule (account at the named index exists, signed, and has key `%s`%s) requires %s" % (label, got, keyfield, ", slot within expiry" if session else "", want)),
                     sample={"function": key, "result": got, "path": [fmt(f) for f in c.facts.lst]})
            nok += got == "Ok"
            fields_same(R, ip, c, rec, key, label, "during authentication")
    R.floor("accepting path of " + label, nok, 1)

def p07(R):
    P = R.prog()
    R.rule("Every path of each key-based authenticate routine: Ok iff payload non-empty, index < number of accounts, signer byte of that account != 0, its 32-byte key equals the stored public/session key (and slot <= expiry for sessions); otherwise Err; no aborting path; the stored record keeps its bytes.")
    R.assume("runtime account layout (signer flag, key offsets) as fixed by the pinocchio crate")
    jobs = [(t, "authenticate", "public_key", False) for t in ("ED25519Authority", "Ed25519SessionAuthority")]
    jobs += [(t, "authenticate_session", "session_key", True) for t in SESSION]
    def f(R, j):
        t, m, k, s = j
        keyed(R, method(P, t, "AuthorityInfo", m), t, k, s)
    R.par(jobs, f)
    R.floor("key-based authentication routines", len(jobs), 6)
    defaults(R, P, "authenticate_session")
    return R.finish("other", "Path-partitioned abstract interpretation of the six key-based authentication routines against a reference decision, for all account lists, payloads, records and slots; the four kinds without sessions inherit a refusing default.")

def defaults(R, P, m):
    """kinds without sessions refuse (the trait's default, unless overridden)"""
    n = 0
    for t in PLAIN:
        fn = P.one(r"^probe::%s::%s$" % (PROBE[t], m))
        ip = R.interp(); paths = ip.run(fn); R.done(ip)
        for s in paths:
            if contradictory(s): continue
            got = outcome(ip, s)
            R.ob(got == "Err", "%s::%s returns %s" % (t, m, got), describe(s, ip, "%s of the session-less kind %s returns %s" % (m, t, got)))
        n += 1
    R.floor("session-less kinds refusing " + m, n, 4)

def p08(R):
    P = R.prog()
    R.rule("authenticate_session: Ok only with slot <= recorded expiry. start_session: Err when duration > maximum or the sum does not fit 64 bits, else Ok with session key = argument and expiry = slot + duration and nothing else changed. set_into_bytes: on Ok session key and maximum come from the creation data, expiry is 0; wrong lengths are refused; no aborting path.")
    def f(R, j):
        t, m = j
        if m == "authenticate_session": return keyed(R, method(P, t, "AuthorityInfo", m), t, "session_key", True)
        (start if m == "start_session" else create)(R, P, t)
    jobs = [(t, m) for t in SESSION for m in ("authenticate_session", "start_session", "set_into_bytes")]
    R.par(jobs, f)
    R.floor("session routines", len(jobs), 12)
    defaults(R, P, "start_session")
    return R.finish("other", "Path-partitioned abstract interpretation of session start, session authentication and creation of the four session-capable kinds against reference relations, for all records, slots and durations.")

def maxfield(rec):
    m = [n for n in rec.names if n.startswith("max_session")]
    if len(m) != 1: raise Missing("maximum session length field: %s" % rec.names)
    return m[0]

def start(R, P, t):
    fn = method(P, t, "AuthorityInfo", "start_session")
    ip = R.interp(); paths = ip.run(fn); R.done(ip); R.count("paths", len(paths))
    rec = self_rec(ip, fn); label = t + "::start_session"; key = label
    sk = atom("sub", atom("sym", "a1"), K(0), K(32)); slot = V(atom("sym", "a2")); dur = V(atom("sym", "a3"))
    mx = maxfield(rec); nok = 0
    for s in paths:
        if contradictory(s): continue
        def ref(d, st):
            if d(lt(rec.init(st, mx), dur)): return "Err"
            return "Ok" if d(le(add(slot, dur), K((1 << 64) - 1))) else "Err"
        for c, want in cases(s, ref):
            R.count("path cases compared with the reference")
            got = no_abort(R, ip, s, key, label)
            if got is None: continue
            R.ob(got == want, key + " returns " + got, describe(c, ip, "%s: returns %s where the contract requires %s" % (label, got, want)))
            if got != "Ok":
                fields_same(R, ip, c, rec, key, label, "although the session is refused"); continue
            nok += 1
            fields_same(R, ip, c, rec, key, label, "besides session key and expiry", ("session_key", "current_session_expiration"))
            R.ob(same(ip, c, rec.get(c, "session_key"), sk, 32), key + " session key", describe(c, ip, label + ": the recorded session key is not the requested key"))
            R.ob(same(ip, c, rec.get(c, "current_session_expiration"), add(slot, dur)), key + " expiry",
                 describe(c, ip, label + ": recorded expiry is %s, not slot + duration" % fmt(rec.get(c, "current_session_expiration"))))
    R.floor("accepting path of " + label, nok, 1)

def create(R, P, t):
    fn = method(P, t, "Authority", "set_into_bytes")
    ip = R.interp(); paths = ip.run(fn); R.done(ip); R.count("paths", len(paths))
    label = t + "::set_into_bytes"; key = label
    ty = P.adt(t); cty = P.adt("Create" + t)
    src, dst = ("R", atom("sym", "a0")), ("R", atom("sym", "a1"))
    rec = Rec(ip, Ptr(dst), ty); cre = Rec(ip, Ptr(src), cty); nok = 0
    for s in paths:
        if contradictory(s): continue
        got = no_abort(R, ip, s, key, label)
        if got != "Ok": continue
        nok += 1
        R.ob(s.facts.prove(eq(length_of(1), K(ip.size(ty)))), key + " destination length", describe(s, ip, label + ": accepts a destination that is not exactly one record long"))
        for n, m in (("session_key", "session_key"), (maxfield(rec), maxfield(cre))):
            R.ob(s.facts.prove(le(K(cre.v["offs"][cre.idx(m)] + ip.size(cre.v["fields"][cre.idx(m)])), length_of(0))), key + " reads past creation data", describe(s, ip, label + ": accepts creation data too short to hold `%s`" % m))
            R.ob(same(ip, s, rec.get(s, n), cre.init(s, m), ip.size(rec.v["fields"][rec.idx(n)])), key + " field " + n,
                 describe(s, ip, "%s: `%s` ends as %s, not the value in the creation data" % (label, n, fmt(rec.canon(s, rec.get(s, n), n)))))
        R.ob(same(ip, s, rec.get(s, "current_session_expiration"), K(0)), key + " expiry",
             describe(s, ip, "%s: a new session authority starts with expiry %s" % (label, fmt(rec.get(s, "current_session_expiration")))))
        if "signature_odometer" in rec.names:
            R.ob(same(ip, s, rec.get(s, "signature_odometer"), K(0)), key + " odometer", describe(s, ip, label + ": a new authority starts with a counter other than 0"))
    R.floor("accepting path of " + label, nok, 1)
