"""P04: well-formedness verdicts of the permission records."""
from engine.spec import *

SNAKE = {"SolLimit": "sol_limit", "SolRecurringLimit": "sol_recurring_limit", "SolDestinationLimit": "sol_destination_limit",
 "SolRecurringDestinationLimit": "sol_recurring_destination_limit", "TokenLimit": "token_limit", "TokenRecurringLimit": "token_recurring_limit",
 "TokenDestinationLimit": "token_destination_limit", "TokenRecurringDestinationLimit": "token_recurring_destination_limit",
 "StakeLimit": "stake_limit", "StakeRecurringLimit": "stake_recurring_limit", "StakeAll": "stake_all", "Program": "program",
 "ProgramAll": "program_all", "ProgramCurated": "program_curated", "ProgramScope": "program_scope", "All": "all",
 "AllButManageAuthority": "all_but_manage_authority", "ManageAuthority": "manage_authority", "CloseSwigAuthority": "close_swig_authority",
 "SubAccount": "sub_account", "ReplaceAuthority": "replace_authority", "SubAccountV2Create": "sub_account_v2_create",
 "SubAccountV2All": "sub_account_v2_all", "SubAccountV2Sign": "sub_account_v2_sign", "SubAccountV2Withdraw": "sub_account_v2_withdraw",
 "SubAccountV2Toggle": "sub_account_v2_toggle"}

def kind_table(P):
    """kind name -> number, as declared by the Permission enum"""
    t = P.types[P.adt("Permission")]
    return {v["name"]: v["discr"] for v in t["variants"]}

def rec_type(P, kind):
    return P.adt(kind)

class Raw:
    """named fields of a record laid over a byte slice argument"""
    def __init__(self, ip, root, ty):
        self.ip, self.root, self.t = ip, root, ip.T[ty]
        self.v = self.t["variants"][0]
    def bytes(self, a, n): return self.ip.sub_bytes(atom("ld", self.root, 0, K(0), K(self.t["size"])), K(a), K(n))
    def num(self, name):
        if name not in self.v["names"]: raise Missing("field %s of %s" % (name, self.t["s"]))
        i = self.v["names"].index(name)
        return self.v["offs"][i], self.ip.size(self.v["fields"][i])
    def word(self, st, name):
        o, n = self.num(name)
        a = atom("ld", self.root, 0, K(o), K(n))
        if a.lo is None: a.lo, a.hi = 0, (1 << (8 * n)) - 1
        return V(a)

def well_formed(ip, kind, root, n, ty):
    """reference verdict: fn(d, st) -> bool"""
    size = ip.T[ty]["size"]
    r = Raw(ip, root, ty)
    def ref(d, st):
        if not d(eq(n, K(size))): return False
        w = lambda x: r.word(st, x)
        if kind in ("SolRecurringLimit", "StakeRecurringLimit"):
            return d(ne(w("window"))) and d(eq(w("last_reset"), K(0))) and d(eq(w("current_amount"), w("recurring_amount")))
        if kind == "TokenRecurringLimit":
            return d(ne(w("window"))) and d(eq(w("last_reset"), K(0))) and d(eq(w("current"), w("limit")))
        if kind in ("SolRecurringDestinationLimit", "TokenRecurringDestinationLimit"):
            return d(ne(w("window"))) and d(le(w("current_amount"), w("recurring_amount")))
        if kind == "ProgramScope":
            if d(eq(scope_kind(ip, r), K(2))): return d(ne(w("window")))
            return True
        if kind == "SubAccount":
            o, m = r.num("sub_account")
            e, _ = r.num("enabled")
            return d(bytes_eq(atom("ld", root, 0, K(o), K(m)), bytes(m))) and d(le(V(atom("ld", root, 0, K(e), K(1), lo=0, hi=255)), K(1)))
        return True
    return ref

def scope_kind(ip, r):
    o, n = r.num("scope_type")
    a = atom("ld", r.root, 0, K(o), K(1), lo=0, hi=255)
    return V(a)

def verdict(ip, s):
    """True/False/formula, or None for a refusal by error, or text for an abnormal end"""
    if s.out != "ret": return "aborts"
    v = vname(ip, s.ret)
    if v == "Err": return None
    if v != "Ok": return "?"
    return s.ret.f[0]

def check_verdict(R, ip, paths, ref, key, label, refuse_ok=True):
    for s in paths:
        if contradictory(s): continue
        for c, want in cases(s, ref):
            R.count("path cases compared with the reference")
            got = verdict(ip, s)
            if isinstance(got, str):
                R.ob(False, key + " aborts", describe(c, ip, "%s: aborts (%s) at %s" % (label, s.ret, site_fn(s, ip)))); continue
            if got is None:
                R.ob(want is False, key + " errors", describe(c, ip, "%s: refuses a well-formed record with an error" % label)); continue
            for want2, b in ((True, got), (False, neg(got))):
                if want != want2 and not c.facts.prove(neg(b)):
                    # the opposite verdict is possible
                    R.ob(False, key + (" accepts" if not want else " refuses"), describe(c, ip, "%s: %s a record the contract %s" % (label, "accepts" if not want else "refuses", "refuses" if not want else "accepts")))
                    break
            else:
                R.ob(True, key, "", sample={"function": key, "accepts": want, "path": [fmt(f) for f in c.facts.lst][:8]})

def p04(R):
    P = R.prog()
    R.rule("For every kind and every byte string: Ok(true) exactly when the reference predicate over length and record fields holds, Ok(false)/Err otherwise, no aborting path; ActionLoader::validate_layout(kind, bytes) decides the predicate of that kind and refuses kind 0.")
    kinds = kind_table(P)
    n = 0
    for kind, snake in sorted(SNAKE.items()):
        if kind not in kinds: raise Missing("permission kind " + kind)
        ty = rec_type(P, kind)
        fn = P.one(r"^probe::%s::valid_layout$" % snake)
        ip = R.interp()
        paths = ip.run(fn)
        root = ("R", atom("sym", "a0")); ln = V(atom("len", atom("sym", "a0"), lo=0, hi=U63))
        check_verdict(R, ip, paths, well_formed(ip, kind, root, ln, ty), kind + "::valid_layout", kind + "::valid_layout")
        R.done(ip); R.count("paths", len(paths)); n += 1
    R.floor("record kinds checked", n, 26)
    extra = sorted(set(kinds) - set(SNAKE) - {"None"})
    for k in extra: R.ob(False, "kind " + k, "permission kind %s has no reference record in this check" % k)
    # dispatch
    fn = P.one(r"^swig_state::action::ActionLoader::validate_layout$")
    pty = P.adt("Permission")
    for kind, num in sorted(kinds.items()):
        ip = R.interp()
        vi = [i for i, v in enumerate(P.types[pty]["variants"]) if v["name"] == kind][0]
        def args(ip, st, fn):
            vals = ip.arg_values(st, fn)
            vals[0] = Agg(pty, vi, ())
            return vals
        paths = ip.run(fn, args=args)
        root = ("R", atom("sym", "a1")); ln = V(atom("len", atom("sym", "a1"), lo=0, hi=U63))
        ref = well_formed(ip, kind, root, ln, rec_type(P, kind)) if kind != "None" else (lambda d, st: False)
        check_verdict(R, ip, paths, ref, "ActionLoader::validate_layout " + kind, "validate_layout(%s)" % kind)
        R.done(ip); R.count("paths", len(paths))
    return R.finish("other", "Path-partitioned abstract interpretation of every kind's layout check and of the dispatcher, each compared with a reference predicate for byte strings of every length.")
