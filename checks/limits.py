"""P01-P03: charge routines of the allowance records."""
from engine.spec import *

FIXED = [("SolLimit", "amount"), ("TokenLimit", "current_amount"), ("StakeLimit", "amount"),
         ("SolDestinationLimit", "amount"), ("TokenDestinationLimit", "amount")]

def run_fn(P, tyname):
    return P.one(r"^swig_state::action::[a-z_0-9]+::%s::run$" % tyname)

def outcome(ip, s):
    """'Ok' / 'Err' / other terminal kind"""
    if s.out != "ret": return s.out
    return vname(ip, s.ret) or "?"

def compare(R, ip, fn, s, rec, reference, label):
    """every path against the reference: result kind and final contents of every field"""
    for c, (res, fields) in cases(s, reference):
        got = outcome(ip, s)
        key = "%s" % strip_generics(fn["name"])
        R.count("path cases compared with the reference")
        if got not in ("Ok", "Err"):
            R.ob(False, key + " aborts", describe(c, ip, "%s: aborts (%s) where the contract requires %s, at %s" % (label, s.ret, res, site_fn(s, ip))))
            continue
        if not R.ob(got == res, key + " returns " + got, describe(c, ip, "%s: returns %s where the contract requires %s" % (label, got, res)),
                    sample={"function": key, "result": got, "path": [fmt(f) for f in c.facts.lst]}):
            continue
        for n in rec.names:
            want = fields.get(n, rec.init(c, n))
            have = rec.get(c, n)
            if callable(want): ok = want(c, have)
            else: ok = same(ip, c, have, want, ip.size(rec.v["fields"][rec.idx(n)]))
            R.ob(ok, key + " field " + n + " on " + got,
                 describe(c, ip, "%s: on %s field `%s` ends as %s, contract requires %s" % (label, got, n, fmt(rec.canon(c, have, n)), "a bounded value" if callable(want) else fmt(rec.canon(c, want, n)))))

def p01(R):
    P = R.prog()
    R.rule("On every path of the charge routine: Ok iff spend <= remaining (linear entailment from the path's branch facts); final record = initial with remaining - spend on Ok, byte-identical on Err; no aborting path.")
    n = 0
    for ty, fld in FIXED:
        fn = run_fn(P, ty)
        ip = R.interp()
        paths = ip.run(fn)
        R.count("paths", len(paths)); R.done(ip); n += 1
        aty = ip.T[fn["locals"][1]]["to"]
        a0 = atom("sym", "a0"); spend = V(atom("sym", "a1"))
        for s in paths:
            rec = Rec(ip, Ptr(("R", a0)), aty)
            rem = rec.init(s, fld)
            def ref(d, st):
                if d(le(spend, rem)): return "Ok", {fld: sub(rem, spend)}
                return "Err", {}
            if contradictory(s): continue
            compare(R, ip, fn, s, rec, ref, ty + "::run")
    R.floor("fixed allowance charge routines", n, 5)
    return R.finish("other", "Path-partitioned abstract interpretation (interval/linear-inequality domain over value numbers) of the MIR of the five charge routines; every path is compared with a reference relation for all 64-bit inputs.")

REC = [("SolRecurringLimit", "recurring_amount", "current_amount", "start"), ("StakeRecurringLimit", "recurring_amount", "current_amount", "start"),
       ("TokenRecurringLimit", "limit", "current", "start"),
       ("SolRecurringDestinationLimit", "recurring_amount", "current_amount", "now"), ("TokenRecurringDestinationLimit", "recurring_amount", "current_amount", "now")]

def p02(R):
    P = R.prog()
    R.rule("On every path, for all records with window != 0: refill to exactly the limit only if slot > last_reset + window and the spend fits the limit; Ok iff spend <= available after that; available falls by exactly the spend; limit, window and target fields keep their bytes; last_reset unchanged or within (last_reset_old .. slot]; no aborting path.")
    R.assume("records were accepted by the layout check (window != 0), decided by P04")
    n = 0
    for ty, lim, cur, kind in REC:
        fn = run_fn(P, ty)
        ip = R.interp()
        aty = ip.T[fn["locals"][1]]["to"]
        a0 = atom("sym", "a0"); spend = V(atom("sym", "a1")); slot = V(atom("sym", "a2"))
        rec = Rec(ip, Ptr(("R", a0)), aty)
        def setup(ip, st, vals): st.assume(ne(rec.init(st, "window")))
        paths = ip.run(fn, setup=setup)
        R.count("paths", len(paths)); R.done(ip); n += 1
        for s in paths:
            L, C, W, T = (rec.init(s, x) for x in (lim, cur, "window", "last_reset"))
            def ref(d, st):
                if d(lt(add(T, W), slot)) and d(le(spend, L)):
                    def reset(c, have): return c.facts.prove(le(have, slot)) and c.facts.prove(lt(slot, addk(add(have, W), 1)))
                    return "Ok", {cur: sub(L, spend), "last_reset": reset}
                if d(le(spend, C)): return "Ok", {cur: sub(C, spend)}
                return "Err", {}
            if contradictory(s): continue
            compare(R, ip, fn, s, rec, ref, ty + "::run")
    R.floor("recurring allowance charge routines", n, 5)
    return R.finish("other", "Path-partitioned abstract interpretation of the five recurring charge routines against a reference relation, for all records with a non-zero window and all slots.")

def p03(R):
    P = R.prog()
    R.rule("On every path: unlimited kind -> Ok, record unchanged; fixed kind -> Ok iff spent + spend <= limit (no wrap), spent grows by exactly the spend; recurring kind -> same after restarting from 0 iff slot > last_reset + window; missing slot or unknown kind -> Err; limit, window, program, target, kind never change; no aborting path.")
    R.assume("recurring-kind records have window != 0 (enforced by the layout check, P04)")
    fn = run_fn(P, "ProgramScope")
    ip = R.interp()
    aty = ip.T[fn["locals"][1]]["to"]
    a0 = atom("sym", "a0"); spend = V(atom("sym", "a1"))
    rec = Rec(ip, Ptr(("R", a0)), aty)
    kinds = {v["name"]: v["discr"] for v in P.types[P.adt("ProgramScopeType")]["variants"]}
    if sorted(kinds) != ["Basic", "Limit", "RecurringLimit"]: raise Missing("ProgramScopeType variants changed: %s" % kinds)
    opt = fn["locals"][3]
    sl = Sym(atom("sym", "a2"), opt)
    def setup(ip, st, vals):
        st.assume(ne(rec.init(st, "window")))
    paths = ip.run(fn, setup=setup)
    R.count("paths", len(paths)); R.done(ip)
    big = (1 << 128) - 1
    for s in paths:
        kind = rec.init(s, "scope_type")
        k8 = ip.cast(s, "IntToInt", kind, rec.v["fields"][rec.idx("scope_type")], P.bystr["u8"])
        disc = ip.enum_discr(s, sl)
        some = [i for i, v in enumerate(P.types[opt]["variants"]) if v["name"] == "Some"][0]
        slot = ip.enum_field(sl, some, 0)
        A, L, W, T = (rec.init(s, x) for x in ("current_amount", "limit", "window", "last_reset"))
        def charge(d, base, extra):
            tot = add(base, spend)
            if d(le(tot, K(big))):
                ok = d(le(tot, L))
            else:
                # a sum that does not fit is above every limit except the all-ones "unlimited" bound
                if d(eq(L, K(big))): return "any", None
                ok = False
            if ok: return "Ok", dict(extra, current_amount=tot)
            return "Err", dict(extra) if extra else {}
        def ref(d, st):
            if d(eq(k8, K(kinds["Basic"]))): return "Ok", {}
            if d(eq(k8, K(kinds["Limit"]))): return charge(d, A, {})
            if d(eq(k8, K(kinds["RecurringLimit"]))):
                if not d(eq(disc, K(P.types[opt]["variants"][some]["discr"]))): return "Err", {}
                if d(lt(add(T, W), slot)):
                    def reset(c, have): return c.facts.prove(le(have, slot)) and c.facts.prove(lt(slot, addk(add(have, W), 1)))
                    r, f = charge(d, K(0), {"last_reset": reset})
                    if r == "Err": f = {"last_reset": lambda c, have: True, "current_amount": lambda c, have: same(ip, c, have, A) or same(ip, c, have, K(0))}
                    return r, f
                return charge(d, A, {})
            return "Err", {}
        if contradictory(s): continue
        def ref2(d, st):
            r, f = ref(d, st)
            if r == "any":
                got = outcome(ip, s)
                return got, {"current_amount": lambda c, have: True, "last_reset": lambda c, have: True}
            return r, f
        compare(R, ip, fn, s, rec, ref2, "ProgramScope::run")
    R.floor("paths of ProgramScope::run", len(paths), 6)
    return R.finish("other", "Path-partitioned abstract interpretation of ProgramScope::run against a reference relation, for all records and slots (128-bit amounts).")
