"""P05: permission lookups."""
import re
from engine.spec import *
from .layout import SNAKE, kind_table, rec_type, Raw

# target fields of the kinds that may appear several times in a role
TARGET = {"TokenLimit": ["token_mint"], "TokenRecurringLimit": ["token_mint"], "SolDestinationLimit": ["destination"],
  "SolRecurringDestinationLimit": ["destination"], "TokenDestinationLimit": ["token_mint", "destination"],
  "TokenRecurringDestinationLimit": ["token_mint", "destination"], "Program": ["program_id"], "ProgramScope": ["target_account"],
  "SubAccount": ["sub_account"], "ReplaceAuthority": ["role_id"], "SubAccountV2All": ["subacc_id"], "SubAccountV2Sign": ["subacc_id"],
  "SubAccountV2Withdraw": ["subacc_id"], "SubAccountV2Toggle": ["subacc_id"]}
EXACT = {"ReplaceAuthority", "SubAccountV2All", "SubAccountV2Sign", "SubAccountV2Withdraw", "SubAccountV2Toggle", "SubAccount"}

def ldv(root, off, n):
    a = atom("ld", root, 0, off, K(n))
    if a.lo is None: a.lo, a.hi = 0, (1 << (8 * n)) - 1
    return a

def target_match(ip, kind, ty, aroot, base, kroot, klen):
    """reference: does the record at base answer the lookup key?  fn(d) -> bool or None (key too short: caller's contract)"""
    if kind not in TARGET: return lambda d: True
    v = ip.T[ty]["variants"][0]
    parts = []; pos = 0
    for f in TARGET[kind]:
        if f not in v["names"]: raise Missing("field %s of %s" % (f, kind))
        i = v["names"].index(f); n = ip.size(v["fields"][i])
        parts.append((v["offs"][i], n, pos)); pos += n
    def ref(d):
        if kind == "SubAccount" and d(eq(klen, K(0))):
            return d(bytes_eq(ldv(aroot, addk(base, parts[0][0]), 32), bytes(32)))
        if kind in EXACT:
            if not d(eq(klen, K(pos))): return False
        elif not d(le(K(pos), klen)): return None
        r = True
        for o, n, p in parts:
            if not d(bytes_eq(ldv(aroot, addk(base, o), n), ldv(kroot, K(p), n))): r = False; break
        return r
    return ref

def find_cursor(ip, X):
    """loop record whose variable is the record position X; -> (looprec, leaf, const offset)"""
    for lr in ip.looprecs:
        for lf, (val, init, ty) in lr.leaves.items():
            if isinstance(val, Lin) and single(val) is not None:
                d = sub(X, val)
                if d.const is not None: return lr, lf, d.c, init
    return None

ROUTINES = [("role_get", "stored"), ("rolemut_get", "stored"), ("rolemut_get_mut", "stored"), ("role_get_all", "all"), ("find", "wire")]

def region_of(ip, P, fn, st, routine):
    aty = fn["locals"][1]; t = ip.T[aty]
    a0 = atom("sym", "a0")
    if ip.T[t["to"]]["k"] == "slice": return ("R", a0), V(atom("len", a0, lo=0, hi=U63))
    rec = Rec(ip, Ptr(("R", a0)), t["to"])
    p = rec.init(st, "actions")
    return p.root, p.meta

def check_one(R, P, kind, num, ty, routine, mode):
    fn = P.one(r"^probe::%s::%s$" % (SNAKE[kind], routine))
    ip = R.interp()
    paths = ip.run(fn)
    R.done(ip); R.count("paths", len(paths)); R.count("loop iterations summarised", sum(len(l.latches) for l in ip.looprecs))
    LEN = P.types[ty]["size"]
    name = "%s(%s)" % (routine, kind)
    tname = [f for f in (P.fns[k]["name"] for k in ip.visited) if re.search(r"(Role|RoleMut|ActionLoader)(::<.*?>)?::(get_action|get_action_mut|get_all_actions_of_type|find_action)", f)]
    key = strip_generics(tname[0]) if tname else name
    kroot, klen = ("R", atom("sym", "a1")), V(atom("len", atom("sym", "a1"), lo=0, hi=U63))
    st0 = ip.new_state(); root, ln = region_of(ip, P, fn, st0, routine)
    somes = []
    def wf(c, X):
        """assume the record at X is structurally sound (what the writer guarantees for stored roles)"""
        kd = V(ldv(root, X, 2)); dl = V(ldv(root, addk(X, 2), 2)); bd = V(ldv(root, addk(X, 4), 4))
        c.assume(le(addk(X, 8), ln), le(kd, K(26)), f_or(ne(kd, K(num)), le(addk(X, 8 + LEN), ln)), le(K(8), ln))
        c.assume(le(addk(X, 8), bd), le(bd, ln))
        if mode == "wire": c.assume(le(add(addk(X, 8), dl), ln), f_or(ne(kd, K(num)), eq(dl, K(LEN))))
        if c.facts.prove(eq(kd, K(num))): c.assume(le(addk(X, 8 + LEN), ln), *([eq(dl, K(LEN))] if mode == "wire" else []))
        return c
    cur = None
    if len(ip.looprecs) != 1:
        # the search must be a single walk over the records
        R.ob(False, key + " walk", "%s: expected one walk over the records, found %d loops" % (name, len(ip.looprecs))); return
    lr = ip.looprecs[0]
    # the position variable: the one whose value indexes the kind number read
    for lf, (val, init, lty) in lr.leaves.items():
        if not isinstance(val, Lin) or not isinstance(init, Lin): continue
        for c0 in (0, -8, 8):
            if addk(init, c0).const != 0: continue
            X = addk(val, c0)
            kd = ldv(root, X, 2)
            if any(kd in atoms_of(f) for s in lr.latches + lr.exits for f in s.facts.lst): cur = (lf, X, c0)
    if not R.ob(cur is not None, key + " walk", "%s: no variable walks the records from offset 0 by their recorded positions" % name): return
    lf, X, c0 = cur
    kd = V(ldv(root, X, 2))
    match = target_match(ip, kind, ty, root, addk(X, 8), kroot, klen)
    vec0 = lr.entry
    def pushes(s): return [e for e in s.events[len(lr.head.events):] if e[0] == "push"]
    for s in lr.latches:
        if contradictory(s): continue
        nx = addk(ip.get_leaf(s, lf), c0)
        want = add(addk(X, 8), V(ldv(root, addk(X, 2), 2))) if mode == "wire" else V(ldv(root, addk(X, 4), 4))
        R.ob(s.facts.prove(eq(nx, want)), key + " step", describe(s, ip, "%s: the walk moves to %s instead of the record's recorded end" % (name, fmt(nx))))
        def ref(d, st):
            if not d(eq(kd, K(num))): return False
            return match(d) if mode != "all" else True
        for c, r in cases(s, ref):
            if r is None: continue
            if mode == "all":
                ps = pushes(s)
                ok = len(ps) == (1 if r else 0) and all(is_rec(ip, s, p[2], root, addk(X, 8)) for p in ps)
                R.ob(ok, key + " collects", describe(c, ip, "%s: at a record that %s the collection changes by %d entries" % (name, "qualifies" if r else "does not qualify", len(ps))))
            else:
                R.ob(not r, key + " skips a match", describe(c, ip, "%s: a record of the requested kind and target is skipped" % name))
        oob(R, ip, s, wf, X, key, name)
    for s in paths:
        if contradictory(s): continue
        got = s.out if s.out != "ret" else vname(ip, s.ret)
        inloop = any(x is not None for x in [find_in(s, X)])
        if got == "Ok":
            v = s.ret.f[0]
            if mode == "all":
                R.ob(s.facts.prove(le(ln, X)), key + " stops early", describe(s, ip, "%s: returns before the end of the records" % name)); somes.append(1)
                continue
            if not isinstance(v, Agg): R.ob(False, key + " result", describe(s, ip, "%s: unrecognised result %r" % (name, v))); continue
            if vname(ip, v) == "None":
                R.ob(s.facts.prove(le(ln, X)), key + " gives up early", describe(s, ip, "%s: reports absence before the end of the records" % name))
                continue
            p = v.f[0]; somes.append(1)
            ok = isinstance(p, Ptr) and p.root == root and s.facts.prove(eq(p.off, addk(X, 8)))
            if not R.ob(ok, key + " returns", describe(s, ip, "%s: returns %r, not the record after the examined header" % (name, p))): continue
            R.ob(s.facts.prove(eq(kd, K(num))), key + " kind", describe(s, ip, "%s: returns a record whose stored kind is not shown to be %s" % (name, kind)))
            for c, r in cases(s, lambda d, st: match(d)):
                R.ob(r is True, key + " target " + kind, describe(c, ip, "%s: returns a record whose target differs from the requested one" % name),
                     sample={"routine": key, "kind": kind, "facts": [fmt(f) for f in c.facts.lst][:8]})
        else:
            c = wf(s.copy(), X)
            if kind in TARGET and kind not in EXACT and mode != "all":
                c.assume(le(K(sum(P.types[ty]["variants"][0]["names"] and [32] * len(TARGET[kind]))), klen))
            R.ob(contradictory(c), key + " refuses", describe(c, ip, "%s: %s on a well-formed role at %s" % (name, got, site_fn(s, ip))))
        oob(R, ip, s, wf, X, key, name)
    R.ob(bool(somes), key + " never finds", "%s: no path returns a record" % name)

def find_in(s, X):
    return None

def is_rec(ip, s, v, root, off):
    if isinstance(v, tuple) and v and v[0] == "ptr": v = v[1:]
    return ptr_is(s, v, root, off)
def ptr_is(s, v, root, off):
    if isinstance(v, Ptr): return v.root == root and s.facts.prove(eq(v.off, off))
    if isinstance(v, Atom):
        return any(isinstance(x, Lin) and s.facts.prove(eq(x, off)) for x in v.args) and any(x == root for x in v.args)
    if isinstance(v, tuple):
        return any(x == root for x in v) and any(isinstance(x, Lin) and s.facts.prove(eq(x, off)) for x in v)
    return False

def oob(R, ip, s, wf, X, key, name):
    seen = set()
    for e in s.events:
        if e[0] != "oob": continue
        k = (e[1], fmt(e[2]), fmt(e[3]), e[6])
        if k in seen: continue
        seen.add(k)
        ext = ip.ext.get(e[7]) if e[7] else None
        if ext is None: ext = (s.env or {}).get("extent", {}).get(e[7])
        ok = False
        if ext is not None:
            c = s.copy(); c.facts = Facts().copy_add(*s.facts.lst[:e[6]])
            wf(c, X)
            ok = c.facts.prove(le(add(e[2], e[3]), ext)) and c.facts.prove(le(K(0), e[2]))
        R.ob(ok, key + " reach", describe(s, ip, "%s: reads %s bytes at %s of %s, outside the record being examined" % (name, fmt(e[3]), fmt(e[2]), e[1])))

def p05(R):
    P = R.prog()
    R.rule("Every lookup is one walk from offset 0 whose position moves to the record's recorded end (creation-time lookup: to the end of the header's own data length); it returns exactly header+8 of a record whose kind number equals the requested kind and, for repeatable kinds, whose target bytes equal the key; it never skips such a record, reports absence only at the end, refuses only malformed regions, and reads nothing outside the examined header and record.")
    R.assume("a role's stored permission bytes are records with in-range recorded ends (what adding a role guarantees, P16)")
    kinds = kind_table(P); n = 0
    for kind in sorted(SNAKE):
        ty = rec_type(P, kind)
        im = P.impl("Actionable", kind)
        rep = bool(im["consts"]["REPEATABLE"]["a"]["b"][0])
        R.ob(rep == (kind in TARGET), "REPEATABLE of " + kind, "%s: may it appear several times? declared %s, contract %s" % (kind, rep, kind in TARGET))
        for routine, mode in ROUTINES:
            if mode == "wire" and kind not in ("All", "ManageAuthority"): continue
            check_one(R, P, kind, kinds[kind], ty, routine, mode); n += 1
        # the target comparison itself
        if kind in TARGET:
            fn = P.one(r"^probe::%s::match_data$" % SNAKE[kind])
            ip = R.interp(); paths = ip.run(fn); R.done(ip)
            root = ("R", atom("sym", "a0")); kroot = ("R", atom("sym", "a1")); klen = V(atom("len", atom("sym", "a1"), lo=0, hi=U63))
            m = target_match(ip, kind, ty, root, K(0), kroot, klen)
            for s in paths:
                if contradictory(s): continue
                for c, r in cases(s, lambda d, st: m(d)):
                    if r is None:
                        R.ob(s.out != "ret" or c.facts.prove(neg(s.ret)), kind + "::match_data short key", describe(c, ip, kind + ": a key shorter than the target matches"))
                        continue
                    if not R.ob(s.out == "ret", kind + "::match_data aborts", describe(c, ip, kind + ": target comparison aborts")): continue
                    R.ob(c.facts.prove(s.ret if r else neg(s.ret)), kind + "::match_data", describe(c, ip, "%s: target comparison yields %s where the contract requires %s" % (kind, fmt(s.ret), r)))
    R.floor("lookup instantiations", n, 26 * 4 + 2)
    return R.finish("other", "Every instantiation of the five lookup routines, as loop summaries of the abstract interpreter (loop head invariants found by iteration), checked against the search contract for all role contents and keys.")
