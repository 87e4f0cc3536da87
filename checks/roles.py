"""P15, P16: adding and removing roles (on-chain configuration)."""
from engine.spec import *
from .lookup import ldv
from .limits import outcome
from .authority import OPQ, auth_tables, ANUM
from engine.query import field_writes, callers

ADD, REMOVE = r"^swig_state::swig::SwigBuilder::<.*>::add_role$", r"^swig_state::swig::SwigBuilder::<.*>::remove_role$"
POS = 16

class Builder:
    """the SwigBuilder behind argument 0: role buffer region and wallet header record"""
    def __init__(self, ip, P):
        self.rec = Rec(ip, Ptr(("R", atom("sym", "a0"))), P.adt("SwigBuilder"))
        st = ip.new_state()
        rb, sw = self.rec.init(st, "role_buffer"), self.rec.init(st, "swig")
        self.root, self.len = rb.root, rb.meta
        self.swig = Rec(ip, Ptr(sw.root, sw.path, sw.off if sw.off is not None else K(0)), P.adt("Swig"))
        self.counter = self.swig.init(st, "role_counter"); self.roles = self.swig.init(st, "roles")
        self.live = [lt(self.counter, K((1 << 32) - 1)), lt(self.roles, K((1 << 16) - 1)), le(self.len, K(1 << 31))]

def run_add(R, P, k, avar):
    fn = P.one(ADD); pty = P.adt("AuthorityType"); ip = R.interp("solana", opaque=OPQ)
    def args(ip, st, fn):
        v = ip.arg_values(st, fn); v[1] = Agg(pty, avar[k], ()); return v
    paths = ip.run(fn, args=args)
    b = Builder(ip, P); out = []
    for s in paths:
        s.assume(*b.live)
        if not contradictory(s): out.append(s)
    R.done(ip); R.count("paths", len(out))
    return ip, b, out

def run_remove(R, P):
    ip = R.interp("solana"); paths = ip.run(P.one(REMOVE))
    b = Builder(ip, P); out = []
    for s in paths:
        s.assume(*b.live)
        if not contradictory(s): out.append(s)
    R.done(ip); R.count("paths", len(out))
    return ip, b, out

def header(R, ip, b, s, key, want, when):
    """the wallet header ends as given (field -> term), everything else as it began"""
    for n in b.swig.names:
        have = b.swig.get(s, n)
        ok = same(ip, s, have, want[n] if n in want else b.swig.init(s, n), ip.size(b.swig.v["fields"][b.swig.idx(n)]))
        R.ob(ok, "%s header field %s %s" % (key, n, when), describe(s, ip, "%s: wallet header field `%s` ends as %s %s" % (key, n, fmt(b.swig.canon(s, have, n)), when)),
             sample={"function": key, "field": n, "when": when, "ends as": fmt(b.swig.canon(s, have, n))})

def p15(R):
    P = R.prog("solana")
    R.rule("add_role, for each authority kind: on every Ok path the new record's id is the wallet's role_counter before the call, role_counter ends one higher, roles ends one higher, nothing else in the wallet header changes; on Err the header is unchanged. remove_role: on every Ok path roles ends one lower and nothing else in the header (role_counter included) changes; on Err the header is unchanged. No function outside those two (and what they alone call) writes either counter, except the migration that copies them over.")
    R.assume("fewer than 2^32-1 roles are ever added to one wallet and fewer than 65535 are live (the 10 MiB account and compute limits keep the live count far below)")
    num, av = auth_tables(P)
    kinds = [k for k in ANUM]
    def g(R, k):
        if k is None: return rem(R)
        ip, b, paths = run_add(R, P, k, av)
        key = "SwigBuilder::add_role"; nok = 0
        for s in paths:
            got = outcome(ip, s)
            if got == "Ok":
                nok += 1
                at = new_position(ip, b, s)
                R.ob(at is not None and s.facts.prove(eq(V(le_at(ip, b, s, addk(at, 8), 4)), b.counter)) if at is not None else False, key + " id",
                     describe(s, ip, "%s (%s): the new role's recorded id is not the wallet's counter value" % (key, k)))
                header(R, ip, b, s, key, {"role_counter": addk(b.counter, 1), "roles": addk(b.roles, 1)}, "on success")
            elif got == "Err": header(R, ip, b, s, key, {}, "on refusal")
        R.floor("successful paths of add_role for " + k, nok, 1)
    def rem(R):
        ip, b, paths = run_remove(R, P)
        key = "SwigBuilder::remove_role"; nok = 0
        for s in paths:
            got = outcome(ip, s)
            if got == "Ok":
                nok += 1
                s.assume(le(K(1), b.roles))
                if contradictory(s): continue
                header(R, ip, b, s, key, {"roles": addk(b.roles, -1)}, "on success")
            elif got == "Err": header(R, ip, b, s, key, {}, "on refusal")
        R.floor("successful paths of remove_role", nok, 1)
    R.par(kinds + [None], g)
    R.floor("authority kinds added", len(kinds), 8)
    writers(R, P)
    return R.finish("other", "Path-partitioned abstract interpretation with inductive loop summaries, on-chain configuration, of add_role (each authority kind) and remove_role for all wallets and arguments; plus a whole-program query for writers of the two counters.")

def le_at(ip, b, s, off, n):
    """integer stored at off of the role buffer"""
    x = ip.canon(s, ip.slice_bytes(s, Ptr(b.root, (), off), K(n)))
    i = as_int(x)
    if i is None: return atom("opaque-bytes", x)
    a = single(i)
    return a if a is not None else atom("val", i, lo=0, hi=(1 << (8 * n)) - 1) if i.const is None else atom("k", i.c, lo=i.c, hi=i.c)

def new_position(ip, b, s):
    """where the new role record starts: the end of the walk over the stored roles"""
    for lr in ip.looprecs:
        for lf, (val, init, ty) in lr.leaves.items():
            if isinstance(val, Lin) and isinstance(init, Lin) and init.const == 0 and single(val) is not None:
                if all(s2.facts.prove(eq(ip.get_leaf(s2, lf), V(ldv(b.root, addk(val, 12), 4)))) for s2 in lr.latches) and lr.latches: return val
    return None

# ---------------------------------------------------------------- who writes the counters
def writers(R, P):
    R.rule("Counter writers: functions assigning a field named role_counter/roles of the wallet header, closed upward over callers up to the two entry points.")
    up = callers(P)
    entry = {f["key"] for pat in (ADD, REMOVE) for f in P.find(pat)}
    n = 0
    for k, f in P.fns.items():
        if not f.get("krate", "").startswith("swig"): continue
        for fld, where in field_writes(P, f, "Swig", ("role_counter", "roles")):
            n += 1
            todo = [k]; seen = set()
            while todo:
                x = todo.pop()
                if x in seen or x in entry or migration(P.fns[x]): continue
                seen.add(x)
                more = up.get(x, set()) - seen
                if not up.get(x):
                    R.ob(False, "writer %s of %s" % (strip_generics(f["name"]), fld), "%s assigns the wallet's %s outside add_role/remove_role (reached from %s)" % (strip_generics(f["name"]), fld, strip_generics(P.fns[x]["name"])))
                todo.extend(more)
    R.floor("assignments to the two counters", n, 3)

def migration(f): return "migrate_to_wallet_address" in f["name"]

# ---------------------------------------------------------------- P16
CALC, DUP, VL = "SwigBuilder::calculate_num_actions", "ActionLoader::reject_duplicate_v2_scoped", "ActionLoader::validate_layout"
MAXACC = 10485760 + 65536

def calls(s, suffix): return [e for e in s.events if e[0] == "call" and e[1].endswith(suffix)]
def succeeded(s, a): return s.facts.prove(eq(V(atom("discr", a)), K(0)))
def val0(a): return V(atom("vf", a, 0, 0))
def stores(s, root, since=0): return [e for e in s.events[since:] if e[0] == "store" and e[1] == root]

def mem_at(ip, s, root, off, n): return ip.canon(s, ip.slice_bytes_nochk(s, Ptr(root, (), off), n))
def init_at(ip, root, off, n):
    st = ip.new_state()
    return ip.canon(st, ip.slice_bytes_nochk(st, Ptr(root, (), off), n))
def u_at(ip, s, root, off, n):
    x = mem_at(ip, s, root, off, K(n))
    if isinstance(x, bytes): return K(int.from_bytes(x, "little"))
    if isinstance(x, Atom) and x.op == "le": return x.args[0]
    if isinstance(x, Atom) and x.op == "snap":
        v = as_int(x)
        return v if v is not None else V(x)
    return V(x) if isinstance(x, Atom) else None

def stepping(ip, lr, nxt, init=None):
    """loop variables whose every iteration moves them to nxt(state, variable)"""
    out = []
    for lf, (val, i0, ty) in lr.leaves.items():
        if lf[0] not in ("S", "C") or not isinstance(val, Lin) or single(val) is None or not lr.latches: continue
        if init is not None and not (isinstance(i0, Lin) and lr.head.facts.prove(eq(i0, init))): continue
        good = True
        for s in lr.latches:
            if contradictory(s): continue
            try: v = ip.get_leaf(s, lf)
            except KeyError: good = False; break
            w = nxt(s, val)
            if w is None or not isinstance(v, Lin) or not s.facts.prove(eq(v, w)): good = False; break
        if good: out.append((lf, val))
    return out

def counters(ip, lr):
    """(step, distance travelled) of the loop's variables that move by a constant every iteration"""
    out = []
    live = [s for s in lr.latches if not contradictory(s)]
    for lf, (val, i0, ty) in lr.leaves.items():
        if lf[0] not in ("S", "C") or not isinstance(val, Lin) or single(val) is None or not isinstance(i0, Lin) or not live: continue
        try: v = ip.get_leaf(live[0], lf)
        except KeyError: continue
        d = None
        if isinstance(v, Lin):
            d = sub(v, val).const
            if d is None: d = next((k for k in (1, -1, 8, -8, 16, 40, 48, 56) if live[0].facts.prove(eq(v, addk(val, k)))), None)
        if d and stepping(ip, lr, lambda t, x: addk(x, d)) and any(l == lf for l, _ in stepping(ip, lr, lambda t, x: addk(x, d))): out.append((d, sub(val, i0)))
    return out
def rounds(ip, lr, facts, total):
    """did the loop run exactly `total` times on a path with these facts"""
    return any(facts.prove(eq(x, scale(total, d))) for d, x in counters(ip, lr))

def in_state(s, val):
    a = single(val)
    return any(a in deep_atoms(f) for f in s.facts.lst)

def p16(R):
    P = R.prog("solana")
    R.rule("add_role (each authority kind), every Ok path: the supplied list was walked by the counting routine and by the duplicate check, both successfully, over the whole list; with X the end of the stored roles, every write to the role area is at or after X; the record at X carries the kind's number, the kind's record length, the counted number of permissions and the end X+16+length+len(list); the authority setter of that very kind received the supplied data and exactly [X+16, length); the copy loop starts at X+16+length and at the list's start, and each iteration copies the header at the cursor, replaces its boundary by the offset just after this record, copies the record's bytes, checks its layout and steps both cursors by 8+recorded length, for exactly the counted number of iterations.")
    R.rule("counting routine, every Ok path: one walk from 0 in steps of 8+recorded length, each record within the list and of valid layout, up to the end of the list; the result is the number of steps and at least 1.")
    R.rule("remove_role, every Ok path, for structurally sound roles: with O and B the position and recorded end of the stored role carrying the requested id, bytes [B,len) move to O, the last B-O bytes are zero, (len-(B-O), B-O) is returned; the walk from O changes only the recorded end of each role it visits, lowering it by B-O, steps to the lowered value and stops only at len-(B-O). On Err nothing is written.")
    R.assume("stored roles are structurally sound: each recorded end lies at least 16 bytes after its role's start and within the role area (established by add_role/remove_role themselves); accounts are at most 10 MiB; the role area given to the builder excludes the optional trailer (P30)")
    num, av = auth_tables(P)
    def g(R, k):
        if k == "count": return counting(R, P)
        if k == "remove": return removal(R, P)
        return addition(R, P, k, num[k], av)
    R.par(list(ANUM) + ["count", "remove"], g)
    return R.finish("other", "Path-partitioned abstract interpretation with inductive loop summaries, on-chain configuration, of add_role (each authority kind), the permission counting routine and remove_role, for all wallets and arguments.")

def counting(R, P):
    fn = P.one(r"SwigBuilder.*::calculate_num_actions$"); key = "counting permissions"
    ip = R.interp("solana", opaque=[r"ActionLoader::validate_layout"]); paths = ip.run(fn); R.done(ip)
    root = ("R", atom("sym", "a0")); n = V(atom("len", atom("sym", "a0"), lo=0, hi=U63))
    nok = 0
    for s in paths:
        s.assume(le(n, K(MAXACC)))
        if contradictory(s) or outcome(ip, s) != "Ok": continue
        nok += 1; why = None
        for lr in ip.looprecs:
            cs = stepping(ip, lr, lambda t, v: add(addk(v, 8), V(ldv(root, addk(v, 2), 2))), K(0))
            for lf, c in cs:
                for cnt in [s.ret.f[0]]:
                    if not rounds(ip, lr, s.facts, cnt): continue
                    why = []
                    if not s.facts.prove(le(n, c)): why.append("the walk may stop before the end of the list")
                    if not s.facts.prove(le(K(1), cnt)): why.append("an empty list may be accepted")
                    for t in lr.latches:
                        t = t.copy(); t.assume(le(n, K(MAXACC)))
                        if contradictory(t): continue
                        ln = V(ldv(root, addk(c, 2), 2))
                        if not t.facts.prove(le(add(addk(c, 8), ln), n)): why.append("a record may overrun the list")
                        if not valid_layout(ip, t, root, c, ln): why.append("a record's layout is not checked")
        R.ob(why == [], key, describe(s, ip, "%s: %s" % (key, "; ".join(why) if why else "no walk over the list decides the result")))
    R.floor("successful paths of the counting routine", nok, 1)

def valid_layout(ip, t, root, c, ln):
    want = init_at(ip, root, addk(c, 8), ln)
    for e in calls(t, VL):
        kind, data = e[2][0], e[2][1]
        try: num = ip.discr(t, kind)
        except Exception: num = None
        if num is None and isinstance(kind, Atom) and kind.op == "enumof": num = V(kind.args[0]) if isinstance(kind.args[0], Atom) else kind.args[0]
        ok = succeeded(t, e[3]) and t.facts.prove(ne(val0(e[3]), K(0)))
        if ok and isinstance(num, Lin) and t.facts.prove(eq(num, V(ldv(root, c, 2)))) and data[0] == "bytes" and t.facts.prove(eq(data[2], ln)) and data[1] == want: return True
    return False

def addition(R, P, k, num, av):
    ip, b, paths = run_add(R, P, k, av); root = b.root
    key = "add_role(%s)" % k
    T = P.adt({"Ed25519": "ED25519Authority"}.get(k, k + "Authority")); alen = P.types[T]["size"]; tn = strip_generics(P.types[T]["s"]).split("::")[-1]
    acts = ("R", atom("sym", "a3")); n = V(atom("len", atom("sym", "a3"), lo=0, hi=U63)); an = V(atom("len", atom("sym", "a2"), lo=0, hi=U63))
    nok = 0
    for s in paths:
        s.assume(le(n, K(MAXACC)), le(b.len, K(MAXACC)))
        if contradictory(s): continue
        got = outcome(ip, s)
        if got != "Ok": continue
        nok += 1
        X = new_position(ip, b, s); cnt = None; why = []
        if X is None: why.append("the record is not placed at the end of a walk over the stored roles")
        else:
            for e in calls(s, CALC):
                if succeeded(s, e[3]) and whole(s, e[2][0], acts, n): cnt = val0(e[3])
            if cnt is None: why.append("the list is not counted before use")
            if not any(succeeded(s, e[3]) and whole(s, e[2][0], acts, n) for e in calls(s, DUP)): why.append("the list is not checked for repeated sub-account permissions")
            if not any(e[1].endswith(tn + "::set_into_bytes") and succeeded(s, e[3]) and whole(s, e[2][0], ("R", atom("sym", "a2")), an) and same(ip, s, e[2][1][1], init_at(ip, root, addk(X, 16), K(alen))) for e in calls(s, "set_into_bytes")):
                why.append("the supplied authority data does not go through %s::set_into_bytes into the new record" % tn)
            if not s.facts.prove(eq(u_at(ip, s, root, X, 2), K(num))): why.append("recorded kind number")
            if not s.facts.prove(eq(u_at(ip, s, root, addk(X, 2), 2), K(alen))): why.append("recorded authority length")
            if cnt is not None and not s.facts.prove(eq(u_at(ip, s, root, addk(X, 4), 2), cnt)): why.append("recorded number of permissions is not the counted one")
            end = add(addk(X, 16 + alen), n); bd = u_at(ip, s, root, addk(X, 12), 4)
            if not s.facts.prove(eq(bd, end)): why.append("recorded end is %s, the true end is %s" % (fmt(bd), fmt(end)))
            for e in stores(s, root):
                if not s.facts.prove(le(X, e[2])): why.append("a write at %s may fall before the new record" % fmt(e[2]))
            why += copy_loop(ip, b, s, X, alen, acts, n, cnt)
        R.ob(not why, key + ": " + ", ".join(sorted(set(w.split(" at ")[0].split(" is ")[0] for w in why))), describe(s, ip, "%s: %s" % (key, "; ".join(why))),
             sample={"function": key, "recorded end": fmt(add(addk(X, 16 + alen), n)) if X is not None else "?"})
    R.floor("successful paths of " + key, nok, 1)

def whole(s, arg, root, n): return isinstance(arg, tuple) and arg[0] == "bytes" and s.facts.prove(eq(arg[2], n)) and arg[1] == atom_of(root, n)
def atom_of(root, n): return atom("ld", root, 0, K(0), n)

def copy_loop(ip, b, s, X, alen, acts, n, cnt):
    root = b.root; start = addk(X, 16 + alen); why = ["no loop copies the permissions"]
    for lr in ip.looprecs:
        for _, ac in stepping(ip, lr, lambda t, v: add(addk(v, 8), V(ldv(acts, addk(v, 2), 2))), K(0)):
            if not in_state(s, ac): continue
            for _ in (1,):
                if not s.facts.prove(eq(ac, n)) and (cnt is None or not rounds(ip, lr, s.facts, cnt)): continue
                why = []
                for t in lr.latches:
                    t = t.copy(); t.assume(le(n, K(MAXACC)), le(b.len, K(MAXACC)), *b.live)
                    if contradictory(t): continue
                    c = alias(lr, add(start, ac)); ln = V(ldv(acts, addk(ac, 2), 2))
                    if not valid_layout(ip, t, acts, ac, ln): why.append("a record is copied without a layout check")
                    if not all(copied(ip, t, root, addk(c, o), acts, addk(ac, o), 2) for o in (0, 2)): why.append("a record's kind and length are not copied to its place")
                    bd = u_at(ip, t, root, addk(c, 4), 4)
                    if bd is None or not t.facts.prove(eq(bd, add(addk(ac, 8), ln))): why.append("a record's boundary is not the offset just after it: %s" % (fmt(bd) if bd is not None else "?"))
                    if not same(ip, t, mem_at(ip, t, root, addk(c, 8), ln), init_at(ip, acts, addk(ac, 8), ln)) and not t.facts.prove(eq(ln, K(0))): why.append("a record's bytes are not copied to its place")
                    for e in stores(t, root, len(lr.head.events)):
                        if not (t.facts.prove(le(c, e[2])) and t.facts.prove(le(add(e[2], e[3]), add(addk(c, 8), ln)))): why.append("a write at %s falls outside the record being copied" % fmt(e[2]))
                return why
    return why

def copied(ip, t, root, o, src, so, n):
    x = mem_at(ip, t, root, o, K(n))
    return x == init_at(ip, src, so, K(n)) or same(ip, t, u_at(ip, t, root, o, n), V(ldv(src, so, n)), n)

def alias(lr, t):
    """a loop variable that always equals t, if there is one"""
    for lf, (val, i0, ty) in lr.leaves.items():
        if isinstance(val, Lin) and single(val) is not None and lr.head.facts.prove(eq(val, t)): return val
    return t

def found_role(ip, b, s):
    """(position, recorded end) of the stored role whose id is the argument"""
    root = b.root; a1 = V(atom("sym", "a1")); out = []
    for lr in ip.looprecs:
        for lf, (val, i0, ty) in lr.leaves.items():
            if not isinstance(val, Lin) or single(val) is None: continue
            if not (isinstance(i0, Lin) and i0.const == 0): continue
            if not all(t.facts.prove(eq(ip.get_leaf(t, lf), V(ldv(root, addk(val, 12), 4)))) for t in lr.latches if not contradictory(t)): continue
            if s.facts.prove(eq(V(ldv(root, addk(val, 8), 4)), a1)): out.append((val, V(ldv(root, addk(val, 12), 4))))
            for lf2, (v2, i2, ty2) in lr.leaves.items():
                if lf2 == lf or isinstance(v2, Lin): continue
                base = ip.canon(lr.head, v2)
                good = True
                for t in lr.latches:
                    if contradictory(t): continue
                    now = ip.get_leaf(t, lf2)
                    if ip.canon(t, now) == base: continue
                    f = flat_ints(now)
                    if not (len(f) == 2 and t.facts.prove(eq(f[0], val)) and t.facts.prove(eq(f[1], V(ldv(root, addk(val, 12), 4)))) and t.facts.prove(eq(V(ldv(root, addk(val, 8), 4)), a1))): good = False
                if not good or not isinstance(base, Atom): continue
                p = atom("vf", base, 1, 0)
                o, e = atom("fld", p, 0, 0), atom("fld", p, 0, 1)
                if s.facts.prove(eq(V(atom("discr", base)), K(1))): out.append((V(o), V(e)))
    return out

def flat_ints(v):
    if isinstance(v, Lin): return [v]
    if isinstance(v, Agg): return [x for f in v.f for x in flat_ints(f)]
    return []

def removal(R, P):
    ip, b, paths = run_remove(R, P); root = b.root; key = "remove_role"; nok = 0
    for s in paths:
        s.assume(le(b.len, K(MAXACC)))
        if contradictory(s): continue
        got = outcome(ip, s)
        if got == "Err":
            R.ob(not stores(s, root), key + " refusal", describe(s, ip, key + ": bytes are changed on a refused removal"))
        if got != "Ok": continue
        fr = found_role(ip, b, s)
        if not R.ob(bool(fr), key + " target", describe(s, ip, key + ": succeeds although no stored role is known to carry the requested id")): continue
        O, B = fr[0]
        s.assume(le(addk(O, 16), B), le(B, b.len), le(K(1), b.roles))
        if contradictory(s): continue
        rec = adjust(ip, b, s)
        sz = sub(B, O); end = sub(b.len, sz); why = []
        if rec is not None:
            lr, lf, c = rec
            if not s.facts.prove(le(end, c)):
                # a role starts at c: it ends at least 16 bytes further on
                s.assume(le(addk(c, 16), end))
                old = u_at(ip, s, root, addk(c, 12), 4)
                if old is not None: s.assume(le(add(addk(c, 16), sz), old), le(old, b.len))
                if contradictory(s): continue
                why.append("later roles may keep their old recorded end")
            why += adjusting(ip, b, lr, lf, c, O, B)
        elif not s.facts.prove(le(b.len, B)): why.append("later roles keep their old recorded end")
        nok += 1
        tup = s.ret.f[0].f
        if not (s.facts.prove(eq(tup[0], end)) and s.facts.prove(eq(tup[1], sz))): why.append("the returned extent is not (new length, removed size)")
        if mem_at(ip, s, root, end, sz) != ("fill", 0) and not zeros(s, mem_at(ip, s, root, end, sz)): why.append("the freed bytes are not zeroed: %s" % fmt(mem_at(ip, s, root, end, sz)))
        if not s.facts.prove(le(b.len, B)):
            sh = [e for e in stores(s, root) if s.facts.prove(eq(e[2], O)) and s.facts.prove(eq(e[3], sub(b.len, B))) and same(ip, s, e[4], init_at(ip, root, B, sub(b.len, B)))]
            if not sh: why.append("the bytes after the role are not moved to its place")
            elif not before(s, sh[0], rec): why.append("recorded ends are adjusted before the bytes are moved")
        for e in stores(s, root):
            if not s.facts.prove(le(O, e[2])): why.append("a write at %s may fall before the removed role" % fmt(e[2]))
        R.ob(not why, key + ": " + ", ".join(sorted(set(w.split(" at ")[0].split(":")[0] for w in why))), describe(s, ip, "%s: %s" % (key, "; ".join(why))),
             sample={"function": key, "size": fmt(sz), "new length": fmt(end)})
    R.floor("successful paths of remove_role", nok, 2)

def zeros(s, x): return isinstance(x, bytes) and not any(x) or isinstance(x, tuple) and x[0] == "fill" and x[1] == 0 or isinstance(x, Atom) and x.op == "fill" and x.args[0] == 0

def adjust(ip, b, s):
    """the loop on this path that writes to the role area"""
    for lr in ip.looprecs:
        if not any(stores(t, b.root, len(lr.head.events)) for t in lr.latches): continue
        for lf, (val, i0, ty) in lr.leaves.items():
            if lf[0] == "S" and isinstance(val, Lin) and single(val) is not None and in_state(s, val): return lr, lf, val
    return None

def before(s, e, rec):
    return rec is None or any(x is e or x == e for x in rec[0].head.events)

def adjusting(ip, b, lr, lf, c, O, B):
    why = []; root = b.root; sz = sub(B, O)
    i0 = lr.leaves[lf][1]
    h = lr.head.copy(); h.assume(le(addk(O, 16), B), le(B, b.len))
    if not (isinstance(i0, Lin) and h.facts.prove(eq(i0, O))): why.append("the walk over later roles does not start at the gap")
    for t in lr.latches:
        t = t.copy(); t.assume(le(addk(O, 16), B), le(B, b.len), le(b.len, K(MAXACC)))
        if contradictory(t): continue
        old = u_at(ip, lr.head, root, addk(c, 12), 4)
        t.assume(le(add(addk(c, 16), sz), old), le(old, b.len))
        if contradictory(t): continue
        new = u_at(ip, t, root, addk(c, 12), 4)
        if not (new is not None and t.facts.prove(eq(new, sub(old, sz)))): why.append("a later role's recorded end is not lowered by the removed size")
        if not t.facts.prove(eq(ip.get_leaf(t, lf), sub(old, sz))): why.append("the walk does not step to the lowered end")
        for e in stores(t, root, len(lr.head.events)):
            if not (t.facts.prove(le(addk(c, 12), e[2])) and t.facts.prove(le(add(e[2], e[3]), addk(c, 16)))): why.append("a write at %s is not a recorded end" % fmt(e[2]))
    return why
