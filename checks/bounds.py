"""P17: accesses to untrusted bytes stay in bounds."""
import signal
import re
from engine.spec import *
from .lookup import ldv
from . import handlers as H
from . import create as C
from .handlers import AI_DATA, AI_LEN, TABLE

LIBS = ("swig_state", "swig_compact_instructions", "swig_assertions", "no_padding")
# analysed with their own reference by the property named
ELSEWHERE = [(r"^swig_state::role::Role(Mut)?::get_(action|action_mut|all_actions|all_actions_of_type)$", "P05"),
             (r"secp256r1::.*client_data|secp256r1::(webauthn|base64url)", "P13"), (r"secp256r1_.*authenticate$|Secp256r1\w*Authority as .*::authenticate$", "P12"),
             (r"SwigBuilder::add_role$", "P16"), (r"ActionLoader::find_action$", "P05")]
SYSVAR_IX = H.b58("Sysvar1nstructions1111111111111111111111111")
MAXLEN = 10 << 20

def recheck(ip, s, e, wf):
    """is the access in bounds under the well-formedness assumptions"""
    root, off, n = e[7], e[2], e[3]
    ext = ip.ext.get(root)
    if ext is None: ext = ((s.env or {}).get("extent") or {}).get(root)
    c = s.copy(); c.facts = Facts().copy_add(*s.facts.lst[:e[6]])
    return wf(c, root, off, n, ext)

def bad_accesses(ip, s):
    seen = set()
    for e in s.events:
        if e[0] == "dangling": yield e
        if e[0] != "oob": continue
        k = (e[7], e[2], e[3], e[6])
        if k in seen: continue
        seen.add(k); yield e

def states(ip, paths):
    for s in paths: yield s
    for lr in ip.looprecs:
        for x in lr.latches:
            if not contradictory(x): yield x

def site(ip, e): return ip.site_str(e[4]) if len(e) > 5 else ""

def strided(ip, c, off, n, ext):
    """a position that starts at or below the end and moves by a fixed stride dividing the distance, short of the end: one whole stride is left"""
    for lr in ip.looprecs:
        for lf, (val, init, ty) in lr.leaves.items():
            v = single(val) if isinstance(val, Lin) else None
            if v is None or not isinstance(init, Lin) or val != off or not lr.latches: continue
            ds = {sub(ip.get_leaf(x, lf), val) for x in lr.latches}
            d = ds.pop() if len(ds) == 1 else None
            if d is None or d.const is None or d.c < 1 or n.const is None or n.c > d.c: continue
            gap = sub(init, ext)
            if any(k % d.c for _, k in gap.t) or gap.c % d.c: continue
            k = atom("iteration", v, lo=0, hi=U63); q = add(divide(gap, d.c), V(k))
            def one(st):      # facts restated over the iteration number
                st.assume(le(q))
                for f in list(st.facts.lst):
                    if f[0] != "ne" or not any(a is v for a, _ in f[1].t): continue
                    x = K(f[1].c)
                    for a, m in f[1].t: x = add(x, scale(add(init, scale(V(k), d.c)) if a is v else V(a), m))
                    if all(m % d.c == 0 for _, m in x.t) and x.c % d.c == 0: st.assume(ne(divide(x, d.c)))
                return st.facts.prove(le(addk(q, 1)))
            if lr.entry.facts.prove(le(init, ext)) and all(one(x.copy()) for x in lr.latches) and one(c.copy()): return True
    return False
def divide(x, d):
    r = K(x.c // d)
    for a, k in x.t: r = add(r, scale(V(a), k // d))
    return r

# ---------------------------------------------------------------- library routines
def role_wf(c, root, off, n, ext):
    """stored roles are sound: a role starting inside the list has its position, its authority and its recorded end inside it (P16)"""
    if ext is None: return False
    starts = {}
    for x in (off, n): 
        for a in dom.deep_atoms(x):
            if a.op == "lv": starts[id(a)] = V(a)
    for X in starts.values():
        if not c.facts.prove(le(addk(X, 1), ext)) and not counted(c): continue
        al, bd = V(ldv(root, addk(X, 2), 2)), V(ldv(root, addk(X, 12), 4))
        c.assume(le(addk(X, 16), ext), le(K(0), X), le(add(addk(X, 16), al), bd), le(bd, ext))
        for kd, z in SIZES.items(): c.assume(f_or(ne(V(ldv(root, X, 2)), K(kd)), le(K(z), al)))
    return contradictory(c) or c.facts.prove(le(add(off, n), ext)) and c.facts.prove(le(K(0), off)) and c.facts.prove(le(K(0), n))
def counted(c):
    """the walk is over the recorded number of roles"""
    for f in c.facts.lst:
        at = dom.deep_atoms(f)
        if f[0] in ("le", "ne") and any(a.op == "lv" for a in at) and any(a.op == "ld" and a.args[2] == K(ROLES[0]) and a.args[3] == K(2) for a in at): return True
    return False
ROLES = [0]
SIZES = {}

class Slow(Exception): pass
def alarm(*a): raise Slow()

def library(R, fn):
    name = fn["name"]
    signal.signal(signal.SIGALRM, alarm); signal.alarm(40)
    try:
        ip = R.interp("solana")
        paths = [s for s in ip.run(fn) if not contradictory(s)]
    except (Unsupported, Slow, KeyError, AttributeError, TypeError): return False
    finally: signal.alarm(0)
    bad = {}
    for s in states(ip, paths):
        for e in bad_accesses(ip, s):
            if e[0] == "oob" and recheck(ip, s, e, role_wf): continue
            bad.setdefault(e[1] if e[0] == "oob" else "dangling", (s, e))
    R.count("byte accesses examined", sum(s.env["accesses"][0] for s in paths[:1] if s.env))
    for w, (s, e) in bad.items():
        R.ob(False, "%s reads %s" % (strip_generics(name), w), describe(s, ip, "%s: %s bytes at %s of %s may lie outside it, at %s" % (name, fmt(e[3]), fmt(e[2]), w, site(ip, e)) if e[0] == "oob" else "%s: access through a dead pointer" % name))
    if not bad: R.ob(True, name, "", sample={"routine": name, "paths": len(paths)})
    R.done(ip)
    return True

# ---------------------------------------------------------------- handlers
def handler(R, k):
    if k == "short": h = H.Run(R, None, pre=lambda r: [le(r.ndata, K(1))], bounds=True)
    elif k == "other": h = H.Run(R, None, models=C.FIND, pre=lambda r: [le(K(22), V(ldv(r.data, K(0), 2))), le(K(2), r.ndata)], bounds=True)
    elif k == 0: h = H.Run(R, 0, models=C.FIND, bounds=True)
    else: h = H.Run(R, k, bounds=True)
    name = TABLE[k][0] if k in TABLE else {0: "CreateV1", 4: "retired number 4"}.get(k, "%s data" % k)
    ip = h.ip
    def wf(c, root, off, n, ext):
        a = root[1] if len(root) > 1 else None
        ac = isinstance(a, Atom) and a.op == "ld" and a.args[0] == h.accounts
        if ac:
            key = h.ip.canon(c, h.ip.slice_bytes_nochk(c, Ptr(root, (), K(H.AI_KEY)), K(32)))
            if c.facts.prove(H.beq(key, SYSVAR_IX)): return True          # the runtime's own list of instructions is well formed
            cur = ip.tload(c, ip.region_mem(c, root), K(AI_LEN), H.u64ty(ip)); ext = addk(cur, AI_DATA)
            c.assume(le(V(ldv(root, K(AI_LEN), 8)), K(MAXLEN)))
        if ext is None: return False
        return c.facts.prove(le(add(off, n), ext)) and c.facts.prove(le(K(0), off)) or strided(ip, c, off, n, ext)
    R.floor("paths of " + name, len(h.paths), 1)
    bad = {}; nacc = 0
    for s in states(ip, h.paths):
        for e in bad_accesses(ip, s):
            if e[0] == "dangling": bad.setdefault("dangling", (s, e)); continue
            w = (e[1], site(ip, e).split(" (")[0])
            if w in bad: continue
            if recheck(ip, s, e, wf): continue
            bad[w] = (s, e)
    R.count("byte accesses examined", max([s.env["accesses"][0] for s in h.paths if s.env] or [0]))
    for w, (s, e) in bad.items():
        R.ob(False, "%s reads %s in %s" % ((name,) + (w if isinstance(w, tuple) else (w, ""))), describe(s, ip, "%s: %s bytes at %s of %s may lie outside it, at %s" % (name, fmt(e[3]), fmt(e[2]), e[1], site(ip, e))) if e[0] == "oob" else "dead pointer")
    if not bad: R.ob(True, name, "", sample={"instruction": name, "paths": len(h.paths)})

def field_off(P, adt, name):
    v = P.types[P.adt(adt)]["variants"][0]
    return v["offs"][v["names"].index(name)]

def p17(R):
    R.rule("On every path, failing ones included, of every instruction handler (general signing excepted) and of every public safe routine of the shared state, assertion and instruction-parsing libraries run on its own with arbitrary arguments, each access to a byte string of known extent - instruction data, the account list, an account's header and data up to its recorded length, a role's stored bytes, any slice argument - lies inside it; unsafe accesses included.")
    H.base_assumptions(R); R.assume("stored roles are structurally sound (P16); account data is at most 10 MiB; the instructions sysvar, recognised by its address, is well formed; unsafe and private routines are examined where public ones and handlers call them")
    P = R.prog("solana")
    ROLES[0] = field_off(P, "Swig", "roles")
    for k, t in C.KINDS.items(): SIZES[k] = P.types[P.adt(t)]["size"]
    fns = {}
    for f in P.fns.values():
        if f.get("krate") in LIBS and f.get("open") and "argc" in f and not any(re.search(p, strip_generics(f["name"])) for p, _ in ELSEWHERE): fns.setdefault(f["name"], f)
    items = [("h", k) for k in H.ORDER + [0, 4, "short", "other"]]
    names = sorted(fns); step = 12
    items += [("l", names[i::len(names) // step + 1]) for i in range(len(names) // step + 1)]
    def g(R, it):
        if it[0] == "h": handler(R, it[1]); return 0
        return sum(1 for n in it[1] if library(R, fns[n]))
    done = sum(R.par(items, g))
    R.count("library routines analysed", done); R.count("library routines not analysed", len(names) - done)
    R.floor("library routines analysed", done, len(names) * 9 // 10)
    return R.finish("other", "As P25 for %d instruction numbers, unknown numbers and short data; %d of %d public library routines, each from an arbitrary state." % (len(H.ORDER) + 2, done, len(names)))
