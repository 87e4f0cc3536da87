"""P20: records that are reinterpreted directly from bytes."""
import re
from engine.spec import *
from .lookup import ldv
from .roles import init_at

def leaves(P, i, off=0, path=""):
    """(path, offset, type) of the scalar leaves of a type"""
    t = P.types[i]
    if t["k"] == "array":
        e = P.types[t["elem"]]
        if e["k"] in ("uint", "int"): yield path, off, i
        else:
            for j in range(t["n"]): yield from leaves(P, t["elem"], off + j * e["size"], "%s[%d]" % (path, j))
    elif t["k"] == "struct":
        v = t["variants"][0]
        for n, f, o in zip(v["names"], v["fields"], v["offs"]): yield from leaves(P, f, off + o, path + "." + n)
    elif t["k"] == "tuple":
        for j, f in enumerate(t["fields"]): yield from leaves(P, f, None, "%s.%d" % (path, j))
    else: yield path, off, i

def short(P, i): return strip_generics(P.types[i]["s"]).split("::")[-1]

def targets(P):
    """record types some function makes out of raw bytes: {type: [function]}"""
    out = {}
    raw = lambda i: P.types[i]["k"] in ("ptr", "ref") and P.types[P.types[i]["to"]]["s"] in ("u8", "()") or P.types[i]["k"] in ("uint",) or (P.types[i]["k"] == "array" and P.types[P.types[i]["elem"]]["s"] == "u8")
    for f in P.fns.values():
        if not f.get("krate", "").startswith("swig"): continue
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "=" or s[2][0] != "cast" or s[2][1] not in ("PtrToPtr", "Transmute"): continue
                to = P.types[s[2][3]]
                if s[2][1] == "PtrToPtr":
                    if to["k"] not in ("ptr", "ref"): continue
                    ty = to["to"]
                else: ty = s[2][3]
                if P.types[ty]["k"] not in ("struct", "enum", "union"): continue
                op = s[2][2]; loc = op.get("m") or op.get("c")
                if loc is None or len(loc) != 1 or not raw(f["locals"][loc[0]]): continue
                if not P.types[ty].get("def", "").startswith("swig"): continue
                out.setdefault(ty, []).append(f["name"])
            k = b["t"]
            if k[0] != "call" or "k" not in k[1]: continue
            c = P.types[k[1]["k"]["ty"]]        # <*const u8>::cast::<Record>()
            if c["k"] == "fndef" and re.search(r"::(const|mut)_ptr::<impl .*>::cast(_mut|_const)?$|NonNull::<.*>::cast$", c["def"].split("::cast")[0] + "::cast") and len(k[3]) == 1:
                to = P.types[f["locals"][k[3][0]]]
                if to["k"] == "ptr" and P.types[to["to"]]["k"] in ("struct", "enum", "union") and P.types[to["to"]].get("def", "").startswith("swig"): out.setdefault(to["to"], []).append(f["name"])
    return out

def p20(R):
    P = R.prog("solana")
    R.rule("every type of this code base that some function reinterprets from raw bytes (pointer cast or transmute in the compiled program) or that declares itself transmutable: C representation (or no bytes at all), the sizes of its scalar leaves add up to its size (no padding, at any depth), its declared LEN is its size, and each scalar leaf accepts every bit pattern, except a bool or fieldless enum whose invalid patterns are shown to be refused before the view is returned")
    R.rule("load_unchecked / load_mut_unchecked: Ok exactly when the byte string is LEN long, giving a reference to its first byte; into_bytes: Ok with exactly the value's own bytes, first to last")
    R.assume("the first two bytes of instruction arguments were decoded by the dispatcher to that very instruction (P24), so the leading instruction number is one of its declared values; alignment is not required by the target machine")
    lens = {}; tr = {}
    for im in P.impls:
        if im["trait"].split("::")[-1] == "Transmutable":
            c = im["consts"].get("LEN")
            lens[im["self"]] = int.from_bytes(bytes(c["a"]["b"]), "little") if c and "a" in c else None
    tg = targets(P)
    R.floor("records made from raw bytes", len(set(tg) | set(lens)), 60); R.floor("declared transmutable records", len(lens), 60)
    enums = 0
    for ty in sorted(set(tg) | set(lens), key=lambda i: P.types[i]["s"]):
        t = P.types[ty]; nm = short(P, ty)
        R.count("records")
        if t["k"] == "enum": enums += 1; continue        # integer to enum: judged below
        if not R.ob(t["k"] == "struct", nm + " kind", "%s is made from raw bytes but is not a struct" % nm): continue
        ls = list(leaves(P, ty))
        R.ob(t["size"] == 0 or "is_c: true" in t.get("repr", "") or "is_transparent: true" in t.get("repr", ""), nm + " representation", "%s: the field order of a record read from raw bytes is left to the compiler" % nm)
        tot = sum(P.types[x]["size"] for _, _, x in ls)
        R.ob(tot == t["size"], nm + " padding", "%s: %d bytes of fields in %d bytes of record" % (nm, tot, t["size"]), sample={"record": nm, "size": t["size"], "fields": len(ls)})
        if ty in lens: R.ob(lens[ty] == t["size"], nm + " length", "%s: declared length %s, size in memory %d" % (nm, lens[ty], t["size"]))
        else: R.ob(len(tg[ty]) > 0, nm + " undeclared", "")
        for path, off, x in ls:
            lt = P.types[x]
            if lt["k"] in ("uint", "int", "array"): continue
            ok, why = refused(R, P, ty, nm, path, off, x)
            R.ob(ok, nm + path, "%s%s (%s): some byte patterns are invalid and %s" % (nm, path, lt["s"], why))
    # loads and serialised forms
    nl = nb = 0
    for im in P.impls:
        nmt = im["trait"].split("::")[-1]; ty = im["self"]
        if nmt != "IntoBytes": continue
        t = P.types[ty]
        for n, k in im["fns"].items():
            f = P.fns.get(k)
            if f is None or t["size"] is None: continue
            ip = R.interp("solana")
            for s in ip.run(f):
                if contradictory(s): continue
                nb += 1
                p = s.ret.f[0] if s.out == "ret" and vname(ip, s.ret) == "Ok" else None
                R.ob(isinstance(p, Ptr) and p.root == ("R", atom("sym", "a0")) and s.facts.prove(eq(p.off, K(0))) and s.facts.prove(eq(p.meta, K(t["size"]))) or (t["size"] == 0 and isinstance(p, Ptr) and s.facts.prove(eq(p.meta, K(0)))),
                     short(P, ty) + " serialised", describe(s, ip, "%s::into_bytes is not exactly the record's %s bytes" % (short(P, ty), t["size"])))
            R.done(ip)
    for f in P.fns.values():
        m = re.search(r" as swig_state::(Transmutable|TransmutableMut)>::(load_unchecked|load_mut_unchecked)$", f["name"])
        if not m: continue
        n = V(atom("len", atom("sym", "a0"), lo=0, hi=U63))
        ty = P.types[P.types[f["locals"][0]]["variants"][0]["fields"][0]]["to"]; size = P.types[ty]["size"]
        ip = R.interp("solana")
        for s in ip.run(f):
            if contradictory(s): continue
            for c, good in cases(s, lambda d, st: d(eq(n, K(size)))):
                nl += 1
                v = vname(ip, c.ret) if c.out == "ret" else c.out
                if not good: R.ob(v == "Err", short(P, ty) + " load refuses", describe(c, ip, "%s: a view of %s is returned for a byte string that is not %d long" % (f["name"], short(P, ty), size))); continue
                p = c.ret.f[0] if v == "Ok" else None
                R.ob(isinstance(p, Ptr) and (size == 0 or p.root == ("R", atom("sym", "a0")) and c.facts.prove(eq(p.off, K(0)))), short(P, ty) + " load", describe(c, ip, "%s: a byte string of the right length is not viewed from its first byte" % f["name"]))
        R.done(ip)
    R.floor("serialisers analysed", nb, 60); R.floor("load cases", nl, 120)
    # integers turned into enums
    f = P.one(r"<swig_state::action::Permission as std::convert::TryFrom<u16>>::try_from$")
    ty = P.types[P.types[f["locals"][0]]["variants"][0]["fields"][0]]
    ds = sorted(v["discr"] for v in ty["variants"])
    x = V(atom("sym", "a0", lo=0, hi=65535)); ip = R.interp("solana"); n = 0
    for s in ip.run(f):
        if contradictory(s): continue
        n += 1
        v = vname(ip, s.ret) if s.out == "ret" else s.out
        if v == "Ok": R.ob(s.facts.prove(f_or(*[eq(x, K(k)) for k in ds])) or inside(s, x, ds), "Permission number", describe(s, ip, "a number that is no permission kind becomes one"))
        else: R.ob(v == "Err", "Permission abort", describe(s, ip, "Permission::try_from aborts"))
    R.done(ip); R.floor("paths of Permission::try_from", n, 2)
    return R.finish("other", "Query over the compiled program for every reinterpretation of raw bytes, structural check of the layout of each record type as computed by the compiler, and path-partitioned abstract interpretation of the load, serialise and validity routines.")

def inside(s, x, ds):
    return ds == list(range(ds[0], ds[-1] + 1)) and s.facts.prove(le(K(ds[0]), x)) and s.facts.prove(le(x, K(ds[-1])))

def refused(R, P, ty, nm, path, off, leaf):
    """is a leaf with invalid patterns validated before the record is viewed?"""
    lt = P.types[leaf]
    if lt["k"] == "enum" and off == 0 and short(P, leaf) == "SwigInstruction": return True, ""      # the dispatcher's number
    if lt["s"] != "bool": return False, "nothing shows they are refused"
    byte = lambda root, o: V(ldv(root, o, 1))
    loads = [f for f in P.fns.values() if re.search(r" as swig_state::(Transmutable|TransmutableMut)>::load(_mut)?_unchecked$", f["name"]) and P.types[P.types[P.types[f["locals"][0]]["variants"][0]["fields"][0]]["to"]]["s"] == P.types[ty]["s"]]
    if nm == "AccountsPayload":      # only ever built, never read
        return not loads, "it is viewed from raw bytes"
    if nm == "SubAccount":           # stored permission: admitted by its layout check only
        f = [g for g in P.fns.values() if re.search(r"SubAccount as swig_state::action::Actionable<.*>>::valid_layout$", g["name"])]
        if len(f) != 1: raise Missing("valid_layout of SubAccount")
        ip = R.interp("solana"); good = True
        for s in ip.run(f[0]):
            if contradictory(s) or s.out != "ret" or vname(ip, s.ret) != "Ok": continue
            v = s.ret.f[0]
            s = s.copy(); s.assume(v)
            if contradictory(s): continue
            if not s.facts.prove(le(byte(("R", atom("sym", "a0")), K(off)), K(1))): good = False
        R.done(ip)
        return good, "the layout check of sub-account permissions lets them in"
    f = [g for g in P.fns.values() if g.get("krate") == "swig" and g["name"].endswith("::from_instruction_bytes") and any(c for c in callees(P, g) if P.types[ty]["s"] in c and "load_unchecked" in c)]
    if len(f) != 1: return False, "there is no single parser that refuses them (%d found)" % len(f)
    ip = R.interp("solana"); good = True; n = 0
    for s in ip.run(f[0]):
        if contradictory(s) or s.out != "ret" or vname(ip, s.ret) != "Ok": continue
        n += 1
        if not s.facts.prove(le(byte(("R", atom("sym", "a0")), K(off)), K(1))): good = False
    R.done(ip)
    return good and n > 0, "%s does not refuse them" % strip_generics(f[0]["name"])

def callees(P, f):
    for b in f["blocks"]:
        t = b["t"]
        if t[0] == "call" and "k" in t[1]: yield P.types[t[1]["k"]["ty"]]["s"]
