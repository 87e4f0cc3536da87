"""Whole-program queries over the extracted MIR: place types, field writes, call graph."""
from .mir import Program

def place_types(P, f, pl):
    """type before each projection element, and the final type"""
    T = P.types; ty = f["locals"][pl[0]]; out = []
    for e in pl[1:]:
        out.append(ty)
        t = T[ty] if ty is not None else None
        k = e if isinstance(e, str) else e[0]
        if k == "*": ty = t.get("to") if t else None
        elif k == "f": ty = e[2]
        elif k in ("d", "down"): pass
        elif k in ("i", "ci", "index", "cidx"): ty = t.get("elem", t.get("to")) if t else None
        else: pass
    return out, ty

def is_adt(P, ty, name):
    if ty is None: return False
    t = P.types[ty]
    return t["k"] in ("struct", "enum", "union") and t["s"].split("<")[0].split("::")[-1] == name

def field_writes(P, f, adt, fields):
    """assignments to adt.field, and mutable borrows of it: (field, how)"""
    out = []
    for b in f.get("blocks", []):
        dests = [(s[1], "assigned") for s in b["s"] if s[0] == "="]
        dests += [(s[2][1], "borrowed mutably") for s in b["s"] if s[0] == "=" and s[2][0] in ("ref", "addr") and (s[2][2] is True if s[2][0] == "ref" else P.types[f["locals"][s[1][0]]].get("mut") is not False)]
        if b["t"][0] == "call": dests.append((b["t"][3], "assigned"))
        for pl, how in dests:
            if not isinstance(pl, list) or len(pl) < 2: continue
            tys, _ = place_types(P, f, pl)
            for e, ty in zip(pl[1:], tys):
                if isinstance(e, list) and e[0] == "f" and is_adt(P, ty, adt):
                    names = P.types[ty]["variants"][0]["names"]
                    if names[e[1]] in fields: out.append((names[e[1]], how))
    return out

def edges(P):
    """function key -> set of keys it may call or take as a function value (drops and vtables excluded)"""
    g = {}
    for k, f in P.fns.items():
        s = set()
        for b in f.get("blocks", []):
            walk(P, b["s"], s); walk(P, b["t"], s)
        g[k] = s
    return g

def walk(P, x, acc):
    if isinstance(x, dict):
        k = x.get("k")
        if isinstance(k, dict) and "ty" in k:
            t = P.types[k["ty"]]
            if t["k"] in ("fndef", "closure") and t.get("fn") in P.fns: acc.add(t["fn"])
        for v in x.values(): walk(P, v, acc)
    elif isinstance(x, list):
        for v in x: walk(P, v, acc)

def callers(P):
    up = {}
    for k, s in edges(P).items():
        for c in s: up.setdefault(c, set()).add(k)
    return up
