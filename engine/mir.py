"""Loads the extractor's JSON and answers questions about types and functions."""
import functools
import json, os, pickle, re
from . import extract

def clean(n):
    n = n.replace("probe::swig", "swig")
    return n

class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.files = d["files"]; self.types = d["types"]; self.fns = d["fns"]; self.impls = d["impls"]
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.roots = d["roots"]; self.adts = d["adts"]; self.poly = [clean(x) for x in d["poly"]]
        for t in self.types:
            t["s"] = clean(t["s"])
            if "def" in t: t["def"] = clean(t["def"])
            if "iname" in t: t["iname"] = clean(t["iname"])
        for a in self.adts: a["adt"] = clean(a["adt"])
        for im in self.impls: im["trait"] = clean(im["trait"])
        self.byname = {}
        for k, f in self.fns.items():
            f["key"] = k
            f["name"] = clean(f["name"])
            f["cname"] = strip_generics(f["name"])
            self.byname.setdefault(f["name"], []).append(k)
        self.bystr = {}
        for i, t in enumerate(self.types):
            self.bystr.setdefault(t["s"], i)
        self._loops = {}
        # dyn dispatch: (trait method name, concrete type string) -> fn key
        self.methods = {}
        for im in self.impls:
            for n, k in im["fns"].items():
                self.methods[(im["trait"], n, self.types[im["self"]]["s"])] = k

    def find(self, pat, crate=None):
        r = re.compile(pat)
        return [f for f in self.fns.values() if r.search(f["name"]) and (crate is None or f.get("krate") == crate)]

    def one(self, pat, crate=None):
        c = self.find(pat, crate)
        if len(c) != 1:
            raise Missing("expected exactly one function matching %r, found %d: %s" % (pat, len(c), [f["name"] for f in c][:6]))
        return c[0]

    def impl(self, trait, ty):
        """impl record of trait (by last path segment) for a type (by last path segment)"""
        c = [im for im in self.impls if im["trait"].split("::")[-1] == trait and strip_generics(self.types[im["self"]]["s"]).split("::")[-1] == ty]
        if len(c) != 1:
            raise Missing("expected one impl of %s for %s, found %d" % (trait, ty, len(c)))
        return c[0]

    def ty_named(self, last, kind=None):
        c = [i for i, t in enumerate(self.types) if strip_generics(t["s"]).split("::")[-1] == last and t["k"] in ("struct", "enum") and (kind is None or t["k"] == kind)]
        return c

    def adt(self, last):
        c = [a for a in self.adts if a["adt"].split("::")[-1] == last]
        if len(c) != 1:
            raise Missing("expected one type named %s, found %d" % (last, len(c)))
        return c[0]["ty"]

    def span(self, sp):
        f = self.files[sp[0]]
        i = f.find("/ws/")
        if i >= 0: f = f[i + 4:]
        f = re.sub(r"^.*/repo/", "", f)
        f = re.sub(r"^.*/rustlib/src/rust/library/", "std:", f)
        f = re.sub(r"^.*/registry/src/[^/]*/", "", f)
        return "%s:%d" % (f, sp[1])

    # loops
    def loops(self, key):
        r = self._loops.get(key)
        if r is None:
            r = self._loops[key] = find_loops(self.fns[key])
        return r

class Missing(Exception):
    pass

@functools.lru_cache(maxsize=None)
def strip_generics(n):
    out = []; d = 0; i = 0
    while i < len(n):
        c = n[i]
        if c == "<":
            # keep leading qualified-self paths "<T as Trait>::"
            d += 1
        elif c == ">" and i and n[i - 1] != "-":
            d -= 1
            i += 1
            continue
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s: s = s.replace("::::", "::")
    return s.strip(":")

def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [b for _, b in t[2]] + [t[3]]
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[4]]
    return []

def find_loops(f):
    bl = f["blocks"]; n = len(bl)
    S = [succs(b["t"]) for b in bl]
    order = []; seen = set()
    st = [(0, iter(S[0]))]; seen.add(0)
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v); st.append((v, iter(S[v]))); break
        else:
            order.append(u); st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in S[b]: preds[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    loops = {}
    for u in rpo:
        for h in S[u]:
            if num[h] <= num[u]:
                if not dom(h, u):
                    loops.setdefault("irreducible", set()).add(h)
                    continue
                body = loops.setdefault(h, {h})
                wl = [u]
                while wl:
                    x = wl.pop()
                    if x in body: continue
                    body.add(x); wl.extend(preds[x])
    return loops

def load(cfg="host"):
    return Program(extract.extract(cfg))
