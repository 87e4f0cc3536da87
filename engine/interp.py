"""Path-sensitive abstract interpreter over the extracted MIR (no execution, no solver)."""
import re, sys
from .dom import *
from .mir import succs, strip_generics, Missing
sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- values
class Agg:
    __slots__ = ("ty", "var", "f")
    def __init__(s, ty, var, f): s.ty, s.var, s.f = ty, var, tuple(f)
    def __repr__(s): return "{%s%s}" % ("" if s.var in (0, None) else "v%s " % s.var, ", ".join(map(repr, s.f)))
class Ptr:
    __slots__ = ("root", "path", "off", "meta")
    def __init__(s, root, path=(), off=None, meta=None):
        s.root, s.path, s.off, s.meta = root, path, off if off is not None else K(0), meta
    def __repr__(s): return "&%s%s+%s%s" % (rname(s.root), "".join(".%s" % (p,) for p in s.path), s.off, "" if s.meta is None else "#%s" % (s.meta,))
class Sym:
    """opaque enum (or unknown-typed) value"""
    __slots__ = ("a", "ty")
    def __init__(s, a, ty): s.a, s.ty = a, ty
    def __repr__(s): return "?%r" % s.a
class Uninit:
    def __repr__(s): return "uninit"
UN = Uninit()
class Mem:
    """byte-addressed object: a base description and a log of stores (oldest first)"""
    __slots__ = ("base", "log")
    def __init__(s, base, log=()): s.base, s.log = base, log
    def __repr__(s): return "Mem(%s,%s)" % (s.base, s.log)
class Arr:
    __slots__ = ("ty", "mem", "n")
    def __init__(s, ty, mem, n): s.ty, s.mem, s.n = ty, mem, n
    def __repr__(s): return "Arr%d%r" % (s.n, s.mem)
class Snap:
    """bytes copied from another object: value of a 'copy' log entry"""
    __slots__ = ("mem", "off")
    def __init__(s, mem, off): s.mem, s.off = mem, off
    def __repr__(s): return "Snap(%r@%s)" % (s.mem, s.off)
class Vecv:
    __slots__ = ("rid", "ty")
    def __init__(s, rid, ty): s.rid, s.ty = rid, ty
    def __repr__(s): return "Vec<%s>" % (s.rid,)

def rname(r):
    if isinstance(r, tuple) and r and r[0] == "L": return "L%s_%s" % (r[1], r[2])
    if isinstance(r, tuple) and r and r[0] == "R": return "*%s" % (fmt(r[1]) if isinstance(r[1], Atom) else r[1])
    return str(r)

class Frame:
    __slots__ = ("fn", "bb", "si", "fid", "dest", "retbb", "site", "wrap")
    def __init__(s, fn, fid, dest, retbb, site, wrap=None):
        s.fn, s.bb, s.si, s.fid, s.dest, s.retbb, s.site, s.wrap = fn, 0, 0, fid, dest, retbb, site, wrap
    def copy(s):
        r = Frame(s.fn, s.fid, s.dest, s.retbb, s.site, s.wrap)
        r.bb, r.si = s.bb, s.si
        return r

class State:
    __slots__ = ("slots", "mem", "vlen", "facts", "events", "frames", "cnt", "ret", "decided", "tags", "out", "env")
    def copy(s):
        r = State()
        r.slots = dict(s.slots); r.mem = dict(s.mem); r.vlen = dict(s.vlen)
        r.facts = s.facts; r.events = s.events
        r.frames = s.frames[:-1] + [s.frames[-1].copy()] if s.frames else []
        r.cnt = s.cnt; r.ret = s.ret; r.decided = s.decided; r.tags = s.tags; r.out = s.out; r.env = s.env
        return r
    def assume(s, *fs):
        s.facts = s.facts.copy_add(*fs)
        return s
    def event(s, *e):
        s.events = s.events + (e,)
    def fresh(s):
        s.cnt += 1
        return s.cnt

class LoopRec:
    def __init__(s, fn, header, entry, head, latches, exits, stack):
        s.fn, s.header, s.entry, s.head, s.latches, s.exits, s.stack = fn, header, entry, head, latches, exits, stack

class Interp:
    def __init__(self, prog, models=None, opaque=None, max_states=20000, inline_depth=60, log=None, merge=None):
        self.p = prog
        self.T = prog.types
        self.models = list(models or [])
        self.wraps = False
        self.opaque = [re.compile(x) for x in list(opaque or []) + [r"libsecp256k1"]]
        self.max_states = max_states
        self.depth = inline_depth
        self.looprecs = []
        self.steps = 0
        self.nstates = 0
        self.visited = {}
        self.unknown = {}
        self.merge = merge or []
        self._mergeres = [re.compile(x) for x in self.merge]
        from . import models as M
        self.builtin = M.TABLE
        self.intrinsics = M.INTR
        self._modelcache = {}
        self.ext = {}; self.extent_of = None; self.in_extent = False

    # ------------------------------------------------------------ types
    def ty(self, i): return self.T[i]
    def size(self, i): 
        s = self.T[i]["size"]
        return s
    def is_fat(self, i):
        t = self.T[i]
        if t["k"] not in ("ref", "ptr"): return None
        k = self.pointee_tail(t["to"])
        if k in ("slice", "str"): return "len"
        if k == "dyn": return "dyn"
        return None
    def pointee_tail(self, i):
        t = self.T[i]
        while t["k"] in ("struct",) and t["size"] is None and t["variants"][0]["fields"]:
            t = self.T[t["variants"][0]["fields"][-1]]
        return t["k"]
    def field_ty(self, i, var, k):
        t = self.T[i]
        if t["k"] in ("tuple", "closure"): return t["fields"][k]
        return t["variants"][var or 0]["fields"][k]
    def field_off(self, i, var, k):
        t = self.T[i]
        if t["k"] in ("tuple", "closure"): return t["offs"][k]
        if t["k"] == "union": return 0
        return t["variants"][var or 0]["offs"][k]
    def tybits(self, i):
        t = self.T[i]
        return t.get("bits") or (t["size"] or 8) * 8

    # ------------------------------------------------------------ materialise symbolic values
    def mat(self, a, i):
        """value of type i denoted by atom a"""
        t = self.T[i]; k = t["k"]
        if k == "uint":
            if a.lo is None: a.lo, a.hi = 0, (1 << t["bits"]) - 1
            return V(a)
        if k == "int":
            if a.op in ("ld", "sub"): a = atom("sx", a)
            if a.lo is None: a.lo, a.hi = -(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1
            return V(a)
        if k == "char":
            if a.lo is None: a.lo, a.hi = 0, 0x10ffff
            return V(a)
        if k == "bool":
            if a.lo is None: a.lo, a.hi = 0, 1
            return ne(V(a))
        if k in ("ref", "ptr"):
            f = self.is_fat(i)
            meta = None
            if f == "len": meta = V(atom("len", a, lo=0, hi=U63))
            elif f == "dyn": meta = ("dyn", a)
            if k == "ref" and ("R", a) not in self.ext:
                to = self.T[t["to"]]
                if f == "len":
                    es = self.size(to["elem"]) if to["k"] == "slice" else 1 if to["k"] == "str" else None
                    if es is not None: self.ext[("R", a)] = scale(meta, es)
                elif f is None and to["size"] is not None: self.ext[("R", a)] = K(to["size"])
            return Ptr(("R", a), (), K(0), meta)
        if k in ("tuple", "closure"):
            return Agg(i, 0, [self.mat(self.sub_atom(a, i, 0, j), ft) for j, ft in enumerate(t["fields"])])
        if k == "struct":
            if t["def"].endswith("::Vec") and "vec" in t["def"]:
                return self.mat_vec(a, i)
            return Agg(i, 0, [self.mat(self.sub_atom(a, i, 0, j), ft) for j, ft in enumerate(t["variants"][0]["fields"])])
        if k == "union":
            fs = t["variants"][0]["fields"]
            j = max(range(len(fs)), key=lambda j: self.size(fs[j]) or 0)
            return Agg(i, 0, [self.mat(a, fs[j])])
        if k == "array":
            return Arr(i, Mem(("a", a)), t["n"] * (self.size(t["elem"]) or 0))
        if k == "enum":
            if len(t["variants"]) == 1:
                return Agg(i, 0, [self.mat(self.sub_atom(a, i, 0, j), ft) for j, ft in enumerate(t["variants"][0]["fields"])])
            return Sym(a, i)
        if k in ("fndef", "never"):
            return Agg(i, 0, ())
        return Sym(a, i)
    def mat_vec(self, a, i):
        return Vecv(("V", a), i)
    def sub_atom(self, a, i, var, j):
        t = self.T[i]
        if a.op in ("ld", "sub") and t["size"] is not None:
            off = self.field_off(i, var, j)
            ft = self.field_ty(i, var, j)
            n = self.size(ft)
            return self.sub_bytes(a, K(off), K(n or 0))
        return atom("fld", a, var or 0, j)
    def sub_bytes(self, a, off, n):
        """atom for bytes [off, off+n) of the bytes denoted by a"""
        if a.op == "ld":
            reg, ep, o, m = a.args
            return atom("ld", reg, ep, add(o, off), n)
        if a.op == "sub":
            return atom("sub", a.args[0], add(a.args[1], off), n)
        return atom("sub", a, off, n)

    def enum_discr(self, st, v):
        t = self.T[v.ty]
        vs = tuple(x["discr"] for x in t["variants"])
        tag = t.get("tag")
        if tag and tag["enc"] == "direct" and v.a.op in ("ld", "sub"):
            b = self.sub_bytes(v.a, K(tag["off"]), K(tag["size"]))
            if b.lo is None: b.lo, b.hi = 0, (1 << (8 * tag["size"])) - 1
            b.vals = None
            return V(b)
        return V(atom("discr", v.a, lo=min(vs), hi=max(vs), vals=vs))
    def enum_field(self, v, var, j):
        t = self.T[v.ty]
        ft = t["variants"][var]["fields"][j]
        if v.a.op in ("ld", "sub") and t["variants"][var]["offs"]:
            return self.mat(self.sub_bytes(v.a, K(t["variants"][var]["offs"][j]), K(self.size(ft) or 0)), ft)
        return self.mat(atom("vf", v.a, var, j), ft)

    # ------------------------------------------------------------ byte memory
    def base_load(self, base, off, n):
        k = base[0]
        if k == "win":
            _, reg, ep, o = base
            return atom("ld", reg, ep, add(o, off), n)
        if k == "a":
            a = base[1]
            return self.sub_bytes(a, off, n) if not (off.const == 0 and a.op in ("ld",) and a.args[3] is n) else a
        if k == "un": return UN
        if k == "fill": return ("fill", base[1])
        if k == "const":
            return ("const", base[1], base[2])
        raise Unsupported("base " + str(base))

    def region_mem(self, st, root):
        m = st.mem.get(root)
        if m is None:
            if root[0] == "C":
                g = self.p.allocs[root[1]]
                if g["k"] in ("mem", "static") and g.get("a"):
                    m = Mem(("const", root[1], None))
                else:
                    m = Mem(("win", root, 0, K(0)))
            else:
                m = Mem(("win", root, 0, K(0)))
            st.mem[root] = m
        return m

    def rel(self, st, o1, n1, o2, n2):
        """relation of [o1,o1+n1) to stored range [o2,o2+n2): 'same','in','dis',None"""
        d = sub(o1, o2)
        if d.const is not None and n1.const is not None and n2.const is not None:
            d = d.c
            if d == 0 and n1.c == n2.c: return "same"
            if d >= 0 and d + n1.c <= n2.c: return "in"
            if d >= n2.c or d + n1.c <= 0: return "dis"
            return None
        if d.const == 0 and n1 is n2: return "same"
        P = st.facts.prove
        if P(le(n2, d)) or P(le(add(d, n1), K(0))): return "dis"
        if P(le(K(0), d)) and P(le(add(d, n1), n2)):
            if P(eq(d)) and P(eq(n1, n2)): return "same"
            return "in"
        if P(eq(n2, K(0))) or P(eq(n1, K(0))): return "dis"
        return None

    def mload(self, st, mem, off, n, ty=None):
        """raw value of bytes [off,off+n): a typed value, Atom, bytes, or UN"""
        log = mem.log
        for i in range(len(log) - 1, -1, -1):
            o, m, v = log[i]
            r = self.rel(st, off, n, o, m)
            if r == "dis": continue
            if r == "same":
                if isinstance(v, Snap): return self.mload(st, v.mem, v.off, n, ty)
                if isinstance(v, tuple) and v and v[0] == "fill": return v
                return v
            if r == "in":
                d = sub(off, o)
                if isinstance(v, Snap): return self.mload(st, v.mem, add(v.off, d), n, ty)
                if isinstance(v, tuple) and v and v[0] == "fill": return v
                if isinstance(v, Arr): return self.mload(st, v.mem, d, n, ty)
                if isinstance(v, Atom) and v.op == "cat":
                    lg = []; c = K(0)
                    for k, x in v.args:
                        k = K(k) if isinstance(k, int) else k
                        lg.append((c, k, x)); c = add(c, k)
                    return self.mload(st, Mem(("un",), tuple(lg)), d, n, ty)
                if isinstance(v, Atom): return self.sub_bytes(v, d, n)
                if isinstance(v, bytes) and d.const is not None and n.const is not None: return v[d.c:d.c + n.c]
                if isinstance(v, Lin) and n.const == 1 and d.const is not None:
                    return V(atom("byte", v, d.c, lo=0, hi=255)) if v.const is None else K((v.c >> (8 * d.c)) & 255)
                if isinstance(v, Lin) and d.const is not None and n.const is not None:
                    if v.const is not None: return K((v.c >> (8 * d.c)) & ((1 << (8 * n.c)) - 1))
                    return V(atom("bytesof", v, d.c, n.c, lo=0, hi=(1 << (8 * n.c)) - 1))
                return atom("part", self.canon(st, v), d, n)
            # maybe several smaller entries cover the range
            c = self.assemble(st, mem, off, n)
            if c is not None: return c
            return atom("ldx", self.memkey(st, mem), off, n)
        r = self.base_load(mem.base, off, n)
        if isinstance(r, tuple) and r[0] == "const":
            return self.const_load(r[1], off, n, ty)
        return r

    def assemble(self, st, mem, off, n):
        """concatenate when n is a small constant: gather each byte/entry piecewise"""
        if n.const is None: return None
        N = n.c
        if N > 4096: return None
        cuts = {0, N}
        for o, m, v in mem.log:
            d = sub(o, off)
            if d.const is None or m.const is None: 
                if self.rel(st, off, n, o, m) == "dis": continue
                return None
            for c in (d.c, d.c + m.c):
                if 0 < c < N: cuts.add(c)
        cuts = sorted(cuts)
        if len(cuts) == 2: return None
        parts = []
        for a, b in zip(cuts, cuts[1:]):
            parts.append((b - a, self.mload(st, mem, addk(off, a), K(b - a))))
        return self.cat(st, parts)

    def cat(self, st, parts):
        # all constant bytes?
        conv = []
        for n, v in parts:
            v = self.canon(st, v, n)
            if isinstance(v, tuple) and v and v[0] == "fill":
                v = bytes([v[1]]) * n if v[1] is not None else atom("fill", v[2], n)
            if isinstance(v, Atom) and v.op == "cat":
                conv.extend(v.args)
            else: conv.append((n, v))
        out = []
        for n, v in conv:
            if out:
                pn, pv = out[-1]
                if isinstance(pv, bytes) and isinstance(v, bytes):
                    out[-1] = (pn + n, pv + v); continue
                w = adjacent(pv, v)
                if w is not None: out[-1] = (pn + n, w); continue
            out.append((n, v))
        if len(out) == 1: return out[0][1]
        return atom("cat", *out)

    def memkey(self, st, mem):
        b = mem.base
        if b[0] == "win": kb = ("win", b[1], b[2], b[3])
        else: kb = b
        return (kb,) + tuple((o, m, self.canon(st, v)) for o, m, v in mem.log)

    def const_load(self, aid, off, n, ty):
        g = self.p.allocs[aid]["a"]
        if off.const is None or n.const is None:
            return atom("ld", ("C", aid), 0, off, n)
        return ConstRef(g, off.c, n.c)

    def canon(self, st, v, n=None):
        """hashable content term for a value (bytes, Atom, Lin, tuple)"""
        if isinstance(v, (bytes, Atom)): return v
        if isinstance(v, ConstRef): return v.bytes()
        if isinstance(v, Lin):
            a = single(v)
            if a is not None and a.op in ("ld", "sub") and (n is None or a.args[-1].const == n): return a
            if n is not None and v.const is not None: return (v.c & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
            if n is not None: return atom("le", v, n)
            return v
        if isinstance(v, Arr): return self.arr_bytes(st, v)
        if isinstance(v, Snap): return atom("snap", self.memkey(st, v.mem), v.off)
        if isinstance(v, Ptr): return ("ptr", v.root, v.path, v.off, v.meta if not isinstance(v.meta, Ptr) else None)
        if isinstance(v, Agg): return ("agg", v.var or 0) + tuple(self.canon(st, x) for x in v.f)
        if isinstance(v, Sym): return v.a
        if isinstance(v, Vecv):
            return ("vec", v.rid, st.vlen.get(v.rid), self.memkey(st, st.mem[v.rid]) if v.rid in st.mem else None)
        if isinstance(v, tuple): return v
        if v is UN: return ("un",)
        return ("?", str(v))

    def arr_bytes(self, st, arr):
        return self.range_bytes(st, arr.mem, K(0), K(arr.n))
    def range_bytes(self, st, mem, off, n):
        if n.const == 0: return b""
        # exact single entry or base
        v = self.mload(st, mem, off, n)
        if isinstance(v, Atom) and v.op == "ldx":
            c = self.cover(st, mem, off, n)
            if c is not None: return c
        if isinstance(v, tuple) and v and v[0] == "fill" and n.const is not None and v[1] is not None:
            return bytes([v[1]]) * n.c
        return self.canon(st, v, n.const)

    def cover(self, st, mem, off, n):
        """concatenation for ranges with symbolic cuts: entries tile the range in order"""
        parts = []
        cur = off; end = add(off, n)
        P = st.facts.prove
        for _ in range(600):
            if P(eq(cur, end)): break
            hit = None
            for i in range(len(mem.log) - 1, -1, -1):
                o, m, v = mem.log[i]
                if P(eq(o, cur)) and not P(eq(m, K(0))):
                    if all(self.rel(st, o, m, o2, m2) == "dis" for o2, m2, _ in mem.log[i + 1:]) and P(le(add(o, m), end)):
                        hit = (m, v, o)
                    break
            if hit is None:
                return None
            m, v, o = hit
            b = self.mload(st, Mem(("un",), ((o, m, v),)), o, m)
            b = self.canon(st, b, m.const)
            if isinstance(b, tuple) and b and b[0] == "fill":
                b = bytes([b[1]]) * m.c if m.const is not None and b[1] is not None else atom("fillb", b[1] if b[1] is not None else b[2], m)
            parts.append((m, b))
            cur = add(cur, m)
        else: return None
        out = []
        for m, b in parts:
            if out and isinstance(b, bytes) and isinstance(out[-1][1], bytes):
                out[-1] = (add(out[-1][0], m), out[-1][1] + b)
            elif out and adjacent(out[-1][1], b): out[-1] = (add(out[-1][0], m), adjacent(out[-1][1], b))
            elif isinstance(b, Atom) and b.op == "cat":
                out.extend((K(x) if isinstance(x, int) else x, y) for x, y in b.args)
            else: out.append((m, b))
        if len(out) == 1: return out[0][1]
        return atom("cat", *[((m.c if m.const is not None else m), b) for m, b in out])

    def mstore(self, st, mem, off, n, v):
        if n.const == 0: return mem
        log = mem.log
        if len(log) and len(log) < 400:
            # drop an entry overwritten exactly (keeps logs short) when nothing after it may alias
            for i in range(len(log) - 1, -1, -1):
                o, m, _ = log[i]
                if o is off and m is n:
                    log = log[:i] + log[i + 1:]
                    break
                if self.rel(st, off, n, o, m) != "dis":
                    d = sub(o, off)
                    if d.const is not None and m.const is not None and n.const is not None and d.c >= 0 and d.c + m.c <= n.c:
                        continue
                    break
        return Mem(mem.base, log + ((off, n, v),))

    # typed access to byte memory
    def tload(self, st, mem, off, ty):
        t = self.T[ty]; k = t["k"]; n = t["size"]
        if k in ("struct", "tuple", "closure", "union") or (k == "enum" and len(t["variants"]) == 1):
            if n == 0 and k not in ("struct", "union"): return self.zst(ty)
            if k == "struct" and t["def"].endswith("::Vec"):
                v = self.mload(st, mem, off, K(n), ty)
                if isinstance(v, Vecv): return v
                return self.from_raw(st, v, ty)
            if k == "union":
                fs = t["variants"][0]["fields"]
                j = max(range(len(fs)), key=lambda j: self.size(fs[j]) or 0)
                return Agg(ty, 0, [self.tload(st, mem, off, fs[j])])
            fs = t["fields"] if k in ("tuple", "closure") else t["variants"][0]["fields"]
            return Agg(ty, 0, [self.tload(st, mem, addk(off, self.field_off(ty, 0, j)), ft) for j, ft in enumerate(fs)])
        if n == 0: return self.zst(ty)
        if n is None: raise Unsupported("unsized load " + t["s"])
        if k == "array":
            # window copy
            for o, m, v in reversed(mem.log[-1:]):
                if o is off and m.const == n and isinstance(v, Arr): return Arr(ty, v.mem, n)
            v = self.mload(st, mem, off, K(n), ty)
            if isinstance(v, Arr): return Arr(ty, v.mem, n)
            if isinstance(v, Atom) and v.op == "ldx":
                return Arr(ty, Mem(("un",), ((K(0), K(n), Snap(mem, off)),)), n)
            return self.from_raw(st, v, ty)
        v = self.mload(st, mem, off, K(n), ty)
        return self.from_raw(st, v, ty)

    def zst(self, ty):
        t = self.T[ty]; k = t["k"]
        if k in ("tuple", "closure"): return Agg(ty, 0, [self.zst(x) for x in t["fields"]])
        if k in ("struct", "union"): return Agg(ty, 0, [self.zst(x) for x in t["variants"][0]["fields"]])
        if k == "enum": return Agg(ty, 0, [self.zst(x) for x in t["variants"][0]["fields"]])
        if k == "array": return Arr(ty, Mem(("un",)), 0)
        return Agg(ty, 0, ())

    def from_raw(self, st, v, ty):
        """reinterpret raw content v as type ty"""
        t = self.T[ty]; k = t["k"]; n = t["size"]
        if v is UN: return UN
        if isinstance(v, ConstRef): return self.const_val(v.g, v.o, ty)
        if isinstance(v, tuple) and v and v[0] == "fill":
            b = v[1]
            if b is None:
                return self.mat(atom("fill", v[2], n), ty)
            return self.from_raw(st, bytes([b]) * n, ty)
        if isinstance(v, bytes):
            return self.const_val({"b": list(v), "p": []}, 0, ty)
        if isinstance(v, Atom):
            return self.from_bytes_atom(st, v, ty)
        if isinstance(v, Lin):
            if k in ("uint", "int", "char"): return v
            if k == "bool": return ne(v)
            if k == "enum": return self.enum_from_int(st, v, ty)
            if k == "array":
                return Arr(ty, Mem(("un",), ((K(0), K(n), v),)), n)
            if k == "struct" or k == "tuple":
                return self.tload(st, Mem(("un",), ((K(0), K(n), v),)), K(0), ty)
            if k in ("ref", "ptr"): return Ptr(("I",), (), v, None)
        if isinstance(v, tuple) and v and v[0] in ("le", "eq", "ne", "p", "c", "and", "or"):
            if k == "bool": return v
            if k in ("uint",): return self.bool_int(v)
        if isinstance(v, Arr):
            if k == "array": return Arr(ty, v.mem, n)
            return self.tload(st, v.mem, K(0), ty)
        if isinstance(v, (Ptr, Agg, Sym, Vecv)):
            if isinstance(v, Ptr) and k == "uint": return self.ptr_addr(v)
            return v
        raise Unsupported("from_raw %r as %s" % (v, t["s"]))

    def enum_from_int(self, st, v, ty):
        t = self.T[ty]
        if v.const is not None:
            for i, x in enumerate(t["variants"]):
                if x["discr"] == v.c and not x["fields"]: return Agg(ty, i, ())
        return Sym(atom("enumof", v, ty), ty)

    def bool_int(self, b):
        if b[0] == "c": return K(1 if b[1] else 0)
        if b[0] == "ne":
            a = single(b[1])
            if a is not None and a.lo == 0 and a.hi == 1: return V(a)
        return V(atom("bool", b, lo=0, hi=1))

    def from_bytes_atom(self, st, a, ty):
        t = self.T[ty]; k = t["k"]; n = t["size"]
        if k == "struct" and t["def"].endswith("::Vec"): return self.mat(a, ty)
        if k in ("uint", "int", "char", "bool"):
            if a.op == "le" and k == "uint" and a.args[1] == n: return a.args[0]
            if a.op == "cat" and k == "uint":
                r = self.compose(st, a, n)
                if r is not None: return r
            return self.mat(a, ty)
        if k == "array":
            if a.op == "cat":
                log = []; o = 0
                for m, v in a.args:
                    log.append((K(o), K(m), v)); o += m
                return Arr(ty, Mem(("un",), tuple(log)), n)
            return Arr(ty, Mem(("a", a)), n)
        if k in ("struct", "tuple", "union", "closure"):
            return self.tload(st, Mem(("a", a)), K(0), ty)
        return self.mat(a, ty)

    def compose(self, st, a, n):
        tot = K(0); o = 0
        for m, v in a.args:
            if isinstance(v, bytes): x = K(int.from_bytes(v, "little"))
            elif isinstance(v, Atom) and v.op == "le": x = v.args[0]
            elif isinstance(v, Atom) and m in (1, 2, 4, 8):
                if v.lo is None: v.lo, v.hi = 0, (1 << (8 * m)) - 1
                x = V(v)
            else: return None
            tot = add(tot, scale(x, 1 << (8 * o)))
            o += m
        return self.recompose(tot)

    def recompose(self, l):
        """x + 256*y over consecutive byte loads -> wider load"""
        if len(l.t) < 2 or l.c: return l
        ts = sorted(l.t, key=lambda x: x[1])
        tot = 0; cur = None
        for a, k in ts:
            if a.op != "ld" and a.op != "sub": return l
            n = a.args[-1].const
            if n is None or k != 1 << (8 * tot): return l
            if cur is None: cur = a
            else:
                if cur.op != a.op or cur.args[:-2] != a.args[:-2] or add(cur.args[-2], cur.args[-1]) is not a.args[-2]: return l
                cur = atom(cur.op, *cur.args[:-1], add(cur.args[-1], a.args[-1]))
            tot += n
        if cur.lo is None: cur.lo, cur.hi = 0, (1 << (8 * tot)) - 1
        return V(cur)

    def tstore(self, st, mem, off, ty, v):
        t = self.T[ty]; k = t["k"]; n = t["size"]
        if n == 0: return mem
        if v is UN: return mem
        if isinstance(v, Agg) and k in ("struct", "tuple", "closure") :
            fs = t["fields"] if k in ("tuple", "closure") else t["variants"][0]["fields"]
            for j, ft in enumerate(fs):
                mem = self.tstore(st, mem, addk(off, self.field_off(ty, 0, j)), ft, v.f[j])
            return mem
        if isinstance(v, Agg) and k == "union":
            return self.mstore(st, mem, off, K(n), v.f[0])
        if isinstance(v, Agg) and k == "enum":
            tag = t.get("tag")
            if tag and tag["enc"] == "direct" and not v.f and tag["size"] == n:
                return self.mstore(st, mem, off, K(n), K(t["variants"][v.var]["discr"]))
        if isinstance(v, Sym) and v.a.op in ("ld", "sub"):
            return self.mstore(st, mem, off, K(n), v.a)
        if isinstance(v, tuple) and k == "bool":
            return self.mstore(st, mem, off, K(n), self.bool_int(v))
        return self.mstore(st, mem, off, K(n), v)

    # ------------------------------------------------------------ constants
    def const_val(self, g, o, ty):
        t = self.T[ty]; k = t["k"]; n = t["size"]
        b = g["b"]
        def word(o, n):
            x = b[o:o + n]
            if any(y is None for y in x): return None
            return int.from_bytes(bytes(x), "little")
        def prov(o):
            for po, pid in g["p"]:
                if po == o: return pid
            return None
        if k in ("uint", "char"):
            w = word(o, n)
            if w is None: return UN
            p = prov(o)
            if p is not None: return self.ptr_addr(Ptr(("C", p), (), K(w)))
            return K(w)
        if k == "int":
            w = word(o, n)
            if w is None: return UN
            return K(w - (1 << (8 * n)) if w >> (8 * n - 1) else w)
        if k == "bool":
            w = word(o, 1)
            return UN if w is None else ("c", bool(w))
        if k in ("ref", "ptr"):
            p = prov(o); w = word(o, 8)
            f = self.is_fat(ty)
            meta = None
            if f == "len": meta = K(word(o + 8, 8))
            elif f == "dyn":
                vp = prov(o + 8)
                meta = ("dynty", self.p.allocs[vp]["ty"]) if vp is not None and self.p.allocs[vp]["k"] == "vtable" else ("dyn", atom("constdyn"))
            if p is None:
                return Ptr(("I",), (), K(w or 0), meta)
            return Ptr(("C", p), (), K(w), meta)
        if k in ("tuple", "closure"):
            return Agg(ty, 0, [self.const_val(g, o + t["offs"][j], ft) for j, ft in enumerate(t["fields"])])
        if k == "struct":
            v = t["variants"][0]
            return Agg(ty, 0, [self.const_val(g, o + v["offs"][j], ft) for j, ft in enumerate(v["fields"])])
        if k == "union":
            fs = t["variants"][0]["fields"]
            j = max(range(len(fs)), key=lambda j: self.size(fs[j]) or 0)
            return Agg(ty, 0, [self.const_val(g, o, fs[j])])
        if k == "array":
            if n and not any(o <= po < o + n for po, _ in g["p"]):
                bb = b[o:o + n]
                if all(x is None for x in bb): return Arr(ty, Mem(("un",)), n)
                bb = bytes(x or 0 for x in bb)
                if len(set(bb)) == 1: return Arr(ty, Mem(("fill", bb[0])), n)
                return Arr(ty, Mem(("un",), ((K(0), K(n), bb),)), n)
            es = self.size(t["elem"])
            mem = Mem(("un",))
            class _S: pass
            log = []
            for i in range(t["n"]):
                v = self.const_val(g, o + i * es, t["elem"])
                log.append((K(i * es), K(es), v))
            return Arr(ty, Mem(("un",), tuple(log)), n)
        if k == "enum":
            vs = t["variants"]
            if len(vs) == 1 or "tag" not in t:
                # single inhabited variant
                i = 0
                if len(vs) > 1:
                    c = [i for i, v in enumerate(vs) if v["offs"] or not v["fields"]]
                    i = c[0]
                v = vs[i]
                return Agg(ty, i, [self.const_val(g, o + (v["offs"][j] if v["offs"] else 0), ft) for j, ft in enumerate(v["fields"])])
            tag = t["tag"]
            w = word(o + tag["off"], tag["size"])
            p = prov(o + tag["off"])
            if tag["enc"] == "direct":
                for i, v in enumerate(vs):
                    if w is not None and v["discr"] & ((1 << (8 * tag["size"])) - 1) == w:
                        return Agg(ty, i, [self.const_val(g, o + v["offs"][j], ft) for j, ft in enumerate(v["fields"])])
                return UN
            un, s, e, ns = tag["enc"]
            idx = un
            if p is None:
                if w is None: return UN
                r = (w - ns) & ((1 << (8 * tag["size"])) - 1)
                if r <= e - s: idx = s + r
            v = vs[idx]
            return Agg(ty, idx, [self.const_val(g, o + (v["offs"][j] if v["offs"] else 0), ft) for j, ft in enumerate(v["fields"])])
        if n == 0 or k in ("fndef", "never"): return Agg(ty, 0, ())
        if k == "fnptr":
            p = prov(o)
            if p is not None: return Agg(ty, 0, (("fn", self.p.allocs[p].get("fn")),))
        return Sym(atom("const", str(t["s"]), o), ty)

    def ptr_addr(self, v):
        if v.root == ("I",): return v.off
        return add(V(atom("addr", v.root, v.path, lo=1, hi=(1 << 62))), v.off)

    # ------------------------------------------------------------ places
    # LV: ("P", root, path, off, meta) typed separately
    def local_root(self, fr, l): return ("L", fr.fid, l, fr.fn["locals"][l])

    def place(self, st, pl):
        """-> (root, path, off, ty, meta)"""
        fr = st.frames[-1]
        root = self.local_root(fr, pl[0]); path = (); off = K(0); ty = root[3]; meta = None
        var = None
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, root, path, off, ty)
                t = self.T[ty]
                if t["k"] == "struct" and t["def"].endswith("::Box"):
                    v = self.box_ptr(v)
                    to = t["args"][0]
                else: to = t["to"]
                if v is UN: raise Unsupported("deref of uninit")
                if not isinstance(v, Ptr): raise Unsupported("deref of %r (%s)" % (v, t["s"]))
                root, path, off, meta = v.root, v.path, v.off, v.meta
                ty = to
                if root[0] == "L" and root not in st.slots:
                    st.event("dangling", self.site(st))
                var = None
                continue
            k = e[0]
            if k == "f":
                t = self.T[ty]
                if var is not None or (t["k"] == "enum"):
                    path, off = self.enum_path(st, root, path, off, ty)
                    path = path + (("v", var or 0, e[1]),)
                    off = K(0)
                elif root[0] == "L" and self.is_tree(st, root, path, off, ty):
                    path = path + (e[1],); off = K(0)
                elif t["k"] == "union":
                    pass
                else:
                    off = addk(off, self.field_off(ty, 0, e[1]))
                # unsized tail keeps meta
                nty = e[2]
                if self.T[nty]["size"] is not None: meta = None
                ty = nty
                var = None
            elif k == "d":
                var = e[1]
            elif k == "i":
                iv = st.slots[self.local_root(fr, e[1])]
                et = self.T[ty]["elem"]
                off = add(off, scale(iv, self.size(et)))
                ty = et; meta = None
            elif k == "c":
                t = self.T[ty]; et = t["elem"]
                if e[3]:
                    ln = K(t["n"]) if t["k"] == "array" else meta
                    off = add(off, scale(addk(ln, -e[1]), self.size(et)))
                else: off = addk(off, e[1] * self.size(et))
                ty = et; meta = None
            elif k == "s":
                t = self.T[ty]; et = t["elem"]
                off = addk(off, e[1] * self.size(et))
                if t["k"] == "slice":
                    meta = addk(meta, -(e[1] + e[2])) if e[3] else K(e[2] - e[1])
                else:
                    n = t["n"] - e[1] - e[2] if e[3] else e[2] - e[1]
                    c = [i for i, x in enumerate(self.T) if x["k"] == "array" and x["elem"] == et and x["n"] == n]
                    ty = c[0]
            elif k == "o": ty = e[1]
            else: raise Unsupported("proj " + str(e))
        return root, path, off, ty, meta

    def enum_path(self, st, root, path, off, ty):
        if root[0] == "L":
            r = self.descend(st, root, path, off, ty)
            if r: return r
            return path, off
        return path + (("o", off, ty),), K(0)

    def is_tree(self, st, root, path, off, ty):
        """does (path) designate a tree node of type ty (no byte offset)?"""
        if off.const != 0: return False
        nt = self.path_ty(root, path)
        if nt is None: return False
        a, b = self.T[nt], self.T[ty]
        if b["size"] is None and b["k"] == "struct" and a["k"] == "struct" and a["def"] == b["def"]: return True    # seen through its unsized form
        return nt == ty or a["s"] == b["s"]

    def path_ty(self, root, path):
        ty = root[3] if root[0] == "L" else None
        var = 0
        for e in path:
            if isinstance(e, int):
                ty = self.field_ty(ty, 0, e) if self.T[ty]["k"] != "union" else self.union_main(ty)
            elif e[0] == "v": ty = self.T[ty]["variants"][e[1]]["fields"][e[2]]
            elif e[0] == "o": ty = e[2]
            elif e[0] == "u": ty = e[1]
        return ty
    def union_main(self, ty):
        fs = self.T[ty]["variants"][0]["fields"]
        return fs[max(range(len(fs)), key=lambda j: self.size(fs[j]) or 0)]

    def box_ptr(self, v):
        while isinstance(v, Agg):
            v = v.f[0]
        return v

    def descend(self, st, root, path, off, want):
        """local tree: refine (path,off) to a node of type `want`; None when impossible"""
        ty = self.path_ty(root, path)
        for _ in range(40):
            t = self.T[ty]
            if off.const == 0 and (ty == want or t["s"] == self.T[want]["s"]): return path, off
            k = t["k"]
            if k == "array": return path, off
            if k == "union":
                path = path + (0,); ty = self.union_main(ty); continue
            if off.const is None: return None
            if k in ("struct", "tuple", "closure"):
                if k == "struct" and t["def"].endswith("::Vec"): return None
                fs = t["fields"] if k in ("tuple", "closure") else t["variants"][0]["fields"]
                n = self.size(want) or 0
                for j, ft in enumerate(fs):
                    fo = self.field_off(ty, 0, j); fs_ = self.size(ft) or 0
                    if fo <= off.c and off.c + max(n, 1) <= fo + fs_:
                        path = path + (j,); off = K(off.c - fo); ty = ft
                        break
                else: return None
                continue
            return None
        return None

    def get_path(self, st, v, path):
        for e in path:
            v = self.proj(st, v, e)
        return v
    def proj(self, st, v, e):
        if isinstance(e, int):
            if isinstance(v, Agg):
                if self.T[v.ty]["k"] == "union":
                    x = v.f[0]
                    return UN if isinstance(x, Agg) and not x.f else x
                return v.f[e]
            if v is UN: return UN
            if isinstance(v, Sym) : return self.mat(atom("fld", v.a, 0, e), self.field_ty(v.ty, 0, e))
            if isinstance(v, Vecv): raise Unsupported("field of Vec")
            raise Unsupported("field %s of %r" % (e, v))
        if e[0] == "v":
            if isinstance(v, Agg):
                if (v.var or 0) != e[1]: raise Unsupported("variant mismatch %s %s" % (v, e))
                return v.f[e[2]]
            if isinstance(v, Sym): return self.enum_field(v, e[1], e[2])
            if v is UN: return UN
        raise Unsupported("proj %s of %r" % (e, v))

    def set_path(self, st, v, path, new, ty):
        if not path: return new
        e = path[0]
        if isinstance(e, int):
            t = self.T[ty]
            ft = self.field_ty(ty, 0, e) if t["k"] != "union" else self.union_main(ty)
            if v is UN or v is None:
                n = 1 if t["k"] == "union" else len(t["fields"] if t["k"] in ("tuple", "closure") else t["variants"][0]["fields"])
                v = Agg(ty, 0, [UN] * n)
            if isinstance(v, Sym): v = Agg(ty, 0, [self.mat(atom("fld", v.a, 0, j), x) for j, x in enumerate(t["variants"][0]["fields"])])
            j = 0 if t["k"] == "union" else e
            f = list(v.f)
            if t["k"] == "union" and isinstance(f[j], Agg) and not f[j].f: f[j] = UN
            f[j] = self.set_path(st, f[j], path[1:], new, ft)
            return Agg(v.ty, v.var, f)
        if e[0] == "v":
            t = self.T[ty]; ft = t["variants"][e[1]]["fields"][e[2]]
            if v is UN or v is None: v = Agg(ty, e[1], [UN] * len(t["variants"][e[1]]["fields"]))
            if isinstance(v, Sym): v = Agg(ty, e[1], [self.enum_field(v, e[1], j) for j in range(len(t["variants"][e[1]]["fields"]))])
            f = list(v.f)
            f[e[2]] = self.set_path(st, f[e[2]], path[1:], new, ft)
            return Agg(v.ty, e[1], f)
        raise Unsupported("set_path " + str(e))

    def check_access(self, st, root, off, n, what):
        """record a bounds obligation for byte memory with known extent"""
        ext = st.env.get("extent", {}).get(root) if st.env else None
        if ext is None: ext = self.ext.get(root)
        if ext is None and self.extent_of is not None: ext = self.extent_of(st, root, off, n)
        if ext is None: return
        ok = st.facts.prove(le(add(off, n), ext)) and st.facts.prove(le(K(0), off))
        st.env["accesses"][0] += 1
        if not ok:
            st.event("oob", rname(root), off, n, self.site(st), what, len(st.facts.lst), root)

    def read(self, st, root, path, off, ty):
        k = root[0]
        if k == "L":
            v = st.slots.get(root, UN)
            if not path and off.const == 0 and root[3] == ty: return v
            r = self.descend(st, root, path, off, ty)
            if r is None:
                # reinterpret: flatten to bytes
                node = self.get_path(st, v, path)
                nty = self.path_ty(root, path)
                m = self.tstore(st, Mem(("un",)), K(0), nty, node)
                return self.tload(st, m, off, ty)
            path, off = r
            node = self.get_path(st, v, path)
            nty = self.path_ty(root, path)
            if self.T[nty]["k"] == "array" and not (off.const == 0 and (nty == ty or self.T[nty]["s"] == self.T[ty]["s"])):
                if node is UN: return UN
                ext = self.size(nty)
                sz = K(self.size(ty) or 0)
                if not (st.facts.prove(le(add(off, sz), K(ext))) and st.facts.prove(le(K(0), off))):
                    st.event("oob", "local array", off, sz, self.site(st), "read", len(st.facts.lst), None)
                if not isinstance(node, Arr): raise Unsupported("array node %r" % node)
                return self.tload(st, node.mem, off, ty)
            return node
        if k == "I":
            if (self.size(ty) or 0) == 0: return self.zst(ty)
            raise Unsupported("read through integer pointer")
        if path:
            e = path[0]
            v = self.read(st, root, (), e[1], e[2])
            v = self.get_path(st, v, path[1:])
            return v
        n = self.size(ty)
        if n: self.check_access(st, root, off, K(n), "read")
        return self.tload(st, self.region_mem(st, root), off, ty)

    def write(self, st, root, path, off, ty, v):
        k = root[0]
        if k == "L":
            if not path and off.const == 0 and root[3] == ty:
                st.slots[root] = v; return
            r = self.descend(st, root, path, off, ty)
            cur = st.slots.get(root, UN)
            if r is None:
                node = self.get_path(st, cur, path); nty = self.path_ty(root, path)
                m = self.tstore(st, Mem(("un",)), K(0), nty, node)
                m = self.tstore(st, m, off, ty, v)
                st.slots[root] = self.set_path(st, cur, path, self.tload(st, m, K(0), nty), root[3])
                return
            path, off = r
            nty = self.path_ty(root, path)
            if self.T[nty]["k"] == "array" and not (off.const == 0 and (nty == ty or self.T[nty]["s"] == self.T[ty]["s"])):
                node = self.get_path(st, cur, path)
                if node is UN: node = Arr(nty, Mem(("un",)), self.size(nty))
                sz = K(self.size(ty) or 0)
                if not (st.facts.prove(le(add(off, sz), K(self.size(nty)))) and st.facts.prove(le(K(0), off))):
                    st.event("oob", "local array", off, sz, self.site(st), "write", len(st.facts.lst), None)
                v = Arr(nty, self.tstore(st, node.mem, off, ty, v), node.n)
            st.slots[root] = self.set_path(st, cur, path, v, root[3])
            return
        if k == "I":
            if (self.size(ty) or 0) == 0: return
            raise Unsupported("write through integer pointer")
        if path:
            e = path[0]
            cur = self.read(st, root, (), e[1], e[2])
            new = self.set_path(st, cur, path[1:], v, e[2])
            self.write(st, root, (), e[1], e[2], new)
            return
        n = self.size(ty)
        if n:
            self.check_access(st, root, off, K(n), "write")
            st.mem[root] = self.tstore(st, self.region_mem(st, root), off, ty, v)
            if root[0] == "R": st.event("store", root, off, K(n), self.canon(st, v, n), self.site(st))

    # byte-range access through pointers (slices)
    def bytes_obj(self, st, p):
        """(Mem, base offset) of the object p points into, for byte-range operations"""
        if p.root[0] == "L":
            v = st.slots.get(p.root, UN)
            path, off = p.path, p.off
            node = self.get_path(st, v, path)
            nty = self.path_ty(p.root, path)
            # go down to an array if possible
            while isinstance(node, Agg) and self.T[nty]["k"] in ("union", "struct") and off.const == 0 and len([1 for x in self.sfields(nty) if self.size(x)]) == 1:
                j = [i for i, x in enumerate(self.sfields(nty)) if self.size(x)][0]
                if self.T[nty]["k"] == "union": j = 0; path = path + (0,); nty2 = self.union_main(nty)
                else: path = path + (j,); nty2 = self.sfields(nty)[j]
                node = node.f[j]; nty = nty2
            if isinstance(node, Arr): return node.mem, off
            return self.tstore(st, Mem(("un",)), K(0), nty, node), off
        if p.root[0] == "I": return Mem(("un",)), p.off
        if p.path:
            e = p.path[0]
            v = self.read(st, p.root, p.path, p.off, self.path_ty(p.root, p.path))
            return self.tstore(st, Mem(("un",)), K(0), self.path_ty(p.root, p.path), v), K(0)
        return self.region_mem(st, p.root), p.off
    def sfields(self, ty):
        t = self.T[ty]
        if t["k"] in ("tuple", "closure"): return t["fields"]
        return t["variants"][0]["fields"]

    def slice_bytes(self, st, p, n):
        """content term of n bytes at pointer p"""
        n = st.facts.simp(n)
        if n.const == 0: return b""
        self.check_access(st, p.root, p.off, n, "read")
        m, o = self.bytes_obj(st, p)
        return self.range_bytes(st, m, o, n)

    def store_bytes(self, st, p, n, v):
        """store raw content v (Snap/bytes/('fill',b)/Atom) into n bytes at p"""
        n = st.facts.simp(n)
        if n.const == 0: return
        if p.root[0] == "L":
            cur = st.slots.get(p.root, UN)
            path, off = p.path, p.off
            nty = self.path_ty(p.root, path)
            node = self.get_path(st, cur, path)
            # descend into single-field wrappers / the field that contains the range
            for _ in range(20):
                t = self.T[nty]
                if t["k"] == "array": break
                if t["k"] == "union": path += (0,); nty = self.union_main(nty)
                elif t["k"] in ("struct", "tuple") and off.const is not None and n.const is not None:
                    for j, ft in enumerate(self.sfields(nty)):
                        fo = self.field_off(nty, 0, j)
                        if fo <= off.c and off.c + n.c <= fo + (self.size(ft) or 0):
                            path += (j,); off = K(off.c - fo); nty = ft; break
                    else: break
                else: break
                node = self.get_path(st, cur, path)
            if self.T[nty]["k"] == "array":
                if not isinstance(node, Arr): node = Arr(nty, Mem(("un",)), self.size(nty))
                if not (st.facts.prove(le(add(off, n), K(self.size(nty)))) and st.facts.prove(le(K(0), off))):
                    st.event("oob", "local array", off, n, self.site(st), "write", len(st.facts.lst), None)
                new = Arr(nty, self.mstore(st, node.mem, off, n, v), node.n)
            else:
                m = self.tstore(st, Mem(("un",)), K(0), nty, node) if node is not UN else Mem(("un",))
                m = self.mstore(st, m, off, n, v)
                new = self.tload(st, m, K(0), nty)
            st.slots[p.root] = self.set_path(st, cur, path, new, p.root[3])
            return
        if p.root[0] == "I":
            return
        self.check_access(st, p.root, p.off, n, "write")
        st.mem[p.root] = self.mstore(st, self.region_mem(st, p.root), p.off, n, v)
        if p.root[0] == "R": st.event("store", p.root, p.off, n, self.canon(st, v, n.const), self.site(st))

    # ------------------------------------------------------------ operands / rvalues
    def site(self, st):
        out = []
        for fr in st.frames:
            b = fr.fn["blocks"][fr.bb]
            out.append((fr.fn["name"], tuple(b["s"][fr.si][-1] if fr.si < len(b["s"]) else b["t"][-1])))
        return tuple(out)
    def site_str(self, site):
        for name, sp in reversed(site):
            s = self.p.span(sp)
            if not s.startswith("std:"): return "%s (%s)" % (strip_generics(name), s)
        return str(site[-1:])

    def operand(self, st, o):
        if "k" in o:
            c = o["k"]
            if "a" in c: return self.const_val(c["a"], 0, c["ty"])
            if "v" in c: return K(c["v"])
            if "zst" in c: return self.zst(c["ty"])
            return Sym(atom("const", c.get("dbg") or c.get("uneval") or "?"), c["ty"])
        if "rc" in o: return FALSE
        pl = o.get("c") or o.get("m")
        root, path, off, ty, meta = self.place(st, pl)
        return self.read(st, root, path, off, ty)

    def op_ty(self, st, o):
        if "k" in o: return o["k"]["ty"]
        if "rc" in o: return None
        pl = o.get("c") or o.get("m")
        fr = st.frames[-1]
        ty = fr.fn["locals"][pl[0]]
        for e in pl[1:]:
            if e == "*":
                t = self.T[ty]
                ty = t["args"][0] if t["k"] == "struct" else t["to"]
            elif e[0] == "f": ty = e[2]
            elif e[0] in ("i", "c"): ty = self.T[ty]["elem"]
            elif e[0] == "o": ty = e[1]
        return ty

    def wrapval(self, l, ty):
        t = self.T[ty]; n = t["bits"]
        if t["k"] == "int": return l if l.const is None else K(((l.c + (1 << (n - 1))) % (1 << n)) - (1 << (n - 1)))
        if l.const is not None: return K(l.c % (1 << n))
        return V(atom("wrap", l, n, lo=0, hi=(1 << n) - 1))
    def range_f(self, l, ty):
        """formula: l fits in integer type ty"""
        t = self.T[ty]; n = t["bits"]
        if t["k"] == "int": lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        else: lo, hi = 0, (1 << n) - 1
        return f_and(le(K(lo), l), le(l, K(hi)))

    def mul(self, a, b):
        if a.const is not None: return scale(b, a.c)
        if b.const is not None: return scale(a, b.c)
        # (x / w) * w
        for x, y in ((a, b), (b, a)):
            s = single(x)
            if s is not None and s.op == "div" and s.args[1] is y:
                return V(atom("divmul", s.args[0], y, lo=0, hi=bounds(s.args[0])[1]))
        u, v = sorted((a, b), key=lambda x: x.id)
        return V(atom("mul", u, v, lo=0 if (bounds(a)[0] or 0) >= 0 and (bounds(b)[0] or 0) >= 0 else None))

    def binop(self, st, op, a, b, ty):
        if a is UN or b is UN: return self.mat(atom("uninit", st.fresh()), ty) if op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else pred(atom("uninit", st.fresh()))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrop(st, op, a, b)
        if isinstance(a, tuple):
            if op == "Eq" or op == "BitXor" or op == "Ne":
                same = None
                if b[0] == "c": same = a if b[1] else neg(a)
                elif a[0] == "c": same = b if a[1] else neg(b)
                elif a == b: same = TRUE
                else: same = f_or(f_and(a, b), f_and(neg(a), neg(b)))
                return same if op == "Eq" else neg(same)
            if op == "BitAnd": return f_and(a, b)
            if op == "BitOr": return f_or(a, b)
            if op in ("Lt", "Gt", "Le", "Ge"):
                if op == "Lt": return f_and(neg(a), b)
                if op == "Gt": return f_and(a, neg(b))
                if op == "Le": return f_or(neg(a), b)
                return f_or(a, neg(b))
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            if op in ("Eq", "Ne"):
                f = bytes_eq_any(self.canon(st, a), self.canon(st, b))
                return f if op == "Eq" else neg(f)
            raise Unsupported("binop %s %r %r" % (op, a, b))
        if op == "Eq": return eq(a, b)
        if op == "Ne": return ne(a, b)
        if op == "Lt": return lt(a, b)
        if op == "Le": return le(a, b)
        if op == "Gt": return lt(b, a)
        if op == "Ge": return le(b, a)
        if op in ("Add", "Sub", "Mul"):
            l = add(a, b) if op == "Add" else sub(a, b) if op == "Sub" else self.mul(a, b)
            if op == "Add": l = self.recompose(l)
            if st.facts.prove(self.range_f(l, ty)): return l
            return self.wrapval(l, ty)
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return add(a, b) if op[0] == "A" else sub(a, b) if op[0] == "S" else self.mul(a, b)
        if op in ("Div", "Rem"):
            if a.const is not None and b.const:
                return K(a.c // b.c if op == "Div" else a.c % b.c)
            if b.const == 1: return a if op == "Div" else K(0)
            lo, hi = bounds(a)
            if b.const and lo is not None and lo >= 0:
                # exact division of multiples
                if a.c % b.c == 0 and all(k % b.c == 0 for _, k in a.t):
                    return lin(a.c // b.c, tuple((x, k // b.c) for x, k in a.t)) if op == "Div" else K(0)
            if op == "Div":
                return V(atom("div", a, b, lo=0, hi=None if hi is None else (hi // b.c if b.const else hi)))
            return V(atom("rem", a, b, lo=0, hi=b.c - 1 if b.const else bounds(b)[1]))
        if op in ("Shl", "ShlUnchecked") and b.const is not None:
            l = scale(a, 1 << b.c)
            if st.facts.prove(self.range_f(l, ty)): return l
            return self.wrapval(l, ty)
        if op in ("Shr", "ShrUnchecked") and b.const is not None:
            return self.binop(st, "Div", a, K(1 << b.c), ty)
        if op == "BitAnd":
            if a.const is not None and b.const is not None: return K(a.c & b.c)
            for x, m in ((a, b), (b, a)):
                if m.const is not None:
                    if m.c == 0: return K(0)
                    if m.c & (m.c + 1) == 0:
                        lo, hi = bounds(x)
                        if hi is not None and hi <= m.c: return x
                        return self.binop(st, "Rem", x, K(m.c + 1), ty)
                    low = m.c & -m.c; top = m.c + low
                    if top & (top - 1) == 0 and st.facts.prove(le(x, K(top - 1))) and st.facts.prove(le(K(0), x)):     # clears the low bits only
                        return sub(x, self.binop(st, "Rem", x, K(low), ty))
                    return V(atom("band", x, m.c, lo=0, hi=m.c))
            u, v = sorted((a, b), key=lambda x: x.id)
            return V(atom("band", u, v, lo=0, hi=min(x for x in (bounds(a)[1], bounds(b)[1], (1 << 64) - 1) if x is not None)))
        if op in ("BitOr", "BitXor"):
            if a.const is not None and b.const is not None: return K(a.c | b.c if op == "BitOr" else a.c ^ b.c)
            if a.const == 0: return b
            if b.const == 0: return a
            for x, y in ((a, b), (b, a)):
                lo, hi = bounds(x)
                if lo is not None and lo >= 0 and hi is not None:
                    m = 1 << hi.bit_length()
                    if y.c % m == 0 and all(k % m == 0 for _, k in y.t):
                        return self.recompose(add(x, y))
            u, v = sorted((a, b), key=lambda x: x.id)
            return V(atom("bor" if op == "BitOr" else "bxor", u, v, lo=0, hi=(1 << self.tybits(ty)) - 1))
        if op == "Cmp":
            return ("cmp3", a, b)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            return V(atom(op[:3], a, b, lo=0, hi=(1 << self.tybits(ty)) - 1))
        raise Unsupported("binop " + op)

    def ptrop(self, st, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, Lin): a = Ptr(("I",), (), a)
            if isinstance(b, Lin): b = Ptr(("I",), (), b)
            if a.root == b.root and a.path == b.path:
                return self.binop(st, op, a.off, b.off, None)
            x, y = self.ptr_addr(a), self.ptr_addr(b)
            if op in ("Eq", "Ne") and (a.root == ("I",)) != (b.root == ("I",)):
                return ("c", op == "Ne")
            return self.binop(st, op, x, y, None)
        if op == "Offset":
            return Ptr(a.root, a.path, add(a.off, b), a.meta)
        x = self.ptr_addr(a) if isinstance(a, Ptr) else a
        y = self.ptr_addr(b) if isinstance(b, Ptr) else b
        return self.binop(st, op, x, y, self.p.bystr.get("usize"))

    def rvalue(self, st, r, dty):
        k = r[0]
        if k == "use": return self.operand(st, r[1])
        if k in ("ref", "addr"):
            root, path, off, ty, meta = self.place(st, r[1])
            if root[0] == "L" and root not in st.slots: st.slots[root] = UN if self.T[root[3]]["k"] != "array" else Arr(root[3], Mem(("un",)), self.size(root[3]))
            if self.T[dty]["k"] in ("ref",) and root[0] in ("R", "V"):
                n = self.size(ty)
                if n: self.check_access(st, root, off, K(n), "ref")
                elif n is None and meta is not None and isinstance(meta, Lin) and self.T[ty]["k"] in ("slice", "str"):
                    es = self.size(self.T[ty]["elem"]) if self.T[ty]["k"] == "slice" else 1
                    self.check_access(st, root, off, scale(meta, es or 0), "ref")
            return Ptr(root, path, off, meta)
        if k == "bin":
            a = self.operand(st, r[2]); b = self.operand(st, r[3])
            ty = self.op_ty(st, r[2])
            if r[1] == "Offset":
                sz = self.size(self.T[ty]["to"])
                return Ptr(a.root, a.path, add(a.off, scale(b, sz)), a.meta)
            if r[1] == "Cmp": return self.three_way(st, a, b, dty)
            return self.binop(st, r[1], a, b, ty)
        if k == "cbin":
            a = self.operand(st, r[2]); b = self.operand(st, r[3])
            ty = self.op_ty(st, r[2])
            return self.with_overflow(st, r[1], a, b, ty, dty)
        if k == "un":
            a = self.operand(st, r[2])
            if r[1] == "Not":
                if isinstance(a, tuple): return neg(a)
                n = self.tybits(dty)
                if isinstance(a, Lin): return lin((1 << n) - 1 - a.c, tuple((x, -q) for x, q in a.t))
            if r[1] == "PtrMetadata":
                if isinstance(a, Ptr):
                    return a.meta if a.meta is not None else Agg(dty, 0, ())
            if r[1] == "Neg" and isinstance(a, Lin): return scale(a, -1)
            raise Unsupported("unop %s %r" % (r[1], a))
        if k == "cast": return self.cast(st, r[1], self.operand(st, r[2]), self.op_ty(st, r[2]), r[3])
        if k == "discr":
            root, path, off, ty, meta = self.place(st, r[1])
            v = self.read(st, root, path, off, ty)
            return self.discr(st, v)
        if k == "len":
            root, path, off, ty, meta = self.place(st, r[1])
            t = self.T[ty]
            return K(t["n"]) if t["k"] == "array" else meta
        if k == "repeat":
            v = self.operand(st, r[1])
            n = self.size(dty)
            et = self.T[dty]["elem"]
            es = self.size(et)
            cv = self.canon(st, v, es)
            if es == 0 or v is UN or (isinstance(v, Agg) and v.f and v.f[0] is UN): return Arr(dty, Mem(("un",)), n)
            if isinstance(cv, bytes) and len(set(cv)) == 1: return Arr(dty, Mem(("fill", cv[0])), n)
            if self.T[dty]["n"] <= 300:
                m = Mem(("un",), tuple((K(i * es), K(es), v) for i in range(self.T[dty]["n"])))
                return Arr(dty, m, n)
            return Arr(dty, Mem(("a", atom("repeat", cv, n))), n)
        if k == "agg":
            vs = [self.operand(st, o) for o in r[4]]
            if r[1] == "array":
                et = self.T[dty]["elem"]; es = self.size(et)
                m = Mem(("un",))
                for i, v in enumerate(vs): m = self.tstore(st, m, K(i * es), et, v)
                return Arr(dty, m, self.size(dty))
            if r[1] == "tuple": return Agg(dty, 0, vs)
            if r[1] == "rawptr":
                p, m = vs
                if isinstance(m, Agg): m = None
                if not isinstance(p, Ptr): raise Unsupported("rawptr of %r" % p)
                return Ptr(p.root, p.path, p.off, m)
            if self.T[r[2]]["k"] == "union" and vs and isinstance(vs[0], Agg) and not vs[0].f and (self.size(r[2]) or 0): vs = [UN]
            return Agg(r[2], r[3], vs)
        raise Unsupported("rvalue " + k)

    def three_way(self, st, a, b, dty):
        if isinstance(a, Lin) and isinstance(b, Lin):
            return Sym(atom("cmp3", a, b), dty)
        raise Unsupported("cmp")

    def with_overflow(self, st, op, a, b, ty, dty):
        if a is UN or b is UN: raise Unsupported("arith on uninit")
        l = add(a, b) if op.startswith("Add") else sub(a, b) if op.startswith("Sub") else self.mul(a, b) if op.startswith("Mul") else None
        if l is None:  # shifts
            n = self.tybits(ty)
            return Agg(dty, 0, [self.binop(st, op, a, b, ty), neg(f_and(le(K(0), b), lt(b, K(n))))])
        if op.startswith("Mul") and a.const is None and b.const is None:
            if single(l) is not None and single(l).op == "divmul": return Agg(dty, 0, [l, FALSE])
            return Agg(dty, 0, [l, pred(atom("mulovf", *sorted((a, b), key=lambda x: x.id), self.tybits(ty)))])
        ok = self.range_f(l, ty)
        if st.facts.prove(ok): return Agg(dty, 0, [l, FALSE])
        # the value component is only meaningful on the no-overflow side; keep it exact and guard with the flag
        return Agg(dty, 0, [("ovf", l, ok, ty), neg(ok)])

    def cast(self, st, kind, v, fty, ty):
        t = self.T[ty]; k = t["k"]; f = self.T[fty]
        if v is UN: return UN
        if kind == "IntToInt":
            if isinstance(v, tuple): v = self.bool_int(v)
            if isinstance(v, Agg):   # fieldless enum
                v = K(self.T[v.ty]["variants"][v.var or 0]["discr"])
            if isinstance(v, Sym): v = self.enum_discr(st, v)
            if not isinstance(v, Lin): raise Unsupported("int cast of %r" % (v,))
            n = t.get("bits", 32)
            if f["k"] == "int" and k == "uint" and f.get("bits", 0) <= n:
                pass
            lo, hi = bounds(v)
            tlo, thi = (0, (1 << n) - 1) if k != "int" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            if lo is not None and hi is not None and lo >= tlo and hi <= thi: return v
            if st.facts.prove(f_and(le(K(tlo), v), le(v, K(thi)))): return v
            if v.const is not None:
                w = v.c % (1 << n)
                if k == "int" and w >> (n - 1): w -= 1 << n
                return K(w)
            return V(atom("trunc", v, n, lo=tlo, hi=thi))
        if kind == "PtrToPtr":
            if isinstance(v, Ptr):
                if v.meta is not None and self.is_fat(ty) is None: return Ptr(v.root, v.path, v.off, None)
                return v
            return v
        if kind in ("MutToConstPointer", "ReifyFnPointer", "UnsafeFnPointer", "ClosureFnPointer", "Subtype", "FnPtrToPtr"): 
            if kind in ("ReifyFnPointer", "ClosureFnPointer"):
                return Agg(ty, 0, (("fn", f.get("fn")),))
            return v
        if kind == "ArrayToPointer": return v
        if kind == "Unsize":
            return self.unsize(st, v, fty, ty)
        if kind in ("Transmute", "BoxDerefTransmute"):
            return self.transmute(st, v, fty, ty)
        if kind == "PointerExposeAddress": return self.ptr_addr(v)
        if kind == "PointerWithExposedProvenance": return Ptr(("I",), (), v)
        raise Unsupported("cast " + kind)

    def unsize(self, st, v, fty, ty):
        f = self.T[fty]
        if isinstance(v, Ptr):
            to = f["to"]
            tt = self.T[to]
            dst = self.pointee_tail(self.T[ty]["to"])
            if dst == "slice":
                while tt["k"] == "struct" and tt["size"] is not None and tt["variants"][0]["fields"]: tt = self.T[tt["variants"][0]["fields"][-1]]
                if tt["k"] == "array": return Ptr(v.root, v.path, v.off, K(tt["n"]))
                tt = self.T[to]
            if dst == "dyn":
                if tt["k"] == "dyn": return v
                return Ptr(v.root, v.path, v.off, ("dynty", to))
            return v
        if isinstance(v, Agg):
            # Box<T> -> Box<dyn>, wrappers: rewrite the pointer inside
            def go(x, fi, ti):
                if isinstance(x, Ptr):
                    return x
                if isinstance(x, Agg):
                    fs = self.sfields(fi); ts = self.sfields(ti)
                    return Agg(ti, x.var, [go(y, a, b) for y, a, b in zip(x.f, fs, ts)])
                return x
            inner = self.T[fty]["args"][0] if self.T[fty].get("args") else None
            target = self.T[ty]["args"][0]
            r = go(v, fty, ty)
            def setmeta(x):
                if isinstance(x, Ptr):
                    tt = self.T[inner]
                    if tt["k"] == "array": return Ptr(x.root, x.path, x.off, K(tt["n"]))
                    if self.pointee_tail(target) == "dyn" and tt["k"] != "dyn": return Ptr(x.root, x.path, x.off, ("dynty", inner))
                    return x
                if isinstance(x, Agg): return Agg(x.ty, x.var, [setmeta(y) for y in x.f])
                return x
            return setmeta(r)
        raise Unsupported("unsize %r" % (v,))

    def transmute(self, st, v, fty, ty):
        if self.T[fty]["s"] == self.T[ty]["s"]: return v
        t = self.T[ty]
        if isinstance(v, Ptr) and t["k"] in ("ref", "ptr"): return v
        if isinstance(v, Ptr) and t["k"] == "uint": return self.ptr_addr(v)
        if isinstance(v, Ptr) and t["k"] == "fnptr": return Agg(ty, 0, (("fnp", v),))
        # newtype wrapping / unwrapping pointers
        x = v
        while isinstance(x, Agg) and len([1 for y in self.sfields(x.ty) if self.size(y)]) == 1 and self.T[x.ty]["k"] != "enum":
            j = [i for i, y in enumerate(self.sfields(x.ty)) if self.size(y)][0] if self.T[x.ty]["k"] != "union" else 0
            x = x.f[j]
        if isinstance(x, Ptr) and t["k"] in ("ref", "ptr"): return x
        if isinstance(x, Arr) and t["k"] == "array" and self.size(ty) == x.n: return Arr(ty, x.mem, x.n)
        if isinstance(x, Ptr):
            def wrap(i):
                tt = self.T[i]
                if tt["k"] in ("ref", "ptr") or (tt["k"] not in ("tuple", "union") and "variants" not in tt): return x
                fs = self.sfields(i)
                if tt["k"] == "enum":
                    un = tt["tag"]["enc"][0] if "tag" in tt and tt["tag"]["enc"] != "direct" else 0
                    fs = tt["variants"][un]["fields"]
                    return Agg(i, un, [wrap(y) if self.size(y) else self.zst(y) for y in fs])
                if tt["k"] == "union": return Agg(i, 0, [wrap(self.union_main(i))])
                return Agg(i, 0, [wrap(y) if self.size(y) else self.zst(y) for y in fs])
            if t["k"] == "enum":
                un = t["tag"]["enc"][0] if "tag" in t and t["tag"]["enc"] != "direct" else 0
                # Option<NonNull>/Option<&T> from a pointer: null check
                if x.root == ("I",) and x.off.const == 0: return Agg(ty, 1 - un, ())
            return wrap(ty)
        if t["k"] in ("uint", "int") and isinstance(x, Lin): return x
        if isinstance(x, Lin) and t["k"] == "enum" and t.get("tag") and t["tag"]["enc"] != "direct":
            un, lo, hi, ns = t["tag"]["enc"]
            if lo == hi and t["tag"]["off"] == 0 and t["tag"]["size"] == t["size"]:
                if st.facts.prove(eq(x, K(ns))): return Agg(ty, lo, ())
                if st.facts.prove(ne(x, K(ns))):
                    def fill(i):
                        if self.T[i]["k"] in ("uint", "int"): return x
                        return Agg(i, 0, [fill(y) if self.size(y) else self.zst(y) for y in self.sfields(i)])
                    return Agg(ty, un, [fill(y) if self.size(y) else self.zst(y) for y in t["variants"][un]["fields"]])
            raise Unsupported("integer reinterpreted as " + t["s"])
        m = self.tstore(st, Mem(("un",)), K(0), fty, v)
        if isinstance(v, Agg) and self.T[fty]["k"] == "enum" and m.log and isinstance(m.log[-1][2], Agg):
            raise Unsupported("transmute of enum %s" % self.T[fty]["s"])
        return self.tload(st, m, K(0), ty)

    def discr(self, st, v):
        if isinstance(v, Agg):
            t = self.T[v.ty]
            return K(t["variants"][v.var or 0]["discr"]) if t["k"] == "enum" else K(0)
        if isinstance(v, Sym):
            if v.a.op == "enumof": return v.a.args[0]
            if v.a.op == "cmp3": return ("cmp3", v.a.args[0], v.a.args[1])
            return self.enum_discr(st, v)
        if v is UN: return V(atom("uninit", st.fresh(), lo=0, hi=255))
        if isinstance(v, tuple): return self.bool_int(v)
        raise Unsupported("discr of %r" % (v,))

    # ------------------------------------------------------------ running
    def new_state(self):
        st = State()
        st.slots = {}; st.mem = {}; st.vlen = {}; st.facts = Facts(); st.events = (); st.frames = []; st.cnt = 0
        st.ret = None; st.decided = frozenset(); st.tags = (); st.out = None
        st.env = {"extent": {}, "accesses": [0]}
        return st

    def push(self, st, fn, args, dest, retbb, site, wrap=None):
        if len(st.frames) > self.depth: raise Unsupported("inline depth at " + fn["name"])
        if "nobody" in fn: raise Unsupported("no body: " + fn["name"])
        fid = st.fresh()
        fr = Frame(fn, fid, dest, retbb, site, wrap)
        st.frames = st.frames + [fr]
        self.visited[fn["key"]] = self.visited.get(fn["key"], 0) + 1
        argc = fn["argc"]
        if len(args) == argc and argc == 2 and isinstance(args[1], Agg) and len(args[1].f) == 1 and args[1].ty != fn["locals"][2] and self.T[args[1].ty]["k"] == "tuple" and self.T[args[1].ty]["fields"][0] == fn["locals"][2] and re.search(r"\{closure#\d+\}$", fn["name"]):
            args = [args[0], args[1].f[0]]      # packed argument list of a closure call
        if len(args) != argc:
            if len(args) >= 1 and isinstance(args[-1], Agg) and self.T[args[-1].ty]["k"] == "tuple" and len(args) - 1 + len(args[-1].f) == argc:
                args = list(args[:-1]) + list(args[-1].f)
            else:
                raise Unsupported("arity of %s: %d vs %d" % (fn["name"], len(args), argc))
        for i, v in enumerate(args):
            st.slots[self.local_root(fr, i + 1)] = v

    def arg_values(self, st, fn, names=None):
        """fresh symbolic arguments a0,a1,…; referenced objects get known extents"""
        vals = []
        for i in range(fn["argc"]):
            ty = fn["locals"][i + 1]
            a = atom("sym", (names or {}).get(i, "a%d" % i))
            v = self.mat(a, ty)
            self.reg_extent(st, v, ty)
            vals.append(v)
        return vals
    def reg_extent(self, st, v, ty):
        t = self.T[ty]
        if isinstance(v, Ptr) and t["k"] == "ref":
            tt = self.T[t["to"]]
            if tt["k"] == "slice":
                st.env["extent"][v.root] = scale(v.meta, self.size(tt["elem"]) or 0)
            elif tt["k"] == "str": st.env["extent"][v.root] = v.meta
            elif tt["size"] is not None: st.env["extent"][v.root] = K(tt["size"])
        elif isinstance(v, Agg):
            fs = t["fields"] if t["k"] in ("tuple", "closure") else t["variants"][v.var or 0]["fields"] if t["k"] in ("struct", "enum") else []
            for x, ft in zip(v.f, fs): self.reg_extent(st, x, ft)

    def run(self, fn, setup=None, args=None):
        st = self.new_state()
        vals = args(self, st, fn) if args else self.arg_values(st, fn)
        if setup: setup(self, st, vals)
        return self.run_from(st, fn, vals)

    def run_from(self, st, fn, vals):
        self.push(st, fn, vals, None, None, None)
        outs = self.explore([st], None)
        res = []
        for kind, s in outs:
            s.out = kind
            res.append(s)
        return res

    def explore(self, states, bound):
        """bound: None or (depth, fid, header, blocks). Returns [(kind, state)]"""
        out = []
        wl = [(s, True) for s in states]
        while wl:
            st, first = wl.pop()
            while True:
                r = self.step(st, bound, first)
                first = False
                if r is None: continue
                if isinstance(r, list):
                    for x in r[1:]:
                        if isinstance(x, tuple): out.append(x)
                        else: wl.append((x, False))
                    if not r: break
                    if isinstance(r[0], tuple): out.append(r[0]); break
                    st = r[0]
                    continue
                out.append((r, st))
                break
            if len(wl) + len(out) > self.max_states: raise Unsupported("too many paths")
            if self._mergeres and len(wl) > 1: self.try_merge(wl)
        return out

    def try_merge(self, wl): pass

    def step(self, st, bound, first):
        """run one basic block; None = continue, list = forks, str = terminal kind"""
        fr = st.frames[-1]
        fn = fr.fn
        if fr.si == 0:
            if bound and fr.fid == bound[1] and not first:
                if fr.bb == bound[2]: return "latch"
                if fr.bb not in bound[3]: return "exit"
            loops = self.p.loops(fn["key"])
            if loops:
                if fr.bb in loops and not (bound and fr.fid == bound[1] and fr.bb == bound[2]):
                    if loops.get("irreducible"): raise Unsupported("irreducible loop in " + fn["name"])
                    return self.enter_loop(st, loops)
        self.steps += 1
        b = fn["blocks"][fr.bb]
        ss = b["s"]
        while fr.si < len(ss):
            s = ss[fr.si]
            try:
                self.stmt(st, s)
            except NeedFork as e:
                return self.fork_on(st, e.f)
            fr.si += 1
        return self.term(st, b["t"], bound)

    def fork_on(self, st, f):
        out = []
        for g in (f, neg(f)):
            if st.facts.prove(neg(g)): continue
            s = st.copy(); s.assume(g); out.append(s)
        return out

    def stmt(self, st, s):
        k = s[0]
        if k == "=":
            pl = s[1]
            fr = st.frames[-1]
            if len(pl) == 1:
                root = self.local_root(fr, pl[0]); ty = root[3]
                v = self.rvalue(st, s[2], ty)
                st.slots[root] = v
                return
            root, path, off, ty, meta = self.place(st, pl)
            v = self.rvalue(st, s[2], ty)
            self.write(st, root, path, off, ty, v)
        elif k == "sd":
            root, path, off, ty, meta = self.place(st, s[1])
            v = self.read(st, root, path, off, ty)
            if isinstance(v, Agg) and v.var == s[2]: return
            n = len(self.T[ty]["variants"][s[2]]["fields"])
            self.write(st, root, path, off, ty, Agg(ty, s[2], [UN] * n))
        elif k == "cpy":
            src = self.operand(st, s[1]); dst = self.operand(st, s[2]); n = self.operand(st, s[3])
            es = self.size(self.T[self.op_ty(st, s[1])]["to"])
            self.memcpy(st, dst, src, scale(n, es), self.T[self.op_ty(st, s[1])]["to"])
        elif k == "assume":
            f = self.operand(st, s[1])
            if isinstance(f, tuple) and not any(a.op == "uninit" for a in atoms_of(f)): st.assume(f)

    def memcpy(self, st, dst, src, n, ety=None):
        if n.const == 0: return
        if ety is not None and n.const == self.size(ety):
            v = self.read(st, src.root, src.path, src.off, ety)
            self.write(st, dst.root, dst.path, dst.off, ety, v)
            return
        self.check_access(st, src.root, src.off, n, "read")
        m, o = self.bytes_obj(st, src)
        v = Snap(m, o)
        # simplify: whole content known
        if n.const is not None or True:
            r = self.mload(st, m, o, n)
            if isinstance(r, Atom) and r.op in ("ld", "sub"): v = r
            elif isinstance(r, ConstRef): v = r.bytes() if not r.has_ptrs() else v
            elif isinstance(r, (bytes, Arr)): v = r
            elif isinstance(r, tuple) and r and r[0] == "fill": v = r
        self.store_bytes(st, dst, n, v)

    def goto(self, st, bb):
        fr = st.frames[-1]
        fr.bb, fr.si = bb, 0

    GUARDS = ("pinocchio::account_info::Ref", "pinocchio::account_info::RefMut")
    def has_guard(self, ty):
        """does dropping a value of this type release an account borrow"""
        memo = self.__dict__.setdefault("_guards", {})
        if ty not in memo:
            memo[ty] = False
            t = self.T[ty]
            memo[ty] = t.get("def") in self.GUARDS or t["k"] in ("struct", "enum", "tuple", "closure") and any(self.has_guard(f) for v in t.get("variants") or () for f in v["fields"])
        return memo[ty]
    def shift_of(self, st, x):
        x = st.facts.simp(x)
        if x.const is None: raise Unsupported("borrow shift " + fmt(x))
        return x.c
    def drop_value(self, st, v, ty):
        t = self.T[ty]
        if not isinstance(v, Agg): raise Unsupported("release of %r (%s)" % (v, t["s"]))
        if t.get("def") in self.GUARDS:
            f = dict(zip(t["variants"][0]["names"], v.f)); p = f["state"]
            while isinstance(p, Agg): p = p.f[0]
            u8 = self.p.bystr["u8"]; now = self.read(st, p.root, p.path, p.off, u8)
            if "borrow_shift" in f: new = self.binop(st, "Add", now, K(1 << self.shift_of(st, f["borrow_shift"])), u8)
            else: new = self.binop(st, "BitOr", now, f["borrow_bitmask"], u8)
            self.write(st, p.root, p.path, p.off, u8, new); return
        for x, fty in zip(v.f, t["variants"][v.var or 0]["fields"]):
            if self.has_guard(fty): self.drop_value(st, x, fty)

    def term(self, st, t, bound):
        k = t[0]
        fr = st.frames[-1]
        if k == "goto":
            self.goto(st, t[1]); return None
        if k == "drop":
            root, path, off, ty, meta = self.place(st, t[1])
            if self.has_guard(ty): self.drop_value(st, self.read(st, root, path, off, ty), ty)
            self.goto(st, t[2]); return None
        if k == "ret":
            return self.do_ret(st)
        if k == "switch":
            v = self.operand(st, t[1])
            return self.switch(st, v, t, bound)
        if k == "assert":
            f = self.operand(st, t[1])
            if not t[2]: f = neg(f)
            if st.facts.prove(f):
                self.unovf(st, f); self.goto(st, t[4]); return None
            out = []
            if not st.facts.prove(neg(f)):
                s = st.copy(); s.assume(f)
                self.unovf(s, f)
                self.goto(s, t[4]); out.append(s)
            if self.wraps and t[3][0] == "overflow":
                w = self.wrapped(st, f)
                if w is not None:
                    for s in w: self.goto(s, t[4]); out.append(s)
                    return out
            s = st.copy(); s.assume(neg(f))
            s.ret = t[3][0]
            s.event("panic", t[3][0], self.site(s))
            out.append(("panic", s))
            return out
        if k == "call": return self.call(st, t, bound)
        if k == "unreach":
            if st.facts.bad or st.facts.contradiction(): return "unreach"
            raise Unsupported("reaches code the compiler takes to be unreachable, at %s" % self.site_str(self.site(st)))
        if k == "abort": return "abort"
        raise Unsupported("terminator " + k)

    def wrapped(self, st, f):
        """on-chain builds have no overflow checks: the states in which the guarded value wrapped, None when not expressible"""
        fr = st.frames[-1]; out = []; n = 0
        for root, v in list(st.slots.items()):
            if root[1] == fr.fid and isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[0], tuple) and v.f[0] and v.f[0][0] == "ovf" and v.f[0][2] == f:
                _, l, ok, ty = v.f[0]; n += 1
                t = self.T[ty]
                if t["k"] != "uint": return None
                m = 1 << t["bits"]
                lo, hi = bounds(l)
                if lo is None or hi is None or lo < -8 * m or hi >= 9 * m: return None
                for j in range(lo // m, hi // m + 1):
                    if j == 0: continue
                    val = addk(l, -j * m)
                    s = st.copy(); s.assume(le(K(0), val), lt(val, K(m)))
                    if s.facts.bad or s.facts.contradiction(): continue
                    s.slots[root] = Agg(v.ty, v.var, [val, TRUE])
                    s.event("wrapped", self.site(s))
                    out.append(s)
        return out if n == 1 else None

    def unovf(self, st, f):
        """replace guarded overflow values whose guard is now proven"""
        fr = st.frames[-1]
        for root, v in list(st.slots.items()):
            if root[1] == fr.fid and isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[0], tuple) and v.f[0] and v.f[0][0] == "ovf":
                st.slots[root] = Agg(v.ty, v.var, [v.f[0][1], v.f[1]])

    def switch(self, st, v, t, bound):
        fr = st.frames[-1]
        branches, other = t[2], t[3]
        loopy = bound and fr.fid == bound[1] and fr.bb in bound[3]
        exits = loopy and any(b not in bound[3] for b in [x for _, x in branches] + [other])
        if isinstance(v, tuple) and v and v[0] == "cmp3":
            a, b = v[1], v[2]
            # discriminants -1,0,1 (as u8 255)
            m = {255: lt(a, b), -1: lt(a, b), 0: eq(a, b), 1: lt(b, a)}
            out = []
            seen = []
            for c, bb in branches:
                c = c - 256 if c == 255 else (c if c < 128 else -1)
                f = m.get(c, FALSE); seen.append(f)
                if not st.facts.prove(neg(f)):
                    s = st.copy(); s.assume(f); self.goto(s, bb); out.append(s)
            f = f_and(*[neg(x) for x in seen])
            if not st.facts.prove(neg(f)):
                s = st.copy(); s.assume(f); self.goto(s, other); out.append(s)
            return out
        if v is UN:
            v = V(atom("uninit", st.fresh(), lo=0, hi=255))
        if isinstance(v, tuple):
            if v[0] == "c":
                if exits: st.decided = st.decided | {fr.bb}
                c = 1 if v[1] else 0
                for x, bb in branches:
                    if x == c: self.goto(st, bb); return None
                self.goto(st, other); return None
            tb = fb = other
            for x, bb in branches:
                if x == 0: fb = bb
                elif x == 1: tb = bb
            out = []
            for f, bb in ((v, tb), (neg(v), fb)):
                for g in self.disj(f):
                    if st.facts.prove(neg(g)): continue
                    s = st.copy(); s.assume(g); self.goto(s, bb); out.append(s)
            return out
        if isinstance(v, Agg) or isinstance(v, Sym): v = self.discr(st, v)
        if not isinstance(v, Lin): raise Unsupported("switch on %r" % (v,))
        if v.const is not None:
            if exits: st.decided = st.decided | {fr.bb}
            c = v.c
            for x, bb in branches:
                if x == c or (c < 0 and x == c + (1 << 8) or (c < 0 and x == c + (1 << 64)) or (c < 0 and x == c + (1 << 128))): self.goto(st, bb); return None
            self.goto(st, other); return None
        out = []
        nes = []
        for x, bb in branches:
            f = eq(v, K(x))
            nes.append(neg(f))
            if f == FALSE or st.facts.prove(neg(f)): continue
            if st.facts.prove(f):
                s = st
                self.goto(s, bb); return None if not out else out + [s]
            s = st.copy(); s.assume(f); self.goto(s, bb); out.append(s)
        a = single(v)
        if a is not None and a.vals is not None and set(a.vals) <= {x for x, _ in branches}:
            return out
        f = f_and(*nes)
        if f != FALSE and not st.facts.prove(neg(f)):
            ob = fr.fn["blocks"][other]
            if not (ob["t"][0] == "unreach" and not ob["s"] and a is not None and self.enum_tag(a)):
                s = st.copy(); s.assume(f); self.goto(s, other); out.append(s)
        return out
    def enum_tag(self, a):
        return a.op in ("ld", "sub", "discr", "enumof")

    def disj(self, f):
        if f[0] == "or":
            # disjoint split
            out = []; acc = []
            for g in f[1:]:
                out.append(f_and(g, *[neg(x) for x in acc])); acc.append(g)
            return out
        return [f]

    def do_ret(self, st):
        fr = st.frames[-1]
        v = st.slots.get(self.local_root(fr, 0), UN)
        if v is UN and self.size(fr.fn["locals"][0]) == 0: v = self.zst(fr.fn["locals"][0])
        st.frames = st.frames[:-1]
        fid = fr.fid
        if not st.frames:
            st.ret = v
            return "ret"
        st.slots = {r: x for r, x in st.slots.items() if r[1] != fid}
        st.frames[-1] = st.frames[-1].copy()
        if fr.wrap: v = fr.wrap(st, v)
        return self.assign_ret(st, fr.dest, fr.retbb, v)

    def assign_ret(self, st, dest, bb, v):
        root, path, off, ty = dest
        self.write(st, root, path, off, ty, v)
        if bb is None: return "diverge"
        self.goto(st, bb)
        return None

    # ------------------------------------------------------------ calls
    def call(self, st, t, bound):
        fo = t[1]
        fty = self.op_ty(st, fo)
        ft = self.T[fty]
        args = [self.operand(st, a) for a in t[2]]
        atys = [self.op_ty(st, a) for a in t[2]]
        root, path, off, ty, meta = self.place(st, t[3])
        dest = (root, path, off, ty)
        if ft["k"] != "fndef":
            fv = self.operand(st, fo)
            if isinstance(fv, Agg) and fv.f and isinstance(fv.f[0], tuple) and fv.f[0][0] == "fn":
                key = fv.f[0][1]
                name = self.p.fns[key]["name"]
                return self.invoke(st, key, name, "item", None, args, atys, dest, t[4], ft)
            return self.opaque_call(st, "fnptr", args, atys, dest, t[4], ft)
        return self.invoke(st, ft["fn"], ft.get("iname") or ft["def"], ft.get("ik"), ft.get("intr"), args, atys, dest, t[4], ft)

    def finish(self, st, dest, bb, outs):
        """outs: list of (state, value) or terminal tuples"""
        res = []
        for o in outs:
            if o[0] in ("panic", "abort", "unreach") and isinstance(o[0], str):
                res.append(o); continue
            s, v = o
            r = self.assign_ret(s, dest, bb, v)
            res.append(s if r is None else (r, s))
        return res

    def invoke(self, st, key, name, ik, intr, args, atys, dest, bb, ft):
        fn = self.p.fns.get(key)
        if ik == "intrinsic":
            h = self.intrinsics.get(intr)
            if h is None:
                self.unknown[intr] = self.unknown.get(intr, 0) + 1
                return self.opaque_call(st, "intr:" + str(intr), args, atys, dest, bb, ft)
            r = h(self, st, args, atys, dest, ft)
            return self.finish(st, dest, bb, r)
        mk = (key, ik)
        h = self._modelcache.get(mk)
        if h is None:
            h = False
            cn = strip_generics(name)
            for pat, m in self.models + self.builtin:
                if re.search(pat, name) or re.search(pat, cn):
                    h = m; break
            self._modelcache[mk] = h
        if h:
            r = h(self, st, Call(name, args, atys, dest, ft, fn, bb))
            if r is not NotImplemented:
                return self.finish(st, dest, bb, r)
        if ik == "virtual":
            p = args[0]
            q = self.box_ptr(p) if isinstance(p, Agg) else p
            if isinstance(q, Ptr) and isinstance(q.meta, tuple) and q.meta[0] == "dynty":
                m = name.split("::")[-1]
                trait = strip_generics(ft["def"]).rsplit("::", 1)[0]
                k2 = self.p.methods.get((trait, m, self.T[q.meta[1]]["s"]))
                if k2 is None:
                    c = [k for (tr, mm, s), k in self.p.methods.items() if mm == m and s == self.T[q.meta[1]]["s"] and tr.split("::")[-1] == trait.split("::")[-1]]
                    k2 = c[0] if len(c) == 1 else None
                if k2 is None:
                    k2 = self.default_method(ft, q.meta[1])
                if k2:
                    a0 = Ptr(q.root, q.path, q.off, None)
                    return self.invoke(st, k2, self.p.fns[k2]["name"], "item", None, [a0] + args[1:], atys, dest, bb, ft)
            return self.opaque_call(st, name, args, atys, dest, bb, ft)
        if any(r.search(name) for r in self.opaque):
            return self.opaque_call(st, name, args, atys, dest, bb, ft)
        if fn is None or "nobody" in fn:
            if name.startswith(("core::panicking", "std::panicking", "core::slice::index::slice_", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed")) or "panic" in name.split("::")[-1]:
                st.ret = "call:" + strip_generics(name)
                st.event("panic", st.ret, self.site(st))
                return "panic"
            d = self.T[dest[3]]
            if d["k"] in ("enum", "struct"):        # a tuple constructor used as a function
                cn = strip_generics(name); dn = strip_generics(d["def"])
                for i, v in enumerate(d["variants"]):
                    if len(v["fields"]) == len(args) and cn in ((dn + "::" + v["name"],) if d["k"] == "enum" else (dn, dn + "::" + v["name"])):
                        return self.finish(st, dest, bb, [(st, Agg(dest[3], i, list(args)))])
            self.unknown[name] = self.unknown.get(name, 0) + 1
            return self.opaque_call(st, name, args, atys, dest, bb, ft)
        if bb is None and ("panick" in name or name.endswith("_fail") or name.endswith("_failed") or name.startswith(("core::slice::index::", "core::panicking", "alloc::alloc::handle_alloc", "core::str::slice_error", "core::slice::copy_from_slice_impl::len_mismatch"))):
            st.ret = "call:" + strip_generics(name)
            st.event("panic", st.ret, self.site(st))
            return "panic"
        if any(f.fn["key"] == key for f in st.frames) and sum(f.fn["key"] == key for f in st.frames) > 2:
            return self.opaque_call(st, name, args, atys, dest, bb, ft)
        self.push(st, fn, args, dest, bb, None)
        return None

    def default_method(self, ft, ty): return None

    def opaque_call(self, st, name, args, atys, dest, bb, ft):
        n = st.fresh()
        cargs = tuple(self.carg(st, a, t) for a, t in zip(args, atys))
        nm = callee_name(name)
        a = atom("call", nm, n)
        st.event("call", nm, cargs, a, self.site(st))
        self.havoc_args(st, args, atys, a)
        v = self.mat(a, dest[3])
        return self.finish(st, dest, bb, [(st, v)])

    def carg(self, st, v, ty):
        """content summary of an argument: slices by content, refs by pointee content when small"""
        t = self.T[ty]
        try:
            if isinstance(v, Ptr) and t["k"] == "ref":
                to = self.T[t["to"]]
                if to["k"] == "slice" and isinstance(v.meta, Lin) and self.size(to["elem"]) == 1:
                    return ("bytes", self.slice_bytes_nochk(st, v, v.meta), v.meta)
                if to["k"] == "array" and self.size(t["to"]) and self.size(to["elem"]) == 1:
                    return ("bytes", self.slice_bytes_nochk(st, v, K(self.size(t["to"]))), K(self.size(t["to"])))
        except Unsupported:
            pass
        return self.canon(st, v, self.size(ty) if isinstance(v, Lin) else None)
    def slice_bytes_nochk(self, st, p, n):
        n = st.facts.simp(n)
        if n.const == 0: return b""
        m, o = self.bytes_obj(st, p)
        return self.range_bytes(st, m, o, n)

    def havoc_args(self, st, args, atys, a):
        """opaque callee may write through every &mut it receives"""
        for i, (v, ty) in enumerate(zip(args, atys)):
            t = self.T[ty]
            if isinstance(v, Ptr) and t["k"] in ("ref", "ptr") and t["mut"]:
                to = self.T[t["to"]]
                if v.root[0] == "L":
                    try:
                        if to["size"]:
                            self.write(st, v.root, v.path, v.off, t["to"], self.mat(atom("out", a, i), t["to"]))
                        elif to["k"] == "slice":
                            self.store_bytes(st, v, scale(v.meta, self.size(to["elem"])), atom("out", a, i))
                    except Unsupported: st.slots[v.root] = self.mat(atom("out", a, i), v.root[3])
                elif v.root[0] in ("R", "V"):
                    n = K(to["size"]) if to["size"] else scale(v.meta, self.size(to["elem"])) if to["k"] == "slice" else None
                    if n is not None and to["k"] != "dyn":
                        self.store_bytes(st, v, n, atom("out", a, i))
                    else:
                        st.mem[v.root] = Mem(("win", v.root, "h%d" % st.fresh(), K(0)))
                        st.event("havoc", v.root, self.site(st))

    # ------------------------------------------------------------ loops
    def enter_loop(self, st, loops):
        fr = st.frames[-1]
        h = fr.bb
        blocks = loops[h]
        bound = (len(st.frames), fr.fid, h, blocks)
        nrec = len(self.looprecs)
        # 1. bounded unrolling when the exit test is decided by constants
        cur = [st.copy()]; done = []; ok = True; ctl = None
        for it in range(80):
            nxt = []
            nrec2 = len(self.looprecs)
            for s in cur:
                s.decided = frozenset()
                for kind, x in self.explore([s], bound):
                    if kind == "latch":
                        if not x.decided: ok = False
                        nxt.append(x)
                        if it < 3:      # a quantity every round is compared against something
                            big = set()
                            for f in x.facts.lst[len(s.facts.lst):]:
                                if f[0] in ("le", "eq", "ne"): big |= {a for a, _ in f[1].t if a.hi is None or a.hi > 1 << 32}
                            ctl = big if ctl is None else ctl & big
                        elif it == 3 and any(not x.facts.prove(le(V(a), K(200))) for a in ctl): ok = False      # not bounded by anything known
                    else: done.append((kind, x))
            if not ok or len(nxt) > 12 or len(done) > 400: ok = False; break
            cur = nxt
            if not cur: break
        else: ok = False
        if ok:
            return [x if k == "exit" else (k, x) for k, x in done]
        del self.looprecs[nrec:]
        # 2. abstract iteration
        hav = {}     # leaf -> value
        inv = []
        lid = st.fresh()
        dropped = set()
        head = None
        extended = False; ncand = 0
        for rnd in range(14):
            head = st.copy()
            for leaf in hav: self.set_leaf(head, leaf, hav[leaf][0])
            head.assume(*[f for f in inv if f not in dropped])
            self.leaf_facts(head, hav)
            del self.looprecs[nrec:]
            res = self.leave_now(head, self.explore([head.copy()], bound), bound, hav)
            latches = [x for k, x in res if k == "latch"]
            # new varying leaves
            new = {}
            for x in latches:
                self.diff_states(head, x, new, hav, lid)
            if new:
                for lf, (val, init, lty) in new.items():
                    hav[lf] = (val, self.get_leaf(st, lf), lty)
                inv = []; dropped = set()
                continue
            if rnd and inv:
                bad = [f for f in inv if f not in dropped and not all(self.latch_holds(f, hav, x) for x in latches)]
                if bad:
                    dropped.update(bad); continue
                if len(latches) < ncand and not extended:
                    # back edges were ruled out by the invariants so far: relations between variables may hold now
                    extended = True
                    more = [f for f in self.candidates(st, head, hav, latches) if f[0] == "eq" and f not in inv and f not in dropped]
                    if more: inv = inv + more; continue
                break
            cand = self.candidates(st, head, hav, latches); ncand = len(latches)
            if not cand: break
            inv = cand
        else:
            inv = []
            raise Unsupported("loop did not stabilise in " + fr.fn["name"])
        ref = self.refine_mem(st, hav, head, latches, lid)
        if ref:
            hav2 = dict(hav)
            for lf, m in ref: hav2[lf] = (m, hav[lf][1], hav[lf][2])
            head2 = st.copy()
            for leaf in hav2: self.set_leaf(head2, leaf, hav2[leaf][0])
            keep = [f for f in inv if f not in dropped]
            head2.assume(*keep)
            mark = self.looprecs[nrec:]
            del self.looprecs[nrec:]
            res2 = self.leave_now(head2, self.explore([head2.copy()], bound), bound, hav2)
            lat2 = [x for k, x in res2 if k == "latch"]
            new = {}
            for x in lat2: self.diff_states(head2, x, new, hav2, lid)
            if not new and all(self.latch_holds(f, hav2, x) for f in keep for x in lat2) and all(self.mem_within(hav2[lf][0], x.mem.get(lf[1]), x, hav2, lf) for lf, _ in ref for x in lat2):
                hav, head, res, latches = hav2, head2, res2, lat2
            else:
                self.looprecs[nrec:] = mark
        self.looprecs.append(LoopRec(fr.fn, h, st, head, latches, [x for k, x in res if k == "exit"], [f.fn["name"] for f in st.frames]))
        self.looprecs[-1].leaves = hav
        self.looprecs[-1].inv = [f for f in inv if f not in dropped]
        out = []
        for k, x in res:
            if k == "latch": continue
            x.tags = x.tags + (("loop", fr.fn["name"], h, lid),)
            out.append(x if k == "exit" else (k, x))
        return out

    def leaf_facts(self, st, hav): pass

    def leave_now(self, head, res, bound, hav):
        """back edges that set a flag (bool or enum variant) after which the loop is always left: followed to the exit instead of being joined"""
        out = []
        for k, x in res:
            if k == "latch" and self.flag_changed(head, x, hav):
                n = len(self.looprecs)
                more = self.explore([x.copy()], bound)
                if all(k2 != "latch" for k2, _ in more): out.extend(more); continue
                del self.looprecs[n:]
            out.append((k, x))
        return out
    def flag_changed(self, head, x, hav):
        for root, v in head.slots.items():
            w = x.slots.get(root)
            if w is None or w is v: continue
            if self.T[root[3]]["k"] == "bool" if root[0] == "L" and isinstance(root[3], int) else False:
                if isinstance(v, tuple) and isinstance(w, tuple) and v != w and v[0] == "c" == w[0]: return True
            if isinstance(v, Agg) and isinstance(w, Agg) and v.ty == w.ty and self.T[v.ty]["k"] == "enum" and (v.var or 0) != (w.var or 0): return True
        return False

    def refine_mem(self, st, hav, head, latches, lid):
        """regions written in the loop only from some fixed offset on: keep the rest"""
        out = []
        ints = [(val, init) for lf, (val, init, ty) in hav.items() if isinstance(val, Lin) and isinstance(init, Lin)]
        lvs = set()
        for val, init in ints: lvs |= atoms_of(val)
        for lf in hav:
            if lf[0] != "M": continue
            root = lf[1]
            ext = st.env["extent"].get(root)
            if ext is None: ext = self.ext.get(root)
            ent = st.mem.get(root) or Mem(("win", root, 0, K(0)))
            hm = hav[lf][0]
            seq = self.sequential(st, hav, hm, root, ent, latches, lid)
            if seq is not None: out.append((lf, seq)); continue
            if ext is None: continue
            fixed, vary, bad = [], [], False
            for x in latches:
                m = x.mem.get(root)
                if m is None or m.base != hm.base or m.log[:len(hm.log)] != hm.log: bad = True; break
                for o, n, v in m.log[len(hm.log):]:
                    da = deep_atoms(o) | deep_atoms(n)
                    if (da & lvs) or any(a.op in ("ld", "call", "ldx") for a in da if a.id >= 0 and not self.entry_atom(a, st, lid)): vary.append((x, o, n))
                    elif (o, n) not in fixed: fixed.append((o, n))
            if bad: continue
            L = None
            if vary:
                cands = []
                for val, init in ints:
                    if init in cands: continue
                    if all(x.facts.prove(le(init, o)) for x, o, n in vary): cands.append(init)
                if not cands and not any(deep_atoms(o) & lvs for x, o, n in vary): pass
                for c in cands:
                    if L is None or st.facts.prove(le(L, c)): L = c
                if L is None: continue
            log = ent.log
            if L is not None: log = log + ((L, sub(ext, L), atom("lm", lid, str(root), "tail")),)
            for i, (o, n) in enumerate(fixed):
                if L is not None and st.facts.prove(le(L, o)): continue
                log = log + ((o, n, atom("lm", lid, str(root), i)),)
            out.append((lf, Mem(ent.base, log)))
        return out

    def sequential(self, st, hav, hm, root, ent, latches, lid):
        """memory of a region a loop fills or copies piece by piece: entry content plus one run [first, cursor)"""
        recipe = None
        for x in latches:
            if x.facts.bad: continue
            r = self.piece(x, hm, root, hav)
            if r is None or (recipe is not None and (r[0] != recipe[0] or r[2] != recipe[2])): return None
            recipe = r
        if recipe is None: return None
        lf, k, what, extra = recipe
        val, init, _ = hav[lf]
        run = scale(sub(val, init), 1)
        if what[0] == "fill": v = ("fill", what[1])
        else:
            sroot, so = what[1], what[2]
            if sroot == root or ("M", sroot) in hav: return None
            v = Snap(Mem(("win", sroot, 0, K(0))), so)
        return Mem(ent.base, ent.log + ((addk(init, extra), run, v),))
    def piece(self, x, hm, root, hav):
        """(loop variable, width, source) when a back edge stores exactly one run of the walk at the variable's place"""
        m = x.mem.get(root)
        if m is None or m.base != hm.base or m.log[:len(hm.log)] != hm.log: return None
        new = m.log[len(hm.log):]
        if len(new) != 1: return None
        o, n, v = new[0]
        if n.const is None or n.const == 0: return None
        for lf, (val, init, ty) in hav.items():
            if lf[0] not in ("S", "VL") or not isinstance(val, Lin) or not isinstance(init, Lin) or single(val) is None: continue
            d = sub(o, val)
            if d.const is None: continue
            try: nx = self.get_leaf(x, lf)
            except KeyError: continue
            if not isinstance(nx, Lin) or not x.facts.prove(eq(nx, add(val, n))): continue
            c = self.canon(x, v, n.const)
            if isinstance(c, bytes) and len(set(c)) == 1: return lf, n.const, ("fill", c[0]), d.const
            if isinstance(c, tuple) and c and c[0] == "fill" and c[1] is not None: return lf, n.const, ("fill", c[1]), d.const
            if isinstance(c, Atom) and c.op == "le" and c.args[1] == n.const:
                a = single(c.args[0]); c = a if a is not None and a.op == "ld" and a.args[3].const == n.const else c
            if isinstance(c, Atom) and c.op == "ld" and c.args[1] == 0 and c.args[3].const == n.const:
                so = c.args[2]
                # the source position travels with the destination
                rest = sub(so, val)
                if rest.const is not None: return lf, n.const, ("copy", c.args[0], addk(init, rest.const)), d.const
                for lf2, (v2, i2, _) in hav.items():
                    if lf2 == lf or not isinstance(v2, Lin) or not isinstance(i2, Lin) or single(v2) is None: continue
                    r2 = sub(so, v2)
                    if r2.const is None: continue
                    try: n2 = self.get_leaf(x, lf2)
                    except KeyError: continue
                    if isinstance(n2, Lin) and x.facts.prove(eq(n2, add(v2, n))) : return lf, n.const, ("copy", c.args[0], addk(i2, r2.const)), d.const
        return None

    def entry_atom(self, a, st, lid):
        """loads and call results that exist before the loop"""
        if a.op == "call": return a.args[1] <= st.cnt
        if a.op == "ld": return not (isinstance(a.args[1], str) and a.args[1] == "l%d" % lid)
        return False

    def mem_within(self, hm, m, x, hav=None, lf=None):
        if m is None or m.base != hm.base or m.log[:len(hm.log)] != hm.log:
            return False
        if hm.log and not (isinstance(hm.log[-1][2], Atom) and hm.log[-1][2].op == "lm") and len(m.log) == len(hm.log) + 1 and hav is not None:
            o, n, v = hm.log[-1]; root = lf[1]
            for l2, (val, init, ty) in hav.items():
                if not isinstance(val, Lin) or not isinstance(init, Lin) or sub(val, init) is not n and sub(val, init) != n: continue
                r = self.piece(x, hm, root, {l2: hav[l2], **{k: w for k, w in hav.items()}})
                if r is None: return False
                first = addk(hav[r[0]][1], r[3])
                if first is not o and first != o: return False
                if r[2][0] == "fill": return v == ("fill", r[2][1])
                return isinstance(v, Snap) and v.off == r[2][2]
        rng = [(o, n) for o, n, v in hm.log if isinstance(v, Atom) and v.op == "lm"]
        for o, n, v in m.log[len(hm.log):]:
            if not any((o is o2 and n is n2) or (v2.args[2] == "tail" and x.facts.prove(le(o2, o))) for o2, n2, v2 in [(a, b, c) for a, b, c in hm.log if isinstance(c, Atom) and c.op == "lm"]): return False
        return True

    # leaves: ("S", root, path, kind) or ("M", root) or ("VL", rid)
    def get_leaf(self, st, lf):
        if lf[0] == "M": return st.mem.get(lf[1])
        if lf[0] == "VL": return st.vlen.get(lf[1])
        if lf[0] == "C": return self.tload(st, self.region_mem(st, lf[1]), K(lf[2]), self.p.bystr["u%d" % (8 * lf[3])])
        v = self.get_path(st, st.slots.get(lf[1], UN), lf[2])
        if lf[3] == "off": return v.off
        if lf[3] == "meta": return v.meta
        return v
    def set_leaf(self, st, lf, val):
        if lf[0] == "M":
            st.mem[lf[1]] = val
            return
        if lf[0] == "VL": st.vlen[lf[1]] = val; return
        if lf[0] == "C":
            st.mem[lf[1]] = self.mstore(st, self.region_mem(st, lf[1]), K(lf[2]), K(lf[3]), val); return
        if lf[1] not in st.slots: return
        cur = st.slots[lf[1]]
        v = self.get_path(st, cur, lf[2])
        if lf[3] == "off": val = Ptr(v.root, v.path, val, v.meta)
        elif lf[3] == "meta": val = Ptr(v.root, v.path, v.off, val)
        st.slots[lf[1]] = self.set_path(st, cur, lf[2], val, lf[1][3])

    def diff_states(self, a, b, new, hav, lid):
        for root, v in a.slots.items():
            w = b.slots.get(root)
            if w is None or w is v: continue
            self.diff(root, (), v, w, root[3], new, hav, lid)
        for root, m in a.mem.items():
            n = b.mem.get(root)
            if n is m or n is None: continue
            if ("M", root) in hav: continue
            if self.memkey(a, m) == self.memkey(b, n): continue
            cells = self.cells(m, n)
            old = [lf for lf in hav if lf[0] == "C" and lf[1] == root]
            if cells is not None:
                for o, k in cells:
                    lf = ("C", root, o, k)
                    if lf in hav or lf in new: continue
                    if any(lf2[0] == "C" and lf2[1] == root and lf2[2] < o + k and o < lf2[2] + lf2[3] for lf2 in list(hav) + list(new)): cells = None; break
                    new[lf] = (V(atom("lv", lid, ("C", str(root), o, k), lo=0, hi=(1 << (8 * k)) - 1)), None, None)
                if cells is not None: continue
            for lf in old: del hav[lf]
            for lf in [x for x in new if x[0] == "C" and x[1] == root]: del new[lf]
            new[("M", root)] = (Mem(("win", root, "l%d" % lid, K(0))), None, None)
        for root in b.mem:
            if root not in a.mem and b.mem[root].log and root[0] in ("R",):
                if ("M", root) not in hav:
                    new[("M", root)] = (Mem(("win", root, "l%d" % lid, K(0))), None, None)
                    a.mem[root] = Mem(("win", root, 0, K(0)))
        for rid, n in a.vlen.items():
            m = b.vlen.get(rid)
            if m is n or m is None or ("VL", rid) in hav: continue
            new[("VL", rid)] = (V(atom("lv", lid, ("VL", str(rid)), lo=0, hi=U63)), None, None)

    def cells(self, m, n):
        """[(offset, size)] when two memories differ only in integers at fixed places"""
        if m.base != n.base: return None
        key = lambda e: (e[0].id, e[1].id, e[2] if isinstance(e[2], bytes) else id(e[2]))
        mk, nk = {key(e) for e in m.log}, {key(e) for e in n.log}
        extra = [e for e in n.log if key(e) not in mk]; gone = [e for e in m.log if key(e) not in nk]
        if [key(e) for e in m.log if key(e) in nk] != [key(e) for e in n.log if key(e) in mk]: return None
        out = []
        for o, k, v in extra:
            if o.const is None or k.const not in (1, 2, 4, 8) or not isinstance(v, Lin): return None
            if (o.c, k.c) not in out: out.append((o.c, k.c))
        if any((o.const, k.const) not in out for o, k, v in gone): return None
        return out

    def diff(self, root, path, v, w, ty, new, hav, lid):
        if v is w: return
        key = ("S", root, path, "all")
        if key in hav: return
        def put(kind, mk):
            lf = ("S", root, path, kind)
            if lf in hav or lf in new: return
            a = atom("lv", lid, (self.leafname(root), path, kind))
            new[lf] = (mk(a), None, ty)
        if isinstance(v, Agg) and isinstance(w, Agg) and v.ty == w.ty and (v.var or 0) == (w.var or 0) and len(v.f) == len(w.f):
            t = self.T[v.ty]
            for j, (x, y) in enumerate(zip(v.f, w.f)):
                if t["k"] == "enum":
                    e = ("v", v.var or 0, j); ft = t["variants"][v.var or 0]["fields"][j]
                elif t["k"] == "union": e = 0; ft = self.union_main(v.ty)
                else: e = j; ft = self.field_ty(v.ty, 0, j)
                self.diff(root, path + (e,), x, y, ft, new, hav, lid)
            return
        if v is UN:
            return
        if isinstance(v, Ptr) and isinstance(w, Ptr) and v.root == w.root and v.path == w.path:
            if v.off is not w.off:
                def mk(a):
                    a.lo, a.hi = (0 if root else 0), U63
                    return V(a)
                put("off", mk)
            if v.meta is not w.meta and v.meta != w.meta:
                if isinstance(v.meta, Lin) and isinstance(w.meta, Lin):
                    def mk2(a):
                        a.lo, a.hi = 0, U63
                        return V(a)
                    put("meta", mk2)
                else: put("all", lambda a: self.mat(a, ty))
            return
        if isinstance(v, Arr) and isinstance(w, Arr):
            if v.mem is w.mem or (v.mem.base == w.mem.base and v.mem.log == w.mem.log): return
            put("all", lambda a: self.mat(a, ty)); return
        if isinstance(v, Vecv) and isinstance(w, Vecv) and v.rid == w.rid: return
        if isinstance(v, Lin) and isinstance(w, Lin) and self.T[ty]["k"] in ("uint", "int", "char"):
            put("all", lambda a: self.mat(a, ty)); return
        if isinstance(v, tuple) and isinstance(w, tuple) and v == w: return
        put("all", lambda a: self.mat(a, ty))
    def leafname(self, root):
        return (root[2],) if root[0] == "L" else str(root)

    def candidates(self, entry, head, hav, latches):
        ints = []
        for lf, (val, init, ty) in hav.items():
            if isinstance(val, Lin) and isinstance(init, Lin):
                ints.append((lf, val, init))
        cand = []
        lvs = set()
        for lf, val, init in ints: lvs |= atoms_of(val)
        for lf, val, init in ints:
            nxt = [self.get_leaf(x, lf) for x in latches]
            if not all(isinstance(n, Lin) for n in nxt): continue
            cand.append(le(init, val)); cand.append(le(val, init))
            a = single(val)
            # bounds mentioned in guards
            seen = set()
            for x in latches + [head]:
                for f in x.facts.lst:
                    if f[0] not in ("le", "ne", "eq"): continue
                    k = dict(f[1].t).get(a)
                    if k is None or abs(k) != 1: continue
                    rest = sub(f[1], scale(val, k))
                    if atoms_of(rest) & lvs: 
                        pass
                    # k*v + rest <= 0
                    X = scale(rest, -1) if k == 1 else rest
                    for d in (-1, 0, 1):
                        Y = addk(X, d)
                        if Y.id in seen or abs(d) and f[0] == "eq": continue
                        seen.add(Y.id)
                        if self.live_lin(Y, entry, lvs):
                            cand.append(le(val, Y)); cand.append(le(Y, val))
            # what later values are compared with
            for n in nxt:
                d = sub(n, val)
        # affine relations between variables with constant steps
        step = {}
        for lf, val, init in ints:
            ds = set()
            for x in latches:
                n = self.get_leaf(x, lf)
                ds.add(sub(n, val) if isinstance(n, Lin) else None)
            if len(ds) == 1:
                d = ds.pop()
                if d is not None: step[lf] = (val, init, d)
            
        its = list(step.items())
        for i in range(len(its)):
            for j in range(i):
                (v1, i1, d1), (v2, i2, d2) = its[i][1], its[j][1]
                if d1.const and d2.const:
                    cand.append(eq(sub(scale(sub(v1, i1), d2.c), scale(sub(v2, i2), d1.c))))
                elif d1 is d2: cand.append(eq(sub(v1, i1), sub(v2, i2)))
                elif scale(d1, -1) is d2: cand.append(eq(add(v1, v2), add(i1, i2)))
        # pairs with a constant sum or difference on every latch
        for i in range(len(ints)):
            for j in range(i):
                for sgn in (1, -1):
                    f = eq(add(ints[i][1], scale(ints[j][1], sgn)), add(ints[i][2], scale(ints[j][2], sgn)))
                    cand.append(f)
                cand.append(le(ints[i][1], ints[j][1])); cand.append(le(ints[j][1], ints[i][1]))
        for lf, (val, init, d) in step.items():
            if d.const and abs(d.c) > 1:
                # divisibility: v = init + |d| * k
                k = atom("lk", single(val), lo=0, hi=U63)
        out = []
        for f in cand:
            if f == TRUE or f in out: continue
            if f == FALSE: continue
            if self.subst_holds(f, hav, entry, init=True): out.append(f)
        return out[:60]

    def live_lin(self, l, entry, lvs):
        """every atom of l existed at loop entry or is a loop variable"""
        ex = entry.env.setdefault("_dummy", 0)
        for a in deep_atoms(l):
            if a.op == "lv" and a not in lvs and a.id > self._entry_mark(entry): return False
            if a.op == "call" and a.args[1] > entry.cnt: return False
            if a.op == "ld" and deep_atoms(a) & lvs: return False
        return True
    def _entry_mark(self, entry): return -1

    def subst_map(self, hav, st, init):
        m = {}
        for lf, (val, ini, ty) in hav.items():
            if isinstance(val, Lin):
                a = single(val)
                v = ini if init else self.get_leaf(st, lf)
                m[a] = v
        return m
    def subst_lin(self, l, m):
        r = K(l.c)
        for a, k in l.t:
            if a in m:
                if not isinstance(m[a], Lin): return None
                r = add(r, scale(m[a], k))
            else: r = add(r, lin(0, ((a, k),)))
        return r
    def subst_holds(self, f, hav, st, init):
        m = self.subst_map(hav, st, init)
        x = self.subst_lin(f[1], m)
        if x is None: return False
        g = {"le": le, "eq": eq}[f[0]](x)
        return st.facts.prove(g)
    def latch_holds(self, f, hav, x):
        return self.subst_holds(f, hav, x, init=False)

_cn = {}
def callee_name(name):
    """path without generics; trait methods keep the implementing type: `<T as Trait>::m` -> `T::m`"""
    r = _cn.get(name)
    if r is None:
        r = name
        if r.startswith("<"):
            d = 0
            for i, c in enumerate(r):
                if c == "<": d += 1
                elif c == ">" and r[i - 1] != "-":
                    d -= 1
                    if d == 0: break
            inner, rest = r[1:i], r[i + 1:]
            d = 0; cut = len(inner)
            for j in range(len(inner)):
                c = inner[j]
                if c in "<([": d += 1
                elif c in ")]" or (c == ">" and inner[j - 1] != "-"): d -= 1
                elif d == 0 and inner.startswith(" as ", j): cut = j; break
            r = inner[:cut] + rest
        r = _cn[name] = strip_generics(r)
    return r

class NeedFork(Exception):
    def __init__(s, f): s.f = f

class ConstRef:
    __slots__ = ("g", "o", "n")
    def __init__(s, g, o, n): s.g, s.o, s.n = g, o, n
    def bytes(s): return bytes(x or 0 for x in s.g["b"][s.o:s.o + s.n])
    def has_ptrs(s): return any(s.o <= p < s.o + s.n for p, _ in s.g["p"])

class Call:
    __slots__ = ("name", "args", "atys", "dest", "ft", "fn", "bb")
    def __init__(s, name, args, atys, dest, ft, fn, bb):
        s.name, s.args, s.atys, s.dest, s.ft, s.fn, s.bb = name, args, atys, dest, ft, fn, bb

def adjacent(a, b):
    """one term for two neighbouring pieces of the same content"""
    if not (isinstance(a, Atom) and isinstance(b, Atom) and a.op == b.op): return None
    if a.op == "ld" and a.args[:2] == b.args[:2] and add(a.args[2], a.args[3]) is b.args[2]:
        return atom("ld", a.args[0], a.args[1], a.args[2], add(a.args[3], b.args[3]))
    if a.op == "sub" and a.args[0] is b.args[0] and add(a.args[1], a.args[2]) is b.args[1]:
        return atom("sub", a.args[0], a.args[1], add(a.args[2], b.args[2]))
    return None
def bytes_eq_any(a, b):
    if a == b: return TRUE
    if isinstance(a, (Atom, bytes)) and isinstance(b, (Atom, bytes)): return bytes_eq(a, b)
    return pred(atom("same", *sorted((a, b), key=lambda x: str(x))))
