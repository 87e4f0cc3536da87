"""Transfer functions for intrinsics and for the few library functions that are not inlined."""
import re
from .dom import *
from .interp import *
from . import interp as I
from .mir import strip_generics

INTR = {}
TABLE = []

def intr(*names):
    def d(f):
        for n in names: INTR[n] = f
        return f
    return d
def model(*pats):
    def d(f):
        for p in pats: TABLE.append((p, f))
        return f
    return d

def unit(ip, ty):
    return ip.zst(ty)

def fork(ip, st, f):
    """[(state, bool)] for the sides of f that are possible"""
    if st.facts.prove(f): return [(st, True)]
    if st.facts.prove(neg(f)): return [(st, False)]
    a = st.copy(); a.assume(f)
    b = st.copy(); b.assume(neg(f))
    return [(a, True), (b, False)]

# ------------------------------------------------------------------ intrinsics
@intr("assert_inhabited", "cold_path", "assert_zero_valid", "assert_mem_uninitialized_valid")
def _nop(ip, st, a, ts, dest, ft): return [(st, unit(ip, dest[3]))]
@intr("black_box")
def _bb(ip, st, a, ts, dest, ft): return [(st, a[0])]
@intr("abort_immediate", "abort")
def _ab(ip, st, a, ts, dest, ft): return [("abort", st)]
@intr("raw_eq")
def _raweq(ip, st, a, ts, dest, ft):
    n = ip.size(ip.T[ts[0]]["to"])
    return [(st, bytes_eq(ip.slice_bytes(st, a[0], K(n)), ip.slice_bytes(st, a[1], K(n))))]
@intr("compare_bytes")
def _cmpb(ip, st, a, ts, dest, ft):
    n = a[2]
    if not isinstance(n, Lin): raise Unsupported("compare_bytes length")
    f = bytes_eq(ip.slice_bytes(st, a[0], n), ip.slice_bytes(st, a[1], n))
    out = []
    for s, t in fork(ip, st, f):
        if t: out.append((s, K(0)))
        else:
            x = V(atom("cmpb", *f[1].args, lo=-(1 << 31), hi=(1 << 31) - 1)) if f[0] == "p" else K(1)
            if x.const is None: s.assume(ne(x))
            out.append((s, x))
    return out
@intr("select_unpredictable")
def _sel(ip, st, a, ts, dest, ft):
    return [(s, a[1] if t else a[2]) for s, t in fork(ip, st, a[0])]
@intr("ptr_offset_from_unsigned", "ptr_offset_from")
def _pof(ip, st, a, ts, dest, ft):
    sz = ip.size(ip.T[ts[0]]["to"])
    x, y = a
    if x.root == y.root and x.path == y.path: d = sub(x.off, y.off)
    else: d = sub(ip.ptr_addr(x), ip.ptr_addr(y))
    return [(st, ip.binop(st, "Div", d, K(sz), dest[3]))]
@intr("arith_offset", "offset")
def _ao(ip, st, a, ts, dest, ft):
    sz = ip.size(ip.T[ts[0]]["to"])
    return [(st, Ptr(a[0].root, a[0].path, add(a[0].off, scale(a[1], sz)), a[0].meta))]
@intr("copy", "copy_nonoverlapping")
def _copy(ip, st, a, ts, dest, ft):
    to = ip.T[ts[0]]["to"]
    ip.memcpy(st, a[1], a[0], scale(a[2], ip.size(to)), to)
    return [(st, unit(ip, dest[3]))]
@intr("write_bytes")
def _wb(ip, st, a, ts, dest, ft):
    to = ip.T[ts[0]]["to"]
    v = a[1]
    fv = ("fill", v.const) if isinstance(v, Lin) and v.const is not None else ("fill", None, v)
    ip.store_bytes(st, a[0], scale(a[2], ip.size(to)), fv)
    return [(st, unit(ip, dest[3]))]
@intr("typed_swap_nonoverlapping")
def _swap(ip, st, a, ts, dest, ft):
    to = ip.T[ts[0]]["to"]
    x = ip.read(st, a[0].root, a[0].path, a[0].off, to); y = ip.read(st, a[1].root, a[1].path, a[1].off, to)
    ip.write(st, a[0].root, a[0].path, a[0].off, to, y); ip.write(st, a[1].root, a[1].path, a[1].off, to, x)
    return [(st, unit(ip, dest[3]))]
@intr("volatile_load", "unaligned_volatile_load")
def _vl(ip, st, a, ts, dest, ft):
    return [(st, ip.read(st, a[0].root, a[0].path, a[0].off, ip.T[ts[0]]["to"]))]
@intr("exact_div")
def _ed(ip, st, a, ts, dest, ft): return [(st, ip.binop(st, "Div", a[0], a[1], ts[0]))]
@intr("size_of_val", "align_of_val")
def _sov(ip, st, a, ts, dest, ft):
    to = ip.T[ts[0]]["to"]; t = ip.T[to]
    if t["size"] is not None: return [(st, K(t["size"]))]
    if t["k"] == "slice": return [(st, scale(a[0].meta, ip.size(t["elem"])))]
    raise Unsupported("size_of_val")
@intr("integer_max")
def _imax(ip, st, a, ts, dest, ft):
    if len(a) != 2 or not all(isinstance(x, Lin) for x in a): raise Unsupported("integer_max")
    return [(s, a[1] if t else a[0]) for s, t in fork(ip, st, le(a[0], a[1]))]
@intr("integer_min")
def _imin(ip, st, a, ts, dest, ft):
    if len(a) != 2 or not all(isinstance(x, Lin) for x in a): raise Unsupported("integer_min")
    return [(s, a[0] if t else a[1]) for s, t in fork(ip, st, le(a[0], a[1]))]
def _sat(op):
    def h(ip, st, a, ts, dest, ft):
        x, y = a; ty = ts[0]; t = ip.T[ty]; n = t["bits"]
        l = add(x, y) if op == "+" else sub(x, y)
        if t["k"] != "uint": raise Unsupported("signed saturating")
        f = le(l, K((1 << n) - 1)) if op == "+" else le(K(0), l)
        return [(s, l if ok else K((1 << n) - 1 if op == "+" else 0)) for s, ok in fork(ip, st, f)]
    return h
INTR["saturating_add"] = _sat("+")
INTR["saturating_sub"] = _sat("-")
def _opq(name):
    def h(ip, st, a, ts, dest, ft):
        t = ip.T[dest[3]]
        at = atom(name, *[ip.canon(st, x) for x in a])
        return [(st, ip.mat(at, dest[3]))]
    return h
for _n in ("cttz_nonzero", "cttz", "ctlz", "ctlz_nonzero", "ctpop", "rotate_left", "rotate_right", "bswap"):
    INTR[_n] = _opq(_n)

# ------------------------------------------------------------------ helpers
def variant(ip, ty, name):
    for i, v in enumerate(ip.T[ty]["variants"]):
        if v["name"] == name: return i
    raise Unsupported("no variant %s of %s" % (name, ip.T[ty]["s"]))
def mk(ip, ty, name, *fs):
    return Agg(ty, variant(ip, ty, name), fs)
def ok_or_err(ip, st, ty, val, tag):
    """fork: Ok(val) / Err(opaque)"""
    i = variant(ip, ty, "Err")
    ety = ip.T[ty]["variants"][i]["fields"][0]
    s = st.copy()
    ok = pred(atom("succeeds", tag))
    out = []
    for x, t in fork(ip, st, ok):
        out.append((x, mk(ip, ty, "Ok", val) if t else mk(ip, ty, "Err", ip.mat(atom("err", tag), ety))))
    return out
def deref(ip, st, p, ty):
    to = ip.T[ty]["to"]
    return ip.read(st, p.root, p.path, p.off, to)

# ------------------------------------------------------------------ slices
@model(r"SlicePartialEq<.*>>::equal_same_length$")
def _esl(ip, st, c):
    to = ip.T[c.atys[0]]["to"]; n = scale(c.args[2], ip.size(to))
    if ip.T[to]["k"] not in ("uint", "int", "char", "bool") : return NotImplemented
    return [(st, bytes_eq(ip.slice_bytes(st, c.args[0], n), ip.slice_bytes(st, c.args[1], n)))]
@model(r"pinocchio::memory::sol_memcmp$")
def _memcmp(ip, st, c):
    n = c.args[2]
    p, q = c.args[0], c.args[1]
    return _cmpb(ip, st, [p, q, n], c.atys, c.dest, c.ft)
@model(r"SpecFill<u8>>::spec_fill$")
def _fill(ip, st, c):
    p, v = c.args
    fv = ("fill", v.const) if isinstance(v, Lin) and v.const is not None else ("fill", None, v)
    ip.store_bytes(st, p, p.meta, fv)
    return [(st, unit(ip, c.dest[3]))]
@model(r"SliceContains>::slice_contains$")
def _contains(ip, st, c):
    x = ip.canon(st, ip.carg(st, c.args[0], c.atys[0])); arr = ip.carg(st, c.args[1], c.atys[1])
    et = ip.T[c.atys[0]]["to"]
    if ip.T[et]["k"] == "ref":      # elements are references: equality is that of what they point at
        try: x = content_of(ip, st, c.args[0], c.atys[0])
        except Unsupported: pass
    s = c.args[1]; es = ip.size(et)
    if isinstance(s, Ptr) and isinstance(s.meta, Lin) and s.meta.const is not None and s.meta.const <= 16 and es and ip.T[et]["k"] != "ref":
        y = c.args[0]
        if isinstance(y, Ptr):
            a = ip.slice_bytes(st, y, K(es)); out = []; todo = [st]
            for i in range(s.meta.const):
                nxt = []
                for s1 in todo:
                    for s2, hit in fork(ip, s1, bytes_eq_any(a, ip.slice_bytes(s1, Ptr(s.root, s.path, addk(s.off, es * i), None), K(es)))):
                        if hit: out.append((s2, TRUE))
                        else: nxt.append(s2)
                todo = nxt
            return out + [(s1, FALSE) for s1 in todo]
    return [(st, pred(atom("contains", arr, x)))]

# ------------------------------------------------------------------ Vec
def vec_of(ip, st, v, ty):
    """resolve &Vec / &mut Vec / Vec argument to Vecv"""
    t = ip.T[ty]
    if t["k"] in ("ref", "ptr"): v = deref(ip, st, v, ty); ty = t["to"]
    if isinstance(v, Vecv): return v, ty
    raise Unsupported("not a Vec: %r" % (v,))
def elem(ip, vty): return ip.T[vty]["args"][0]
def newvec(ip, st, ty):
    n = st.fresh()
    rid = ("V", atom("vec", n))
    st.mem[rid] = Mem(("un",)); st.vlen[rid] = K(0)
    return Vecv(rid, ty)
def vlen(ip, st, v):
    n = st.vlen.get(v.rid)
    if n is None:
        n = st.vlen[v.rid] = V(atom("len", v.rid[1], lo=0, hi=U63))
    return n
@model(r"^std::vec::Vec::<.*>::(new|with_capacity)$")
def _vnew(ip, st, c): return [(st, newvec(ip, st, c.dest[3]))]
@model(r"^std::vec::Vec::<.*>::push$")
def _vpush(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0])
    et = elem(ip, vt); es = ip.size(et); n = vlen(ip, st, v)
    if es:
        st.mem[v.rid] = ip.tstore(st, ip.region_mem(st, v.rid), scale(n, es), et, c.args[1])
    st.vlen[v.rid] = addk(n, 1)
    st.event("push", v.rid, ip.canon(st, c.args[1], es), ip.site(st))
    return [(st, unit(ip, c.dest[3]))]
@model(r"^std::vec::Vec::<.*>::extend_from_slice$", r"^<std::vec::Vec<.*> as std::iter::Extend<&.*>>::extend::<&\[.*\]>$")
def _vext(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0])
    et = elem(ip, vt); es = ip.size(et); n = vlen(ip, st, v)
    p = c.args[1]
    m = p.meta if p.meta is not None else K(ip.T[ip.T[c.atys[1]]["to"]]["n"])
    vec_append(ip, st, v, es, p, m)
    return [(st, unit(ip, c.dest[3]))]
def vec_append(ip, st, v, es, p, m):
    n = vlen(ip, st, v)
    nb = scale(m, es)
    if nb.const != 0:
        ip.check_access(st, p.root, p.off, nb, "read")
        mem, o = ip.bytes_obj(st, p)
        r = ip.mload(st, mem, o, nb)
        if isinstance(r, ConstRef): r = r.bytes()
        val = r if isinstance(r, (Atom, bytes)) and not (isinstance(r, Atom) and r.op == "ldx") else Snap(mem, o)
        st.mem[v.rid] = ip.mstore(st, ip.region_mem(st, v.rid), scale(n, es), nb, val)
    st.vlen[v.rid] = add(n, m)
@model(r"^<std::vec::Vec<u8> as std::iter::Extend<u8>>::extend::<\[u8; \d+\]>$", r"^<std::vec::Vec<u8> as std::iter::Extend<u8>>::extend::<std::vec::Vec<u8>>$")
def _vextarr(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0])
    x = c.args[1]
    if isinstance(x, Vecv):
        vec_append(ip, st, v, 1, Ptr(x.rid, (), K(0), None), vlen(ip, st, x))
    else:
        n = vlen(ip, st, v)
        st.mem[v.rid] = ip.mstore(st, ip.region_mem(st, v.rid), n, K(x.n), ip.arr_bytes(st, x))
        st.vlen[v.rid] = addk(n, x.n)
    return [(st, unit(ip, c.dest[3]))]
@model(r"^<std::vec::Vec<.*> as std::iter::Extend<&.*>>::extend::<&std::vec::Vec<.*>>$")
def _vextvec(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0]); w, _ = vec_of(ip, st, c.args[1], c.atys[1])
    vec_append(ip, st, v, ip.size(elem(ip, vt)), Ptr(w.rid, (), K(0), None), vlen(ip, st, w))
    return [(st, unit(ip, c.dest[3]))]
@model(r"^std::vec::Vec::<.*>::append$")
def _vappend(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0]); w, _ = vec_of(ip, st, c.args[1], c.atys[1])
    vec_append(ip, st, v, ip.size(elem(ip, vt)), Ptr(w.rid, (), K(0), None), vlen(ip, st, w))
    st.vlen[w.rid] = K(0)
    return [(st, unit(ip, c.dest[3]))]
@model(r"^std::vec::Vec::<.*>::len$")
def _vlen(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0]); return [(st, vlen(ip, st, v))]
@model(r"^std::vec::Vec::<.*>::is_empty$")
def _vempty(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0]); return [(st, eq(vlen(ip, st, v)))]
@model(r"^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::<.*>::as_(mut_)?slice$",
       r"^std::vec::Vec::<.*>::as_(mut_)?ptr$", r"^<std::vec::Vec<.*> as std::convert::AsRef<\[.*\]>>::as_ref$")
def _vderef(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0])
    ip.region_mem(st, v.rid)
    fat = ip.is_fat(c.dest[3])
    return [(st, Ptr(v.rid, (), K(0), vlen(ip, st, v) if fat else None))]
@model(r"^<std::string::String as std::ops::Deref>::deref$", r"^std::string::String::as_(str|bytes)$")
def _strderef(ip, st, c):
    p = c.args[0]
    x = ip.read(st, p.root, p.path, p.off, ip.T[c.atys[0]]["to"])
    while isinstance(x, Agg): x = [y for y in x.f if not (isinstance(y, Agg) and not y.f)][0]
    if not isinstance(x, Vecv): raise Unsupported("String contents %r" % (x,))
    ip.region_mem(st, x.rid)
    return [(st, Ptr(x.rid, (), K(0), vlen(ip, st, x)))]
@model(r"^std::vec::from_elem::<u8>$")
def _velem(ip, st, c):
    v = newvec(ip, st, c.dest[3])
    x, n = c.args
    st.mem[v.rid] = Mem(("un",), ((K(0), n, ("fill", x.const) if x.const is not None else ("fill", None, x)),))
    st.vlen[v.rid] = n
    return [(st, v)]
@model(r"^std::slice::<impl \[.*\]>::to_vec$", r"^<\[.*\] as std::borrow::ToOwned>::to_owned$")
def _tovec(ip, st, c):
    v = newvec(ip, st, c.dest[3])
    vec_append(ip, st, v, ip.size(elem(ip, c.dest[3])), c.args[0], c.args[0].meta)
    return [(st, v)]
@model(r"^<std::vec::Vec<.*> as std::clone::Clone>::clone$")
def _vclone(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0])
    w = newvec(ip, st, c.dest[3])
    vec_append(ip, st, w, ip.size(elem(ip, vt)), Ptr(v.rid, (), K(0), None), vlen(ip, st, v))
    return [(st, w)]
@model(r"^<std::vec::Vec<.*> as std::iter::Extend<&.*>>::extend::<std::slice::Iter<.*>>$")
def _vextiter(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0])
    es = ip.size(elem(ip, vt)); p, n = iter_span(ip, st, c.args[1], c.atys[1])
    vec_append(ip, st, v, es, p, n)
    return [(st, unit(ip, c.dest[3]))]
def agg_field(ip, x, ty, name):
    v = ip.T[ty]["variants"][0]
    i = v["names"].index(name)
    return x.f[i], v["fields"][i]
def innermost(ip, x):
    while isinstance(x, Agg): x = [y for y in x.f if not (isinstance(y, Agg) and not y.f)][0]
    return x
def iter_span(ip, st, x, ty):
    """start pointer and element count of a slice iterator"""
    if not isinstance(x, Agg): raise Unsupported("iterator %r" % (x,))
    p = innermost(ip, agg_field(ip, x, ty, "ptr")[0]); e = innermost(ip, agg_field(ip, x, ty, "end_or_len")[0])
    es = ip.size(ip.T[ty]["args"][0])
    if not (isinstance(p, Ptr) and isinstance(e, Ptr) and p.root == e.root and es): raise Unsupported("iterator span")
    d = sub(e.off, p.off)
    n = ip.binop(st, "Div", d, K(es), ip.p.bystr["usize"]) if es > 1 else d
    return Ptr(p.root, p.path, p.off, None), n
@model(r"^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$")
def _vinto(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0])
    ty = c.dest[3]; es = ip.size(elem(ip, vt)); n = vlen(ip, st, v)
    if not es: return NotImplemented
    ip.region_mem(st, v.rid)
    vs = ip.T[ty]["variants"][0]; fs = []
    for nm, ft in zip(vs["names"], vs["fields"]):
        p = Ptr(v.rid, (), scale(n, es) if nm == "end" else K(0), None)
        fs.append(n if nm == "cap" else box_wrap(ip, ft, p) if ip.size(ft) else ip.zst(ft))
    return [(st, Agg(ty, 0, fs))]
@model(r"^std::boxed::box_assume_init_into_vec_unsafe::<")
def _boxvec(ip, st, c):
    v = newvec(ip, st, c.dest[3]); p = innermost(ip, c.args[0])
    t = ip.T[c.atys[0]]
    m = re.search(r"\[.*; (\d+)\]", t["s"])
    if not (isinstance(p, Ptr) and m): raise Unsupported("vec! of " + t["s"])
    vec_append(ip, st, v, ip.size(elem(ip, c.dest[3])), Ptr(p.root, p.path, p.off, None), K(int(m.group(1))))
    return [(st, v)]
@model(r"^std::vec::Vec::<.*>::clear$")
def _vclear(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0])
    st.vlen[v.rid] = K(0)
    return [(st, unit(ip, c.dest[3]))]
@model(r"^std::vec::Vec::<.*>::truncate$")
def _vtrunc(ip, st, c):
    v, vt = vec_of(ip, st, c.args[0], c.atys[0])
    n = vlen(ip, st, v); out = []
    for s, t in fork(ip, st, le(c.args[1], n)):
        if t: s.vlen[v.rid] = c.args[1]
        out.append((s, unit(ip, c.dest[3])))
    return out

# ------------------------------------------------------------------ maps
# A map's contents are not tracked: lookups answer anything; what is stored and asked is recorded.
MAP = r"^std::collections::(?:hash_map::|btree_map::)?(?:HashMap|BTreeMap)::<.*>::"
@model(MAP + r"(new|with_capacity)$")
def _mnew(ip, st, c):
    return [(st, ip.mat(atom("map", st.fresh()), c.dest[3]))]
def content_of(ip, st, v, ty):
    """content of a value, or of what a reference points at"""
    t = ip.T[ty]
    if t["k"] == "ref" and isinstance(v, Ptr): return content_of(ip, st, ip.read(st, v.root, v.path, v.off, t["to"]), t["to"])
    n = t["size"]
    m = ip.tstore(st, Mem(("un",)), K(0), ty, v)
    return ip.range_bytes(st, m, K(0), K(n)) if n else b""
@model(MAP + r"(get|get_mut|remove)::<.*>$")
def _mget(ip, st, c):
    k = content_of(ip, st, c.args[1], c.atys[1]); a = atom("mapget", st.fresh())
    st.event("mapget", k, a, ip.site(st))
    return [(st, ip.mat(a, c.dest[3]))]
@model(MAP + r"contains_key::<.*>$")
def _mhas(ip, st, c):
    k = content_of(ip, st, c.args[1], c.atys[1]); a = atom("mapget", st.fresh())
    st.event("mapget", k, a, ip.site(st))
    return [(st, pred(a))]
@model(MAP + r"insert$")
def _mset(ip, st, c):
    k = content_of(ip, st, c.args[1], c.atys[1]); a = atom("mapset", st.fresh())
    st.event("mapset", k, c.args[2], ip.site(st))
    return [(st, ip.mat(a, c.dest[3]))]
MAPE = r"^std::collections::(?:hash_map|btree_map)::(?:entry::)?"
@model(MAP + r"entry$")
def _mentry(ip, st, c):
    k = content_of(ip, st, c.args[1], c.atys[1]); a = atom("mapget", st.fresh())
    st.event("mapget", k, a, ip.site(st))
    if not hasattr(ip, "mapkeys"): ip.mapkeys = {}
    ip.mapkeys[a] = k
    ty = c.dest[3]; out = []
    for s, there in fork(ip, st, eq(V(atom("discr", a)), K(1))):
        i = variant(ip, ty, "Occupied" if there else "Vacant")
        out.append((s, Agg(ty, i, [ip.mat(atom("ent", a), ip.T[ty]["variants"][i]["fields"][0])])))
    return out
def entry_atom(x):
    """the lookup an entry comes from"""
    if isinstance(x, Atom):
        if x.op == "ent": return x.args[0]
        x = x.args
    elif isinstance(x, Agg): x = x.f
    elif isinstance(x, (Sym,)): x = (x.a,)
    elif isinstance(x, Lin): x = [a for a, _ in x.t]
    elif isinstance(x, Ptr): x = x.root
    elif isinstance(x, Vecv): x = x.rid
    elif not isinstance(x, (tuple, list)): return None
    for y in x:
        r = entry_atom(y)
        if r is not None: return r
@model(MAPE + r"OccupiedEntry::<.*>::(into_mut|get|get_mut)$")
def _mocc(ip, st, c):
    v = c.args[0] if ip.T[c.atys[0]]["k"] != "ref" else deref(ip, st, c.args[0], c.atys[0])
    a = entry_atom(v)
    if a is None: raise Unsupported("map entry")
    return [(st, ip.mat(atom("vf", a, 1, 0), c.dest[3]))]
@model(MAPE + r"VacantEntry::<.*>::insert$")
def _mvac(ip, st, c):
    a = entry_atom(c.args[0])
    if a is None: raise Unsupported("map entry")
    st.event("mapset", ip.mapkeys[a], c.args[1], ip.site(st))
    root = ("R", atom("box", st.fresh()))
    st.mem[root] = ip.tstore(st, Mem(("un",)), K(0), c.atys[1], c.args[1])
    return [(st, Ptr(root))]
@model(MAP + r"len$")
def _mlen(ip, st, c): return [(st, V(atom("maplen", st.fresh(), lo=0, hi=U63)))]

# ------------------------------------------------------------------ boxes, misc
@model(r"^std::boxed::Box::<.*>::new$")
def _box(ip, st, c):
    n = st.fresh()
    root = ("R", atom("box", n))
    ip_ty = c.atys[0]
    st.mem[root] = Mem(("un",))
    if ip.size(ip_ty): st.mem[root] = ip.tstore(st, st.mem[root], K(0), ip_ty, c.args[0])
    return [(st, box_wrap(ip, c.dest[3], Ptr(root)))]
@model(r"^std::boxed::Box::<.*>::new_uninit$")
def _boxu(ip, st, c):
    n = st.fresh()
    root = ("R", atom("box", n))
    st.mem[root] = Mem(("un",))
    return [(st, box_wrap(ip, c.dest[3], Ptr(root)))]
def box_wrap(ip, ty, p):
    t = ip.T[ty]
    if t["k"] in ("ref", "ptr"): return p
    fs = ip.sfields(ty)
    return Agg(ty, 0, [box_wrap(ip, x, p) if ip.size(x) else ip.zst(x) for x in fs])

@model(r"^pinocchio::log::sol_log", r"^std::ptr::drop_glue", r"^std::hint::assert_unchecked")
def _nopcall(ip, st, c): return [(st, unit(ip, c.dest[3]))]
@model(r"^std::mem::drop::")
def _drop(ip, st, c):
    if ip.has_guard(c.atys[0]): ip.drop_value(st, c.args[0], c.atys[0])
    return [(st, unit(ip, c.dest[3]))]
@model(r"^std::fmt::Arguments::", r"^core::fmt::rt::Argument::", r"^std::fmt::format", r"^std::hint::must_use::<std::string::String>")
def _fmt(ip, st, c):
    return [(st, ip.mat(atom("fmt", st.fresh()), c.dest[3]))]
@model(r"precondition_check$", r"^core::ub_checks::")
def _ub(ip, st, c): return [(st, unit(ip, c.dest[3]))]

# ------------------------------------------------------------------ chain environment
@model(r"Clock as pinocchio::sysvars::Sysvar>::get$")
def _clock(ip, st, c):
    ty = c.dest[3]
    i = variant(ip, ty, "Ok"); cty = ip.T[ty]["variants"][i]["fields"][0]
    return ok_or_err(ip, st, ty, ip.mat(atom("sym", "clock"), cty), "clock")
@model(r"Rent as pinocchio::sysvars::Sysvar>::get$")
def _rent(ip, st, c):
    ty = c.dest[3]
    i = variant(ip, ty, "Ok"); cty = ip.T[ty]["variants"][i]["fields"][0]
    return ok_or_err(ip, st, ty, ip.mat(atom("sym", "rent"), cty), "rent")
@model(r"^pinocchio::sysvars::rent::Rent::minimum_balance$")
def _minbal(ip, st, c):
    return [(st, V(atom("minbal", c.args[1], lo=0, hi=(1 << 64) - 1)))]

def seeds_term(ip, st, p):
    """content of a &[&[u8]] argument"""
    n = p.meta
    if n is None or n.const is None: raise Unsupported("seed list of unknown length")
    out = []
    ety = [i for i, t in enumerate(ip.T) if t["s"] == "&[u8]"]
    for i in range(n.c):
        q = ip.read(st, p.root, p.path, addk(p.off, 16 * i), ety[0])
        if not isinstance(q, Ptr): raise Unsupported("seed %r" % (q,))
        out.append((q.meta, ip.slice_bytes(st, q, q.meta)))
    return tuple(out)
@model(r"^pinocchio::pubkey::find_program_address$")
def _fpa(ip, st, c):
    try: s = seeds_term(ip, st, c.args[0])
    except Unsupported as e: s = ("?", st.fresh())
    pid = ip.carg(st, c.args[1], c.atys[1])
    a = atom("pda", s, pid)
    st.event("pda", s, pid, ip.site(st))
    return [(st, ip.mat(a, c.dest[3]))]
@model(r"^pinocchio::pubkey::create_program_address$")
def _cpa(ip, st, c):
    try: s = seeds_term(ip, st, c.args[0])
    except Unsupported as e: s = ("?", st.fresh())
    pid = ip.carg(st, c.args[1], c.atys[1])
    a = atom("cpda", s, pid)
    st.event("cpda", s, pid, ip.site(st))
    ty = c.dest[3]; i = variant(ip, ty, "Ok")
    return ok_or_err(ip, st, ty, ip.mat(a, ip.T[ty]["variants"][i]["fields"][0]), a)

# ------------------------------------------------------------------ on-chain syscalls
def iter_slices(ip, st, p, n):
    """contents of n consecutive &[u8] at p"""
    ety = ip.p.bystr["&[u8]"]
    out = []
    if n.const is None or n.c > 16: raise Unsupported("hash input list of unknown length")
    for i in range(n.c):
        q = ip.read(st, p.root, p.path, addk(p.off, 16 * i), ety)
        if not isinstance(q, Ptr): raise Unsupported("hash input %r" % (q,))
        out.append((q.meta, ip.slice_bytes(st, q, q.meta)))
    return tuple(out)
def hash_model(nm):
    def f(ip, st, c):
        n = c.args[1] if isinstance(c.args[1], Lin) else K(-1)
        parts = iter_slices(ip, st, c.args[0], st.facts.simp(n))
        a = atom(nm, parts)
        r = V(atom("rc", nm, st.fresh(), lo=0, hi=(1 << 64) - 1))
        ip.store_bytes(st, c.args[2], K(32), a)
        st.event("hash", nm, parts, a, single(r), ip.site(st))
        return [(st, r)]
    return f
model(r"^pinocchio::syscalls::sol_sha256$")(hash_model("sha256"))
model(r"^pinocchio::syscalls::sol_keccak256$")(hash_model("keccak256"))
@model(r"^pinocchio::syscalls::sol_secp256k1_recover$")
def _recover(ip, st, c):
    h = ip.slice_bytes(st, c.args[0], K(32)); sg = ip.slice_bytes(st, c.args[2], K(64))
    a = atom("recover", h, c.args[1], sg)
    r = V(atom("rc", "recover", st.fresh(), lo=0, hi=(1 << 64) - 1))
    ip.store_bytes(st, c.args[3], K(64), a)
    st.event("recover", h, c.args[1], sg, a, single(r), ip.site(st))
    return [(st, r)]
@model(r"^pinocchio::syscalls::sol_memcmp_$")
def _memcmpsys(ip, st, c):
    out = []
    i32 = ip.p.bystr["i32"]
    for s, v in _cmpb(ip, st, [c.args[0], c.args[1], c.args[2]], c.atys, c.dest, c.ft):
        q = c.args[3]
        ip.write(s, q.root, q.path, q.off, i32, v)
        out.append((s, unit(ip, c.dest[3])))
    return out
@model(r"^pinocchio::syscalls::sol_memset_$")
def _memsetsys(ip, st, c):
    return [(s, unit(ip, c.dest[3])) for s, _ in _wb(ip, st, [c.args[0], c.args[1], c.args[2]], [c.atys[0]], c.dest, c.ft)]
