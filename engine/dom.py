"""Value-numbering domain: interned symbolic terms, linear forms and a linear-inequality domain."""
from fractions import Fraction

_atoms = {}
_lins = {}
U63 = (1 << 63) - 1

class Atom:
    __slots__ = ("op", "args", "lo", "hi", "id", "vals", "_h")
    def __repr__(self):
        return fmt(self)
    def __lt__(self, o):
        return self.id < o.id

def _key(a):
    if isinstance(a, (Atom, Lin)):
        return ("#", a.__class__.__name__, a.id)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)

def atom(op, *args, lo=None, hi=None, vals=None):
    k = (op,) + tuple(_key(a) for a in args)
    r = _atoms.get(k)
    if r is None:
        r = Atom()
        r.op, r.args, r.lo, r.hi, r.vals = op, args, lo, hi, vals
        r.id = len(_atoms)
        _atoms[k] = r
    else:
        if lo is not None and r.lo is None: r.lo = lo
        if hi is not None and r.hi is None: r.hi = hi
        if vals is not None and r.vals is None: r.vals = vals
    return r

class Lin:
    __slots__ = ("c", "t", "id")
    def __repr__(self):
        return fmt(self)
    @property
    def const(self):
        return self.c if not self.t else None

def lin(c, terms=()):
    d = {}
    for a, k in terms:
        d[a] = d.get(a, 0) + k
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))
    key = (c, tuple((a.id, k) for a, k in t))
    r = _lins.get(key)
    if r is None:
        r = Lin()
        r.c, r.t = c, t
        r.id = len(_lins)
        _lins[key] = r
    return r

def K(c):
    return lin(c)
def V(a):
    return lin(0, ((a, 1),))
def add(x, y):
    return lin(x.c + y.c, x.t + y.t)
def scale(x, k):
    return lin(x.c * k, tuple((a, c * k) for a, c in x.t))
def sub(x, y):
    return add(x, scale(y, -1))
def addk(x, k):
    return lin(x.c + k, x.t)
def single(x):
    """the atom if x is exactly one atom"""
    if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        return x.t[0][0]
    return None

def atoms_of(x, acc=None):
    """direct atoms of a linear form / formula"""
    if acc is None: acc = set()
    if isinstance(x, Lin):
        for a, _ in x.t: acc.add(a)
    elif isinstance(x, tuple):
        if x[0] in ("le", "eq", "ne"): atoms_of(x[1], acc)
        elif x[0] == "p": acc.add(x[1])
        elif x[0] in ("and", "or"):
            for y in x[1:]: atoms_of(y, acc)
    return acc

def deep_atoms(x, acc=None):
    if acc is None: acc = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Atom):
            if y not in acc:
                acc.add(y)
                st.extend(y.args)
        elif isinstance(y, Lin):
            st.extend(a for a, _ in y.t)
        elif isinstance(y, tuple):
            st.extend(y)
    return acc

def bounds(x):
    lo = hi = x.c
    for a, k in x.t:
        l, h = a.lo, a.hi
        if k > 0:
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        else:
            lo = None if lo is None or h is None else lo + k * h
            hi = None if hi is None or l is None else hi + k * l
    return lo, hi

# ---- formulas -------------------------------------------------------------------------------
TRUE, FALSE = ("c", True), ("c", False)

def _norm(x):
    from math import gcd
    g = 0
    for _, k in x.t: g = gcd(g, abs(k))
    return g or 1

def le(x, y=None):
    """x <= y  (or x <= 0)"""
    if y is not None: x = sub(x, y)
    lo, hi = bounds(x)
    if hi is not None and hi <= 0: return TRUE
    if lo is not None and lo > 0: return FALSE
    if not x.t: return ("c", x.c <= 0)
    g = _norm(x)
    if g > 1:
        # integer tightening: sum g*k*a <= -c  ->  sum k*a <= floor(-c/g)
        x = lin(-((-x.c) // g), tuple((a, k // g) for a, k in x.t))
    return ("le", x)
def lt(x, y):
    return le(addk(x, 1), y)
def eq(x, y=None):
    if y is not None: x = sub(x, y)
    lo, hi = bounds(x)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return FALSE
    if not x.t: return ("c", x.c == 0)
    g = _norm(x)
    if g > 1:
        if x.c % g: return FALSE
        x = lin(x.c // g, tuple((a, k // g) for a, k in x.t))
    if x.t[0][1] < 0: x = scale(x, -1)
    v = x.t[0][0].vals
    if v is not None and len(x.t) == 1 and -x.c // x.t[0][1] not in v: return FALSE
    return ("eq", x)
def ne(x, y=None):
    return neg(eq(x, y))
def pred(a, pol=True):
    return ("p", a, pol)
def neg(f):
    k = f[0]
    if k == "c": return FALSE if f[1] else TRUE
    if k == "le": return le(addk(scale(f[1], -1), 1))
    if k == "eq": return ("ne", f[1])
    if k == "ne": return ("eq", f[1])
    if k == "p": return ("p", f[1], not f[2])
    if k == "and": return f_or(*[neg(x) for x in f[1:]])
    if k == "or": return f_and(*[neg(x) for x in f[1:]])
    raise ValueError(f)
def f_and(*fs):
    out = []
    for f in fs:
        if f == TRUE: continue
        if f == FALSE: return FALSE
        if f[0] == "and": out.extend(f[1:])
        else: out.append(f)
    if not out: return TRUE
    return out[0] if len(out) == 1 else ("and",) + tuple(out)
def f_or(*fs):
    out = []
    for f in fs:
        if f == FALSE: continue
        if f == TRUE: return TRUE
        if f[0] == "or": out.extend(f[1:])
        else: out.append(f)
    if not out: return FALSE
    return out[0] if len(out) == 1 else ("or",) + tuple(out)

def bytes_eq(a, b):
    """formula: two byte-string terms are equal"""
    if a is b: return TRUE
    if isinstance(a, bytes) and isinstance(b, bytes): return ("c", a == b)
    x, y = as_int(a), as_int(b)
    if x is not None and y is not None: return eq(x, y)
    ka, kb = _bk(a), _bk(b)
    if ka == kb: return TRUE
    if ka > kb: a, b = b, a
    return ("p", atom("beq", a, b), True)
def as_int(x):
    """little-endian integer denoted by a short byte string"""
    if isinstance(x, bytes): return K(int.from_bytes(x, "little")) if len(x) <= 16 else None
    if isinstance(x, Atom):
        if x.op == "le" and isinstance(x.args[0], Lin): return x.args[0]
        if x.op in ("ld", "sub") and x.args[-1].const in (1, 2, 4, 8, 16):
            if x.lo is None: x.lo, x.hi = 0, (1 << (8 * x.args[-1].const)) - 1
            return V(x)
    return None
def blen(x):
    if isinstance(x, bytes): return len(x)
    if isinstance(x, Atom) and x.op in ("ld", "sub"): return x.args[-1].const
    if isinstance(x, Atom) and x.op == "cat":
        return sum(n for n, _ in x.args) if all(isinstance(n, int) for n, _ in x.args) else None
    return None
def byte_at(x, i):
    """i-th byte of a content term"""
    if isinstance(x, bytes): return K(x[i]) if i < len(x) else None
    if not isinstance(x, Atom): return None
    if x.op == "ld": a = atom("ld", x.args[0], x.args[1], add(x.args[2], K(i)), K(1))
    elif x.op == "sub": a = atom("sub", x.args[0], add(x.args[1], K(i)), K(1))
    elif x.op == "cat":
        for n, y in x.args:
            if not isinstance(n, int): return None
            if i < n: return byte_at(y, i)
            i -= n
        return None
    else: return None
    if a.lo is None: a.lo, a.hi = 0, 255
    return V(a)
def _bk(x):
    if isinstance(x, bytes): return (0, x.hex())
    return (1, str(_key(x)))

# ---- entailment: polyhedral domain ----------------------------------------------------------

def _infeasible(cons):
    """cons: list of Lin meaning lin <= 0 over rationals. True when the system has no solution.
    Bounded-variable elimination first, then phase-1 simplex with exact arithmetic."""
    vs = {}
    rows = []
    for x in cons:
        if not x.t:
            if x.c > 0: return True
            continue
        rows.append(x)
        for a, _ in x.t:
            if a not in vs: vs[a] = len(vs)
    if not rows: return False
    # shift every variable to be >= 0; variables without a lower bound are split in two
    idx = {}
    n = 0
    for a in vs:
        if a.lo is None:
            idx[a] = (n, n + 1); n += 2
        else:
            idx[a] = (n, None); n += 1
    A, B = [], []
    for x in rows:
        r = {}
        b = -x.c
        for a, k in x.t:
            i, j = idx[a]
            r[i] = r.get(i, 0) + k
            if j is not None: r[j] = r.get(j, 0) - k
            elif a.lo: b -= k * a.lo
        A.append(r); B.append(b)
    big = any(abs(x.c) >= (1 << 60) for x in rows)
    for a in vs:
        if a.hi is not None and (big or a.hi < (1 << 62)):
            i, j = idx[a]
            r = {i: 1}
            b = a.hi
            if j is not None: r[j] = -1
            elif a.lo: b -= a.lo
            A.append(r); B.append(b)
    return not _lp_feasible(A, B, n)

def _div(a, b):
    if b == 1: return a
    if b == -1: return -a
    r = Fraction(a, b) if isinstance(a, int) and isinstance(b, int) else Fraction(a) / b
    return r.numerator if r.denominator == 1 else r

def _lp_feasible(A, B, n):
    """exact sparse dual simplex (objective 0 is dual feasible), Bland's rule"""
    m = len(A)
    if all(b >= 0 for b in B): return True
    T = [dict(r) for r in A]
    R = list(B)
    nb = list(range(n))
    bs = list(range(n, n + m))
    it = 0
    while True:
        r = -1
        for i in range(m):
            if R[i] < 0 and (r < 0 or bs[i] < bs[r]): r = i
        if r < 0: return True
        row = T[r]
        ent = None
        for j, v in row.items():
            if v < 0 and (ent is None or nb[j] < nb[ent]): ent = j
        if ent is None: return False
        it += 1
        if it > 400: return True
        p = row[ent]
        new = {j: _div(v, p) for j, v in row.items() if j != ent}
        rb = _div(R[r], p)
        inv = _div(1, p)
        for i in range(m):
            if i == r: continue
            Ti = T[i]
            f = Ti.get(ent)
            if not f: continue
            del Ti[ent]
            for j, v in new.items():
                w = Ti.get(j, 0) - f * v
                if w: Ti[j] = w
                elif j in Ti: del Ti[j]
            w = -f * inv
            if w: Ti[ent] = w
            R[i] = R[i] - f * rb
        new[ent] = inv
        T[r] = new; R[r] = rb
        bs[r], nb[ent] = nb[ent], bs[r]

class Facts:
    """Persistent conjunction of formulas."""
    __slots__ = ("fs", "lst", "cache", "bad")
    def __init__(self):
        self.fs = frozenset()
        self.lst = ()
        self.cache = {}
        self.bad = False
    def copy_add(self, *new):
        out = Facts.__new__(Facts)
        fs = set(self.fs); lst = list(self.lst); bad = self.bad
        for f in new:
            for g in (f[1:] if f[0] == "and" else (f,)):
                if g == TRUE or g in fs: continue
                if g == FALSE: bad = True
                fs.add(g); lst.append(g)
        out.fs, out.lst, out.cache, out.bad = frozenset(fs), tuple(lst), {}, bad
        return out
    def quick(self, f):
        if f[0] == "c": return f[1]
        if f in self.fs: return True
        if neg(f) in self.fs: return False
        return None
    def simp(self, x):
        """x, or the constant an equality fact gives it"""
        if not x.t: return x
        neg_t = tuple((a, -k) for a, k in x.t)
        for g in self.lst:
            if g[0] == "eq":
                y = g[1]
                if y.t == x.t: return lin(x.c - y.c)
                if y.t == neg_t: return lin(x.c + y.c)
        return x
    def prove(self, f):
        k = f[0]
        if self.bad: return True
        if k == "c": return f[1]
        if k == "and": return all(self.prove(x) for x in f[1:])
        if k == "or": 
            if f in self.fs: return True
            return any(self.prove(x) for x in f[1:])
        if f in self.fs: return True
        if f in self.cache: return self.cache[f]
        r = self._prove(f)
        self.cache[f] = r
        return r
    def _prove(self, f):
        k = f[0]
        if k == "p":
            if neg(f) in self.fs: return False
            return self._pred_eq(f)
        x = f[1]
        if k == "le":
            return self._unsat(le_neg(x), x)
        if k in ("eq", "ne"):
            r = self._bytewise_word(k, x)
            if r is not None: return r
        if k == "eq":
            if neg(f) in self.fs: return False
            return self._unsat(le_neg(x), x) and self._unsat(le_neg(scale(x, -1)), x)
        if k == "ne":
            if neg(f) in self.fs: return False
            return self._unsat_many([x, scale(x, -1)], x)
        return False
    def _byte_atoms(self):
        """single content bytes the facts speak about"""
        r = self.cache.get("#bytes")
        if r is None:
            r = set()
            for g in self.lst:
                if g[0] in ("eq", "ne"):
                    for a, _ in g[1].t:
                        if a.op in ("ld", "sub") and a.args[-1].const == 1: r.add(a)
            self.cache["#bytes"] = r
        return r
    def _bytewise(self, want_eq, a, b, n):
        """equality of two byte strings from facts on their single bytes"""
        known = self._byte_atoms()
        if not known: return None
        for i in range(n):
            x, y = byte_at(a, i), byte_at(b, i)
            if x is None or y is None: return None
            hit = any(t in known for v in (x, y) for t, _ in v.t)
            if want_eq:
                if x is y: continue
                if not hit or not self.prove(eq(x, y)): return None
            elif hit and neg(eq(x, y)) in self.fs: return True
        return True if want_eq else None
    def _bytewise_word(self, k, x):
        if not 1 <= len(x.t) <= 2 or not self._byte_atoms(): return None
        if any(a.op not in ("ld", "sub") or abs(c) != 1 for a, c in x.t): return None
        n = x.t[0][0].args[-1].const
        if n not in (2, 4, 8, 16): return None
        if len(x.t) == 1:
            c = -x.c * x.t[0][1]
            if not 0 <= c < 1 << (8 * n): return None
            return self._bytewise(k == "eq", x.t[0][0], c.to_bytes(n, "little"), n)
        (a, i), (b, j) = x.t
        if x.c or i + j or b.args[-1].const != n: return None
        return self._bytewise(k == "eq", a, b, n)
    def _pred_eq(self, f):
        """transitivity of byte equality"""
        a = f[1]
        if a.op != "beq": return False
        p, q = a.args
        if f[2] and isinstance(p, Atom) and isinstance(q, Atom) and p.op == "ld" == q.op and p.args[:2] == q.args[:2] and self.prove(eq(p.args[2], q.args[2])) and self.prove(eq(p.args[3], q.args[3])): return True
        n = blen(p) if blen(p) is not None else blen(q)
        if n is not None and n <= 64 and self._bytewise(f[2], p, q, n): return True
        groups = {}
        def find(x):
            while groups.get(x, x) != x: x = groups[x]
            return x
        nes = []
        for g in self.fs:
            if g[0] == "p" and g[1].op == "beq":
                x, y = g[1].args
                x, y = _hk(x), _hk(y)
                if g[2]:
                    rx, ry = find(x), find(y)
                    if rx != ry: groups[rx] = ry
                else: nes.append((x, y))
        x, y = find(_hk(a.args[0])), find(_hk(a.args[1]))
        if f[2]: return x == y
        for u, v in nes:
            u, v = find(u), find(v)
            if (u, v) in ((x, y), (y, x)): return True
        # distinct constants in the groups
        return False
    def _rel(self, goal):
        """linear facts connected with the atoms of goal"""
        want = set(a for a, _ in goal.t)
        lins = [(g, g[1]) for g in self.lst if g[0] in ("le", "eq", "ne")]
        out = []
        used = set()
        changed = True
        rounds = 0
        while changed and rounds < 6 and len(out) < 90:
            changed = False
            rounds += 1
            for i, (g, x) in enumerate(lins):
                if i in used: continue
                if any(a in want for a, _ in x.t):
                    used.add(i); out.append(g); changed = True
                    for a, _ in x.t:
                        if a not in want:
                            want.add(a)
            for a in list(want):
                if a.op in DERIVED:
                    for y in a.args:
                        if isinstance(y, Lin):
                            for b, _ in y.t:
                                if b not in want: want.add(b); changed = True
        return out, want
    def trunc_eqs(self, want):
        """truncations that lose nothing under these facts"""
        out = []
        for a in want:
            if a.op != "trunc" or not isinstance(a.args[1], int): continue
            k = ("tr", a)
            r = self.cache.get(k)
            if r is None:
                self.cache[k] = False
                x = a.args[0]
                r = self.prove(le(K(0), x)) and self.prove(le(x, K((1 << a.args[1]) - 1))) if (a.lo or 0) >= 0 else False
                self.cache[k] = r
            if r:
                d = sub(V(a), a.args[0]); out.append(d); out.append(scale(d, -1))
        return out
    def _unsat(self, neggoal, goal):
        return self._unsat_many([neggoal], goal)
    def _unsat_many(self, negs, goal):
        rel, want = self._rel(goal)
        cons = list(negs)
        if len(negs) == 2:
            pass
        nes = []
        for g in rel:
            if g[0] == "le": cons.append(g[1])
            elif g[0] == "eq": cons.append(g[1]); cons.append(scale(g[1], -1))
            else: nes.append(g[1])
        for a in want:
            cons.extend(axioms(a))
        cons.extend(self.trunc_eqs(want))
        if nes: cons.extend(tighten(cons, nes))
        if _infeasible(cons): return True
        if nes:
            gat = set(a for a, _ in goal.t)
            nes = [x for x in nes if any(a in gat for a, _ in x.t)][:3] or nes[:2]
            return self._split(cons, nes)
        return False
    def _split(self, cons, nes):
        if not nes: return False
        x = nes[0]
        for c in (addk(x, 1), addk(scale(x, -1), 1)):
            cc = cons + [c]
            if not _infeasible(cc) and not self._split(cc, nes[1:]): return False
        return True
    def contradiction(self):
        """the conjunction is unsatisfiable in the domain"""
        if self.bad: return True
        if "x" in self.cache: return self.cache["x"]
        r = False
        lins = [g for g in self.lst if g[0] in ("le", "eq", "ne")]
        seen = set()
        for g in lins:
            if g in seen: continue
            rel, want = self._rel(g[1])
            seen.update(rel); seen.add(g)
            cons = []; nes = []
            for h in rel:
                if h[0] == "le": cons.append(h[1])
                elif h[0] == "eq": cons.append(h[1]); cons.append(scale(h[1], -1))
                else: nes.append(h[1])
            for a in want: cons.extend(axioms(a))
            cons.extend(self.trunc_eqs(want))
            if nes: cons.extend(tighten(cons, nes))
            if _infeasible(cons) or (nes and self._split(cons, nes[:4])): r = True; break
        if not r:
            for g in self.lst:
                if g[0] == "p" and neg(g) in self.fs: r = True
                if g[0] == "p" and not g[2] and self._pred_eq(neg(g)): r = True
                if g[0] == "or" and all(self.prove(neg(x)) for x in g[1:]): r = True
        self.cache["x"] = r
        return r
    def infeasible(self):
        if self.bad: return True
        return False
    def consistent(self, f):
        """False when f contradicts the facts"""
        return not self.prove(neg(f))

DERIVED = {"trunc", "divmul", "div", "rem", "band"}

def tighten(cons, nes):
    """interval propagation of disequalities over equal linear forms"""
    def norm(x):
        t = x.t
        if t and t[0][1] < 0: return tuple((a, -k) for a, k in t), -1
        return t, 1
    iv = {}
    keys = {}
    for x in nes:
        if not x.t: continue
        t, sg = norm(x); keys.setdefault(t, set()).add(-x.c * sg)
    if not keys: return []
    for t in keys:
        if len(t) == 1 and t[0][1] == 1: iv[t] = [t[0][0].lo, t[0][0].hi]
        else: iv[t] = [None, None]
    for x in cons:
        if not x.t: continue
        t, sg = norm(x)
        if t not in keys: continue
        v = iv[t]
        if sg == 1:      # t + c <= 0
            if v[1] is None or -x.c < v[1]: v[1] = -x.c
        else:            # -t + c <= 0 : t >= c
            if v[0] is None or x.c > v[0]: v[0] = x.c
    out = []
    for t, ks in keys.items():
        lo, hi = iv[t]; l0, h0 = lo, hi
        while lo is not None and lo in ks: lo += 1
        while hi is not None and hi in ks: hi -= 1
        if lo != l0: out.append(lin(lo, tuple((a, -k) for a, k in t)))
        if hi != h0: out.append(lin(-hi, t))
    return out

def _hk(x):
    return x if isinstance(x, bytes) else x

def le_neg(x):
    """negation of x<=0 as a constraint lin<=0: x>=1"""
    return addk(scale(x, -1), 1)

def axioms(a):
    """linear facts that define derived atoms"""
    out = []
    if a.op == "divmul":      # (x / w) * w
        x, w = a.args
        out.append(sub(V(a), x))                       # <= x
        out.append(addk(sub(sub(x, V(a)), w), 1))      # x - q*w <= w-1
    elif a.op == "div":
        x, w = a.args
        if isinstance(w, Lin) and w.const:
            c = w.const
            out.append(sub(scale(V(a), c), x))
            out.append(addk(sub(x, scale(V(a), c)), -(c - 1)))
        else:
            out.append(sub(V(a), x))
    elif a.op == "rem":
        x, w = a.args
        if isinstance(w, Lin):
            out.append(addk(sub(V(a), w), 1))
        out.append(sub(V(a), x))
    elif a.op == "band":
        for y in a.args:
            if isinstance(y, Lin): out.append(sub(V(a), y))
    return out

# ---- printing -------------------------------------------------------------------------------
def fmt(x, d=0):
    if d > 7: return "…"
    if isinstance(x, Lin):
        parts = []
        for a, k in x.t:
            s = fmt(a, d + 1)
            parts.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + s)
        if x.c or not parts: parts.append(str(x.c))
        return "+".join(parts).replace("+-", "-")
    if isinstance(x, Atom):
        if x.op == "sym": return str(x.args[0])
        if x.op == "ld":
            reg, ep, off, n = x.args
            return "%s%s[%s;%s]" % (fmt(reg, d + 1), "" if ep == 0 else "@%s" % (ep,), fmt(off, d + 1), fmt(n, d + 1))
        return "%s(%s)" % (x.op, ", ".join(fmt(y, d + 1) for y in x.args))
    if isinstance(x, bytes):
        return "0x" + x.hex() if len(x) <= 40 else "0x%s…" % x[:40].hex()
    if isinstance(x, tuple):
        if x and x[0] == "le": return "%s <= 0" % fmt(x[1], d + 1)
        if x and x[0] == "eq": return "%s == 0" % fmt(x[1], d + 1)
        if x and x[0] == "ne": return "%s != 0" % fmt(x[1], d + 1)
        if x and x[0] == "p": return ("" if x[2] else "!") + fmt(x[1], d + 1)
        if x and x[0] == "c": return str(x[1])
        return "(" + ",".join(fmt(y, d + 1) for y in x) + ")"
    return str(x)
