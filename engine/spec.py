"""Checker framework: obligations over path summaries, reports, evidence."""
import json, os, sys, time, traceback
from . import dom, interp
from .dom import *
from .interp import Interp, Unsupported, Agg, Ptr, Sym, UN, Arr, Mem, Vecv
from .mir import Program, Missing, load, strip_generics

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_PAR = None
def _par_call(i): return _PAR(i)

class NeedDec(Exception):
    pass

def cases(st, specfn, limit=4096):
    """Evaluate a reference function against a path: every formula the reference asks about is
    decided by the path's facts or split on. Yields (state, result)."""
    todo = [()]
    n = 0
    while todo:
        dec = todo.pop()
        n += 1
        if n > limit: raise Unsupported("too many reference cases")
        s = st.copy()
        i = [0]
        def d(f):
            if s.facts.prove(f): return True
            if s.facts.prove(neg(f)): return False
            if i[0] < len(dec):
                v = dec[i[0]]; i[0] += 1
                s.assume(f if v else neg(f))
                return v
            raise NeedDec()
        try:
            r = specfn(d, s)
        except NeedDec:
            todo.append(dec + (False,)); todo.append(dec + (True,))
            continue
        if contradictory(s): continue
        yield s, r

def contradictory(st):
    return st.facts.bad or st.facts.contradiction()

class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.viol = {}          # key -> text
        self.nob = 0; self.nok = 0
        self.nproofs = {}
        self.fns = {}
        self.notes = []
        self.samples = []
        self.counts = {}
        self.assump = []
        self._prog = {}
        self.rules = []
        self.floors = []
    def prog(self, cfg="host"):
        if cfg not in self._prog: self._prog[cfg] = load(cfg)
        return self._prog[cfg]
    def interp(self, cfg="host", **kw):
        ip = Interp(self.prog(cfg), **kw)
        ip.wraps = cfg == "solana"      # release builds on chain have no overflow checks
        return ip
    def rule(self, s):
        if s not in self.rules: self.rules.append(s)
    def assume(self, s):
        if s not in self.assump: self.assump.append(s)
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def analysed(self, fn, n=1):
        name = fn["name"] if isinstance(fn, dict) else fn
        self.fns[name] = self.fns.get(name, 0) + n
    def done(self, ip):
        """record the functions the interpreter entered"""
        for k in ip.visited:
            f = ip.p.fns[k]
            if f.get("krate", "").startswith("swig"): self.analysed(f)
        for k, v in ip.unknown.items(): self.count("opaque call: " + strip_generics(k)[:80], v)
        self.count("basic blocks interpreted", ip.steps)
    def ob(self, ok, key, text, sample=None):
        """one obligation"""
        self.nob += 1
        if ok:
            self.nok += 1
            if sample and len(self.samples) < 12: self.samples.append(sample)
            return True
        self.violation(key, text)
        return False
    def violation(self, key, text):
        self.viol.setdefault(key, text)
    def par(self, items, f, jobs=8):
        """f(report, item) for every item, in forked workers; obligations and coverage are merged"""
        import multiprocessing as mp
        self.prog()
        items = list(items)
        ctx = mp.get_context("fork")
        global _PAR
        def work(i):
            R = Report(self.prop, self.tier, self.seed); R._prog = self._prog
            try:
                r = f(R, items[i]); err = None
            except Exception as e:
                r = None; err = (type(e).__name__, str(e), traceback.format_exc())
            return R.viol, R.nob, R.nok, R.fns, R.counts, R.samples, R.floors, R.rules, R.assump, r, err
        _PAR = work
        with ctx.Pool(min(jobs, len(items) or 1)) as pool:
            res = pool.map(_par_call, range(len(items)), chunksize=1)
        out = []
        for v, nob, nok, fns, counts, samples, floors, rules, assump, r, err in res:
            if err is not None:
                sys.stderr.write(err[2])
                raise (Missing if err[0] == "Missing" else Unsupported)(err[1])
            for k, t in v.items(): self.viol.setdefault(k, t)
            self.nob += nob; self.nok += nok
            for k, n in fns.items(): self.fns[k] = self.fns.get(k, 0) + n
            for k, n in counts.items(): self.count(k, n)
            self.samples = (self.samples + samples)[:12]
            self.floors += floors
            for x in rules: self.rule(x)
            for x in assump: self.assume(x)
            out.append(r)
        return out
    def floor(self, what, n, least):
        """fail closed when fewer instances than counted by hand are found"""
        self.floors.append((what, n, least))
        if n < least and not self.viol:
            raise Missing("%s: found %d, expected at least %d" % (what, n, least))
    def finish(self, level, explanation):
        known = load_known()
        kn = {k["key"]: k for k in known.get("findings", []) if k["property"] == self.prop}
        rd = os.path.join(VERIF, ".work", "replay")
        os.makedirs(rd, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"explanation": explanation, "rules": self.rules, "obligations": self.nob, "discharged": self.nok,
                           "functions_analysed": len(self.fns), "functions": sorted(strip_generics(n) for n in self.fns)[:200],
                           "counts": self.counts, "instance_floors": [{"what": a, "found": b, "least": c} for a, b, c in self.floors],
                           "samples": self.samples},
              "assumptions": self.assump, "wall_s": round(time.time() - self.t0, 3), "violations": 0}
        bad = 0
        lines = []
        for key, text in sorted(self.viol.items()):
            if key in kn:
                lines.append("KNOWN-FINDING: property=%s %s" % (self.prop, kn[key]["what"]))
                continue
            bad += 1
            p = os.path.join(rd, "%s-%d.txt" % (self.prop, bad))
            with open(p, "w") as f: f.write("property %s\nconstruct: %s\n%s\n" % (self.prop, key, text))
            lines.append("  %s: %s" % (key, text.split("\n")[0]))
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, p))
        ev["violations"] = bad
        ev["coverage"]["known_findings_reported"] = sum(1 for k in self.viol if k in kn)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d functions, %.1fs" % (self.prop, self.nob, self.nok, len(self.fns), time.time() - self.t0))
        for l in lines: print(l)
        return 1 if bad else 0

def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        with open(p) as f: return json.load(f)
    return {}

# ---------------------------------------------------------------- helpers over states
def describe(st, ip, extra=""):
    out = [extra] if extra else []
    out.append("path ends: %s %s" % (st.out, st.ret if st.out != "ret" else ""))
    out.append("facts:")
    for f in st.facts.lst: out.append("   " + fmt(f))
    ev = [e for e in st.events if e[0] in ("store", "panic", "oob", "dangling", "call")]
    for e in ev[-12:]: out.append("   event " + " ".join(fmt(x) if not isinstance(x, tuple) or e[0] == "call" else ip.site_str(x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], str) and isinstance(x[0][1], tuple) else str(x) for x in e[1:]))
    return "\n".join(out)

def site_fn(st, ip):
    for e in reversed(st.events):
        if e[0] in ("panic", "oob", "dangling"):
            for x in e:
                if isinstance(x, tuple) and x and isinstance(x[0], tuple): return ip.site_str(x)
    return ""

class Rec:
    """field access for the pointee of a reference argument"""
    def __init__(self, ip, ptr, ty):
        self.ip, self.p, self.ty = ip, ptr, ty
        t = ip.T[ty]; self.v = t["variants"][0]
        self.names = self.v["names"]
    def idx(self, name):
        if name not in self.names: raise Missing("field %s of %s" % (name, self.ip.T[self.ty]["s"]))
        return self.names.index(name)
    def get(self, st, name):
        i = self.idx(name)
        return self.ip.tload(st, self.ip.region_mem(st, self.p.root), addk(self.p.off, self.v["offs"][i]), self.v["fields"][i])
    def init(self, st, name):
        i = self.idx(name)
        s = st.copy(); s.mem = {k: v for k, v in s.mem.items() if k != self.p.root}
        return self.ip.tload(s, self.ip.region_mem(s, self.p.root), addk(self.p.off, self.v["offs"][i]), self.v["fields"][i])
    def canon(self, st, v, name):
        return self.ip.canon(st, v, self.ip.size(self.v["fields"][self.idx(name)]))

def same(ip, st, a, b, n=None):
    """provably equal values"""
    if isinstance(a, Lin) and isinstance(b, Lin): return st.facts.prove(eq(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple) and a and a[0] in ("c", "le", "eq", "ne", "p", "and", "or"):
        return a == b or (st.facts.prove(f_or(neg(a), b)) and st.facts.prove(f_or(a, neg(b))))
    x, y = ip.canon(st, a, n), ip.canon(st, b, n)
    if x is y or x == y: return True
    f = interp.bytes_eq_any(x, y)
    return st.facts.prove(f)

def vname(ip, v):
    """variant name of an enum value, None when unknown"""
    if isinstance(v, Agg): return ip.T[v.ty]["variants"][v.var or 0]["name"]
    return None
