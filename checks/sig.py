"""P09-P12: off-chain signature authentication (secp256k1, secp256r1), on-chain configuration."""
from engine.spec import *
from .lookup import ldv
from .limits import outcome
from .auth import self_rec, length_of, account, fields_same, PROBE

K1 = ["Secp256k1Authority", "Secp256k1SessionAuthority"]
R1 = ["Secp256r1Authority", "Secp256r1SessionAuthority"]
MIN = {"k1": 77, "r1": 17}
MAX_AGE, MAX_ACCOUNTS, ACC = 60, 64, 40
SYSVAR_INSTRUCTIONS = bytes.fromhex("06a7d517187bd16635dad40455fdc2c0c124c68f215675a5dbbacb5f08000000")
SECP256R1 = bytes.fromhex("06920dec2fea71b5b723814d742da9031c83e75fdb795d568e75478020000000")
PAY, DATA, RECORD = ("R", atom("sym", "a2")), ("R", atom("sym", "a3")), ("R", atom("sym", "a0"))
NOW = V(atom("sym", "a4"))

def kind_of(ty): return "k1" if ty in K1 else "r1"

def message_builders(P):
    """functions turning the request hash into another message: (bytes, [u8;32], &mut bytes) -> Result<&[u8]>; analysed on their own (P13)"""
    out = []
    for k, f in P.fns.items():
        if not f.get("krate", "").startswith("swig_state"): continue
        t = [P.types[i]["s"] for i in f["locals"][:f["argc"] + 1]]
        if t[0].startswith("std::result::Result<&[u8],") and "[u8; 32]" in t[1:] and "&mut [u8]" in t[1:]: out.append(f["name"])
    return out

def rx(names):
    import re
    return ["^" + re.escape(n) for n in names]

def runs(R, ty):
    """(interpreter, function, paths) of the on-chain authenticate of one kind"""
    P = R.prog("solana")
    fn = P.one(r"^probe::%s::authenticate$" % PROBE[ty])
    ip = R.interp("solana", opaque=rx(message_builders(P)))
    paths = [s for s in ip.run(fn) if not contradictory(s)]
    R.done(ip); R.count("paths", len(paths))
    return ip, fn, paths

def each(R, f):
    R.prog("solana")
    def g(R, ty):
        ip, fn, paths = runs(R, ty)
        rec = self_rec(ip, fn); nok = 0
        for s in paths:
            got = outcome(ip, s)
            if got == "Ok": nok += 1
            f(R, ip, ty, rec, s, got, ty + "::authenticate")
        R.floor("accepting paths of %s::authenticate" % ty, nok, 1)
    R.par(K1 + R1, g)

def p09(R):
    R.rule("Every Ok path of the four off-chain signature routines: payload[8..12] == stored counter + 1 (either reading of the wrap), the record's counter ends as that value, every other field keeps its bytes, and the same four bytes are a part of the hashed input. Every Err path: the record keeps all its bytes.")
    def f(R, ip, ty, rec, s, got, key):
        ctr = V(ldv(PAY, K(8), 4))
        if got == "Ok":
            old = rec.init(s, "signature_odometer")
            w = lambda x: V(atom("wrap", x, 32))
            ok = any(s.facts.prove(f) for f in (eq(ctr, addk(old, 1)), eq(ctr, w(addk(old, 1))), eq(w(addk(ctr, -1)), old), eq(w(sub(ctr, old)), K(1)), eq(w(sub(old, ctr)), K((1 << 32) - 1))))
            R.ob(ok, key + " counter accepted", describe(s, ip, key + ": succeeds without the payload counter being exactly stored counter + 1"), sample={"function": key, "result": got, "path": [fmt(x) for x in s.facts.lst][:12]})
            R.ob(same(ip, s, rec.get(s, "signature_odometer"), ctr), key + " counter stored", describe(s, ip, "%s: succeeds leaving the stored counter at %s, not the counter used" % (key, fmt(rec.get(s, "signature_odometer")))))
            hs = [e for e in s.events if e[0] == "hash"]
            R.ob(any(any(c is ldv(PAY, K(8), 4) for _, c in flat(e[2])) for e in hs), key + " counter hashed", describe(s, ip, key + ": the counter that is checked is not part of the hashed input"))
        else:
            if got != "Err": R.count("aborting paths")
        fields_same(R, ip, s, rec, key, key, "on a successful path" if got == "Ok" else "although authentication fails", ("signature_odometer",) if got == "Ok" else ())
    each(R, f)
    return R.finish("other", "Path-partitioned abstract interpretation, on-chain configuration, of the secp256k1 and secp256r1 authentication routines with and without sessions: counter test, counter store and counter in the hashed bytes on every path, for all records, payloads, requests and up to 64 accounts (more are refused).")

def p10(R):
    R.rule("Every Ok path: payload length >= 77 (secp256k1) / 17 (secp256r1), signature slot (payload[0..8]) <= current slot, and current slot - signature slot <= 60.")
    def f(R, ip, ty, rec, s, got, key):
        if got != "Ok": return
        slot = V(ldv(PAY, K(0), 8)); n = MIN[kind_of(ty)]
        R.ob(s.facts.prove(le(K(n), length_of(2))), key + " payload length", describe(s, ip, "%s: succeeds with a payload that may be shorter than %d bytes" % (key, n)))
        R.ob(s.facts.prove(le(slot, NOW)), key + " future slot", describe(s, ip, key + ": succeeds for a signature dated after the current slot"))
        R.ob(s.facts.prove(le(NOW, addk(slot, MAX_AGE))), key + " stale slot", describe(s, ip, key + ": succeeds for a signature older than %d slots" % MAX_AGE),
             sample={"function": key, "path": [fmt(x) for x in s.facts.lst][:12]})
    each(R, f)
    return R.finish("other", "Path-partitioned abstract interpretation, on-chain configuration, of the four off-chain signature routines: length and age facts that hold on every successful path.")

# ---------------------------------------------------------------- hashed bytes
def flat(parts):
    out = []
    for n, c in parts:
        if isinstance(n, int): n = K(n)
        if n.const == 0: continue
        if isinstance(c, Atom) and c.op == "cat": out.extend((K(m), x) for m, x in c.args)
        else: out.append((n, c))
    return out

def flag(ip, s, c, acc, off):
    """is c one byte that is 1 when the account flag is set and 0 when not"""
    byte = V(ldv(acc, K(off), 1))
    x = as_int(c)
    if x is None: return False
    if x is byte or s.facts.prove(eq(x, byte)): return True
    return x is ip.bool_int(ne(byte)) or s.facts.prove(eq(x, ip.bool_int(ne(byte))))

def request_parts(R, ip, s, parts, key):
    """the fixed layout: request, 40 bytes per account, slot, counter. Returns an error text or None"""
    p = flat([(m, c) for m, c in parts if isinstance(m, int) or m.const is not None or not s.facts.prove(eq(m, K(0))) or m is length_of(3)])
    n = None
    for k in range(MAX_ACCOUNTS + 1):
        if s.facts.prove(eq(length_of(1), K(k))): n = k; break
    if n is None: return "the number of accounts covered by the hash is not fixed by the path (more than %d possible)" % MAX_ACCOUNTS
    i = 0
    def take(want, what):
        nonlocal i
        if i < len(p) and p[i][1] is want: i += 1; return None
        return "%s is not hashed in its place (found %s)" % (what, fmt(p[i][1])[:120] if i < len(p) else "nothing")
    if not s.facts.prove(eq(length_of(3), K(0))):
        e = take(atom("ld", DATA, 0, K(0), length_of(3)), "the whole request")
        if e: return e
        if p[0][0] is not length_of(3): return "only a part of the request is hashed"
    for k in range(n):
        acc = account(K(k), 1)
        e = take(ldv(acc, K(8), 32), "the key of account %d" % k)
        if e: return e
        for off, what in ((2, "writable"), (1, "signer")):
            if not (i < len(p) and p[i][0].const == 1 and flag(ip, s, p[i][1], acc, off)): return "the %s flag of account %d is not hashed in its place" % (what, k)
            i += 1
        if not (i < len(p) and p[i][0].const == ACC - 34 and isinstance(p[i][1], bytes)): return "account %d is not padded to a fixed width" % k
        i += 1
    e = take(ldv(PAY, K(0), 8), "the signature slot") or take(ldv(PAY, K(8), 4), "the counter")
    if e: return e
    if i != len(p): return "unexpected extra bytes are hashed"
    return None

def hex_of(ip, s, pieces, h):
    """64 one-byte pieces spelling h in hexadecimal"""
    if len(pieces) != 64: return "hex text of %d pieces" % len(pieces)
    for i, (n, c) in enumerate(pieces):
        byte = as_int(ip.sub_bytes(h, K(i // 2), K(1)))
        want = V(atom("rem" if i % 2 else "div", byte, K(16)))
        if not (n.const == 1 and isinstance(c, Atom) and c.op == "ld" and c.args[0][0] == "C"): return "byte %d is not looked up in a constant table" % i
        tab = ip.p.allocs[c.args[0][1]]["a"]["b"]
        if len(tab) != 16 or None in tab or len(set(tab)) != 16: return "the digit table is not injective"
        if not (c.args[2] is want or nibble(c.args[2], byte, i % 2)): return "byte %d does not spell its nibble (%s)" % (i, fmt(c.args[2]))
    return None

def nibble(x, byte, low):
    a = single(x)
    return a is not None and a.op == ("rem" if low else "div") and a.args[1] == K(16) and a.args[0] is byte

def p11(R):
    R.rule("Every Ok path hashes exactly request | 40 bytes per account (key, writable flag, signer flag, constant padding) | slot | counter, in that order; secp256k1: the second hash covers the caller's prefix and the injective hex text of the first, the key is recovered from that hash and the signature bytes of the payload, its compressed form equals the stored key and a high-S signature is refused; secp256r1: that hash (or the assertion message built from it) is what the verified message is compared with. Every hash call's result code is checked. Paths with more than 64 accounts end in Err.")
    R.assume("sol_sha256, sol_keccak256 and sol_secp256k1_recover compute what they name; collision resistance of the hashes")
    def f(R, ip, ty, rec, s, got, key):
        if got != "Ok": return
        hs = [e for e in s.events if e[0] == "hash"]
        for e in hs: R.ob(s.facts.prove(eq(V(e[4]), K(0))), key + " ignores a hash failure", describe(s, ip, key + ": succeeds although %s may have failed" % e[1]))
        want = "sha256" if kind_of(ty) == "k1" else "keccak256"
        first = [e for e in hs if e[1] == want][:1]
        if not R.ob(bool(first), key + " no hash", describe(s, ip, key + ": succeeds without hashing the request")): return
        err = request_parts(R, ip, s, first[0][2], key)
        R.ob(err is None, key + " hashed bytes", describe(s, ip, "%s: %s" % (key, err)), sample={"function": key, "hash": want, "parts": [fmt(c)[:60] for _, c in flat(first[0][2])][:8]})
        h = first[0][3]
        if kind_of(ty) == "r1":
            msgs = [e for e in s.events if e[0] == "call" and any(m in e[1] or e[1] in m for m in builders)]
            if msgs: R.ob(any(h in e[2] for e in msgs), key + " assertion hash", describe(s, ip, key + ": the assertion message is not built from the request hash"))
            else: R.ob(any(any(h in deep(x) for x in atoms_f(c)) for c in s.facts.lst), key + " message", describe(s, ip, key + ": the request hash is not what the verified message is compared with"))
            return
        kec = [e for e in hs if e[1] == "keccak256"]; rcv = [e for e in s.events if e[0] == "recover"]
        if not R.ob(len(kec) == 1 and len(rcv) == 1, key + " recovery", describe(s, ip, key + ": succeeds without recovering a key from the hash")): return
        p = flat(kec[0][2])
        pre = atom("ld", PAY, 0, K(77), addk(length_of(2), -77))
        if p and p[0][1] is pre: p = p[1:]
        elif not s.facts.prove(eq(length_of(2), K(77))):
            R.ob(False, key + " prefix", describe(s, ip, key + ": the second hash does not start with the signer's prefix"))
        err = hex_of(ip, s, p, h)
        R.ob(err is None, key + " second hash", describe(s, ip, "%s: the second hash does not cover the request hash: %s" % (key, err)))
        _, hh, rid, sg, ra, rc, site = rcv[0]
        R.ob(hh is kec[0][3], key + " recovery hash", describe(s, ip, key + ": the key is recovered from something other than the computed hash"))
        R.ob(sg is ldv(PAY, K(12), 64), key + " recovery signature", describe(s, ip, key + ": the key is not recovered from the payload's signature bytes"))
        R.ob(s.facts.prove(eq(V(rc), K(0))), key + " recovery result", describe(s, ip, key + ": succeeds although key recovery may have failed"))
        x = ip.sub_bytes(ra, K(0), K(32)); par = as_int(ip.sub_bytes(ra, K(63), K(1)))
        ok = False
        for odd in (0, 1):
            if s.facts.prove(eq(V(atom("rem", par, K(2), lo=0, hi=1)), K(odd))):
                ok = s.facts.prove(bytes_eq(ip.cat(s, [(1, bytes([2 + odd])), (32, x)]), ldv(RECORD, K(rec.v["offs"][rec.idx("public_key")]), 33)))
        R.ob(ok, key + " key", describe(s, ip, key + ": succeeds without the recovered key (compressed) equal to the stored key"))
        hi = [e for e in s.events if e[0] == "call" and e[1].endswith("::is_high")]
        ps = [e for e in s.events if e[0] == "call" and "parse_standard" in e[1]]
        R.ob(any(s.facts.prove(eq(V(e[3]) if isinstance(e[3], Atom) else e[3], K(0))) or s.facts.prove(neg(pred(e[3]))) for e in hi) and
             any(any(isinstance(a, tuple) and a[:1] == ("bytes",) and a[1] is ldv(PAY, K(12), 64) for a in e[2]) for e in ps),
             key + " high-S", describe(s, ip, key + ": succeeds without having refused a malleable (high-S) form of the payload's signature"))
    builders = [strip_generics(n) for n in message_builders(R.prog("solana"))]
    each(R, f)
    many(R)
    return R.finish("other", "Path-partitioned abstract interpretation, on-chain configuration: the exact byte sequence given to each hash syscall on every successful path of the four off-chain signature routines, for each account count 0..64 (more are refused), and its use in the key or message comparison.")

def atoms_f(f):
    out = []
    def go(x):
        if isinstance(x, Atom): out.append(x)
        elif isinstance(x, Lin): out.extend(a for a, _ in x.t)
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(f)
    return out

def deep(a):
    seen = []; todo = [a]
    while todo:
        x = todo.pop()
        if isinstance(x, Atom):
            seen.append(x)
            todo.extend(x.args)
        elif isinstance(x, Lin): todo.extend(b for b, _ in x.t)
        elif isinstance(x, tuple): todo.extend(x)
    return seen

def many(R):
    """no success with more accounts than the hash covers"""
    def g(R, ty):
        ip, fn, paths = runs(R, ty)
        for s in paths:
            if outcome(ip, s) != "Ok": continue
            R.ob(s.facts.prove(le(length_of(1), K(MAX_ACCOUNTS))), ty + "::authenticate account limit", describe(s, ip, "%s::authenticate: succeeds with more than %d accounts" % (ty, MAX_ACCOUNTS)))
    R.par(K1 + R1, g)

# ---------------------------------------------------------------- P12
def p12(R):
    P = R.prog("solana")
    R.rule("Every Ok path of the secp256r1 routines: account number payload[12] exists and its key is the instructions sysvar; the current index read from it is not 0; the instruction at index - 1 is addressed to the secp256r1 program; its data states one signature, all three instruction indices 0xFFFF, key offset 16, message offset 113, message size = length of the expected message, is long enough, holds the stored key at 16 and the expected message at 113. The data checker itself never reads outside its argument.")
    R.assume("the runtime writes a well-formed instructions sysvar (index table and instruction records in bounds)")
    names = message_builders(P)
    builders = [strip_generics(n) for n in names]
    R.prog("solana")
    def g(R, ty):
        ip, fn, paths = runs(R, ty)
        rec = self_rec(ip, fn); key = ty + "::authenticate"; nok = 0
        pk = ldv(RECORD, K(rec.v["offs"][rec.idx("public_key")]), 33)
        idx = V(ldv(PAY, K(12), 1)); acc = account(idx, 1)
        dl = V(ldv(acc, K(80), 8)); cur = V(ldv(acc, addk(dl, 86), 2))
        start = V(ldv(acc, addk(scale(cur, 2), 88), 2)); na = V(ldv(acc, addk(start, 88), 2))
        body = addk(add(start, scale(na, 33)), 90)
        dlen = V(ldv(acc, addk(body, 32), 2)); d0 = addk(body, 34)
        def u(o, n): return V(ldv(acc, addk(d0, o), n))
        for s in paths:
            if outcome(ip, s) != "Ok": continue
            s.assume(f_or(neg(bytes_eq(ldv(acc, K(8), 32), SYSVAR_INSTRUCTIONS)), le(K(2), dl)))
            if contradictory(s): continue
            nok += 1
            P_ = s.facts.prove
            calls = [e for e in s.events if e[0] == "call" and e[1] in builders]
            if calls:
                v = atom("vf", calls[-1][3], 0, 0) if isinstance(calls[-1][3], Atom) else None
                m, mlen = find_result(s, calls[-1][3])
                R.ob(s.facts.prove(ne(length_of(2), K(17))), key + " assertion payload", describe(s, ip, key + ": builds an assertion message from an empty assertion"))
                a = calls[-1][2][0]
                R.ob(isinstance(a, tuple) and a[0] == "bytes" and a[1] is atom("ld", PAY, 0, K(17), addk(length_of(2), -17)), key + " assertion bytes", describe(s, ip, key + ": the assertion is not the rest of the payload"))
            else:
                hs = [e for e in s.events if e[0] == "hash"]
                m, mlen = (hs[0][3], K(32)) if hs else (None, None)
                R.ob(s.facts.prove(eq(length_of(2), K(17))), key + " plain message with assertion", describe(s, ip, key + ": ignores assertion bytes that follow the fixed payload"))
            def need(f, what, text): R.ob(f, key + " " + what, describe(s, ip, key + ": succeeds without " + text), sample={"function": key, "requirement": text})
            need(P_(lt(idx, length_of(1))), "sysvar index", "the instructions account index being in range")
            need(P_(bytes_eq(ldv(acc, K(8), 32), SYSVAR_INSTRUCTIONS)), "sysvar key", "the instruction list coming from the genuine sysvar account")
            need(P_(ne(cur)), "first instruction", "a preceding instruction existing (current index not 0)")
            need(P_(bytes_eq(ldv(acc, body, 32), SECP256R1)), "program", "the immediately preceding instruction being addressed to the secp256r1 program")
            need(P_(eq(u(0, 1), K(1))), "signature count", "the verification instruction carrying exactly one signature")
            for o, what in ((4, "signature"), (8, "public key"), (14, "message")):
                need(P_(eq(u(o, 2), K(0xffff))), what + " instruction index", "the %s being taken from the verification instruction itself" % what)
            need(P_(eq(u(6, 2), K(16))), "key offset", "the verified key lying at the offset that is compared")
            need(P_(eq(u(10, 2), K(113))), "message offset", "the verified message lying at the offset that is compared")
            need(P_(bytes_eq(ldv(acc, addk(d0, 16), 33), pk)), "key", "the verified key being the stored key")
            if not R.ob(m is not None, key + " expected message", describe(s, ip, key + ": no expected message could be identified")): continue
            need(P_(eq(u(12, 2), mlen)), "message size", "the verified message having exactly the expected length")
            need(P_(le(addk(mlen, 113), dlen)), "data length", "the verification data covering the compared message")
            need(P_(bytes_eq(atom("ld", acc, 0, addk(d0, 113), mlen), m)), "message", "the verified message being the expected message")
        R.floor("accepting paths of " + key, nok, 2)
    R.par(R1, g)
    ip = R.interp("solana")
    for s in [s for fn in P.find(r"::verify_secp256r1_instruction_data$") for s in ip.run(fn)]:
        if contradictory(s): continue
        bad = [e for e in s.events if e[0] in ("oob", "dangling")]
        R.ob(not bad, "verify_secp256r1_instruction_data reads outside", describe(s, ip, "verify_secp256r1_instruction_data: reads outside the instruction data, at %s" % site_fn(s, ip)))
    R.done(ip)
    return R.finish("other", "Path-partitioned abstract interpretation, on-chain configuration, of secp256r1 authentication down to the bytes of the instructions sysvar: every requirement on the preceding instruction is proved from the facts of each successful path.")

def find_result(s, a):
    """bytes and length of the Ok slice returned by an opaque call"""
    v = atom("vf", a, 0, 0)
    n = V(atom("len", v, lo=0, hi=U63))
    return atom("ld", ("R", v), 0, K(0), n), n

# ---------------------------------------------------------------- P14
PEXEC = ["ProgramExecAuthority", "ProgramExecSessionAuthority"]
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58(s):
    n = 0
    for c in s: n = n * 58 + B58.index(c)
    return n.to_bytes(32, "big")
SWIG_ID = b58("swigypWHEksbC64pWKwah1WTeh9JXwx8H1rJHLdbQMB")
PREFIX_MAX = 40

def p14(R):
    P = R.prog("solana")
    R.rule("authenticate, every Ok path: payload of 1 or 2 bytes; account payload[0] exists and is the instructions sysvar; the target (payload[1], or current index - 1) is below the current index; that instruction's program equals the configured program, its data starts with the configured prefix and is at least that long, it has two or more accounts and the first two are the keys of this instruction's accounts 0 and 1; the record keeps its bytes. set_into_bytes, every Ok path: program differs from the wallet program, prefix length <= 40, program, length and prefix are stored from the creation data.")
    R.assume("the runtime writes a well-formed instructions sysvar (index table and instruction records in bounds)")
    def g(R, j):
        ty, m = j
        if m == "set_into_bytes": return pexec_create(R, P, ty)
        fn = P.one(r"^probe::%s::authenticate$" % PROBE[ty]); key = ty + "::authenticate"
        ip = R.interp("solana"); paths = ip.run(fn); R.done(ip); R.count("paths", len(paths))
        rec = self_rec(ip, fn); nok = 0
        n2, pay = length_of(2), PAY
        idx = V(ldv(pay, K(0), 1)); acc = account(idx, 1); dl = V(ldv(acc, K(80), 8)); cur = V(ldv(acc, addk(dl, 86), 2))
        plen = rec.idx("instruction_prefix_len"); pl = V(ldv(RECORD, K(rec.v["offs"][plen]), 1))
        po = rec.v["offs"][rec.idx("instruction_prefix")]; io = rec.v["offs"][rec.idx("program_id")]
        for s in paths:
            if contradictory(s): continue
            fields_same(R, ip, s, rec, key, key, "during authentication")
            if outcome(ip, s) != "Ok": continue
            s.assume(f_or(neg(bytes_eq(ldv(acc, K(8), 32), SYSVAR_INSTRUCTIONS)), le(K(2), dl)))
            if contradictory(s): continue
            nok += 1
            for two in (False, True):
                c = s.copy(); c.assume(eq(n2, K(2)) if two else ne(n2, K(2)))
                if contradictory(c): continue
                P_ = c.facts.prove
                def need(f, what, text): R.ob(f, key + " " + what, describe(c, ip, key + ": succeeds without " + text), sample={"function": key, "requirement": text})
                need(P_(f_or(eq(n2, K(1)), eq(n2, K(2)))), "payload length", "a payload of one or two bytes")
                need(P_(lt(idx, length_of(1))), "sysvar index", "the instructions account index being in range")
                need(P_(bytes_eq(ldv(acc, K(8), 32), SYSVAR_INSTRUCTIONS)), "sysvar key", "the instruction list coming from the genuine sysvar account")
                tgt = V(ldv(pay, K(1), 1)) if two else addk(cur, -1)
                need(P_(lt(tgt, cur)) and P_(le(K(0), tgt)), "target", "the referenced instruction preceding the current one")
                start = V(ldv(acc, addk(scale(tgt, 2), 90), 2)); ix = addk(start, 88); na = V(ldv(acc, ix, 2))
                body = addk(add(ix, scale(na, 33)), 2); dlen = V(ldv(acc, addk(body, 32), 2))
                need(P_(bytes_eq(ldv(acc, body, 32), ldv(RECORD, K(io), 32))), "program", "the referenced instruction being addressed to the configured program")
                need(P_(le(pl, dlen)), "data length", "the referenced instruction's data being as long as the configured prefix")
                need(P_(f_or(eq(pl, K(0)), bytes_eq(atom("ld", acc, 0, addk(body, 34), pl), atom("ld", RECORD, 0, K(po), pl)))), "prefix", "the referenced instruction's data starting with the configured prefix")
                need(P_(le(K(2), na)), "account count", "the referenced instruction having two accounts")
                for i, what in ((0, "configuration"), (1, "wallet")):
                    need(P_(lt(K(i), length_of(1))), "own account %d" % i, "account %d being present" % i)
                    need(P_(bytes_eq(ldv(acc, addk(ix, 3 + 33 * i), 32), ldv(account(K(i), 1), K(8), 32))), "account %d" % i, "account %d of the referenced instruction being this instruction's %s account" % (i, what))
        R.floor("accepting paths of " + key, nok, 1)
    jobs = [(t, m) for t in PEXEC for m in ("authenticate", "set_into_bytes")]
    R.par(jobs, g)
    R.floor("program-exec routines", len(jobs), 4)
    return R.finish("other", "Path-partitioned abstract interpretation, on-chain configuration, of program-exec authentication down to the bytes of the instructions sysvar, and of the creation of both program-exec kinds, for all accounts, payloads, records and creation data.")

def pexec_create(R, P, ty):
    fn = P.one(r"^probe::%s::set_into_bytes$" % PROBE[ty]); key = ty + "::set_into_bytes"
    ip = R.interp("solana"); paths = ip.run(fn); R.done(ip); R.count("paths", len(paths))
    rty = P.adt(ty); src, dst = ("R", atom("sym", "a0")), ("R", atom("sym", "a1"))
    rec = Rec(ip, Ptr(dst), rty); nok = 0
    pid, pl = ldv(src, K(0), 32), V(ldv(src, K(32), 1))
    for s in paths:
        if contradictory(s): continue
        got = outcome(ip, s)
        R.ob(got in ("Ok", "Err"), key + " aborts", describe(s, ip, "%s: aborts instead of refusing, at %s" % (key, site_fn(s, ip))))
        if got != "Ok": continue
        nok += 1
        P_ = s.facts.prove
        R.ob(P_(le(K(rec.v["offs"][rec.idx("instruction_prefix")] + PREFIX_MAX), length_of(0))) and P_(eq(length_of(1), K(ip.size(rty)))), key + " lengths", describe(s, ip, key + ": accepts creation data or a destination of the wrong length"))
        R.ob(P_(neg(bytes_eq(pid, SWIG_ID))), key + " own program", describe(s, ip, key + ": accepts the wallet program itself as the authorizing program"), sample={"function": key, "path": [fmt(f) for f in s.facts.lst]})
        R.ob(P_(le(pl, K(PREFIX_MAX))), key + " prefix length", describe(s, ip, key + ": accepts a prefix longer than %d bytes" % PREFIX_MAX))
        R.ob(same(ip, s, rec.get(s, "program_id"), pid, 32), key + " program", describe(s, ip, key + ": the stored program is not the requested one"))
        R.ob(same(ip, s, rec.get(s, "instruction_prefix_len"), pl), key + " stored length", describe(s, ip, key + ": the stored prefix length is not the requested one"))
        po = rec.v["offs"][rec.idx("instruction_prefix")]
        have = ip.canon(s, ip.slice_bytes(s, Ptr(dst, (), K(po), pl), pl))
        want = atom("ld", src, 0, K(40), pl)
        full = same(ip, s, rec.get(s, "instruction_prefix"), ldv(src, K(40), PREFIX_MAX), PREFIX_MAX)
        R.ob(full or have is want or P_(f_or(eq(pl, K(0)), bytes_eq(have, want))), key + " prefix", describe(s, ip, key + ": the stored prefix is not the requested one: %s" % fmt(have)))
    R.floor("accepting path of " + key, nok, 1)
