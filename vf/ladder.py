"""X25519 and X448 (C07, C08): the shared-secret functions against the ladder of RFC 7748.

The function is executed once, with symbolic bits of the secret and a symbolic coordinate, over the contracts of the
field layer; the 255 (448) ladder steps are executed completely.  The output words must be the canonical encoding of
the term that the RFC 7748 ladder gives; equality of terms is proved as a chain of polynomial identities over GF(p)."""
import random, time
from .core import *
from .fld import *
from .fe import FE, V
from . import fm

def a24_of(f): return 121665 if f is F255 else 39081
def nbits(f): return 255 if f is F255 else 448
def clamp_bits(f, bits):
    kb = [dict(b) for b in bits]
    if f is F255:
        for i in (0, 1, 2, 255): kb[i] = {}
        kb[254] = {(): 1}
    else: kb[0] = kb[1] = {}; kb[447] = {(): 1}
    return kb
def step(x1, x2, z2, x3, z3, a24):
    """one step of RFC 7748, section 5"""
    A = x2 + z2; AA = A * A; B = x2 - z2; BB = B * B; E = AA - BB; C = x3 + z3; D = x3 - z3; DA = D * A; CB = C * B
    return AA * BB, E * (AA + E * a24), (DA + CB) * (DA + CB), x1 * ((DA - CB) * (DA - CB))
def reference(mc, f, kb, u, start):
    """RFC 7748 ladder on terms; the point at infinity starts as (start : 0)"""
    E = u.f; x2, z2, x3, z3 = start, V(E, {}), u, V(E, E.const(1)); a24 = a24_of(f)
    def sel(s, a, b): return V(E, E.add(a.t, E.raw_mul(s.t, E.sub(b.t, a.t))))
    sw = V(E, {})
    for t in range(nbits(f) - 1, -1, -1):
        kt = V(E, mc.conv(f, kb[t])); s = V(E, E.sub(E.add(sw.t, kt.t), E.scale(E.raw_mul(sw.t, kt.t), 2))); sw = kt
        x2, x3 = sel(s, x2, x3), sel(s, x3, x2); z2, z3 = sel(s, z2, z3), sel(s, z3, z2)
        x2, z2, x3, z3 = step(u, x2, z2, x3, z3, a24)
    x2, x3 = sel(sw, x2, x3), sel(sw, x3, x2); z2, z3 = sel(sw, z2, z3), sel(sw, z3, z2)
    return x2 * z2.inv()

def scaled_start_lemma(f, R_):
    """the ladder that starts with (u:0) returns the same value as the one that starts with (1:0), for every u"""
    t0 = time.time(); E = FE(f.p); v = lambda n: V(E, E.var(n)); a24 = a24_of(f)
    x1, x2, z2, x3, z3, l, m = map(v, ("x1", "x2", "z2", "x3", "z3", "l", "m"))
    a = step(x1, x2, z2, x3, z3, a24); b = step(x1, l * x2, l * z2, m * x3, m * z3, a24)
    l2 = l * l; l4 = l2 * l2; lm = l * m; lm2 = lm * lm
    ok = all(E.eq(p.t, (k * q).t) for p, q, k in zip(b, a, (l4, l4, lm2, lm2)))
    if ok: R_.ok("lemma:step is homogeneous in (x2:z2) and (x3:z3)", "polynomial identity over GF(p)", time.time() - t0)
    else: R_.bad("lemma:homogeneous", "the ladder step is not homogeneous"); return
    # (x*z^(p-2) does not change when x and z are multiplied by the same nonzero field element: Fermat, an assumption)
    # u = 0: explore all projective states of the ladder, starting from both forms; every final value is 0
    p = f.p
    def norm(x, z):
        if z: return (x * pow(z, p - 2, p) % p, 1)
        return (1, 0) if x else (0, 0)
    def num(x2, z2, x3, z3):
        A = x2 + z2; AA = A * A; B = x2 - z2; BB = B * B; Ee = AA - BB; C = x3 + z3; D = x3 - z3; DA = D * A; CB = C * B
        return norm(AA * BB % p, Ee * (AA + a24 * Ee) % p) + norm((DA + CB) ** 2 % p, 0)
    for s in (1, 0):
        seen = set(); todo = [((s, 0), (0, 1))]
        while todo:
            st = todo.pop()
            if st in seen: continue
            seen.add(st)
            if len(seen) > 200: R_.bad("lemma:u=0", "too many states"); return
            for q in (st, (st[1], st[0])):
                n = num(*q[0], *q[1]); todo.append((n[:2], n[2:]))
        bad = [st for st in seen for x, z in st if x * pow(z, p - 2, p) % p]
        if bad: R_.bad("lemma:u=0", "the ladder reaches %s" % (bad[0],)); return
        R_.ok("lemma:u=0 gives 0 from (%d:0), %d states" % (s, len(seen)), "exhaustive state exploration", 0.0)

def verify(slot, f, fname):
    mod = module(); mc = fm.FM(mod, [f]); R_ = Result(slot); n = f.nbytes
    R_.need = mc.need; E = mc.fe[f.tag]; t0 = time.time()
    out = mc.new("shared", n, "arg"); ses = mc.new("session", n, "arg"); sec = mc.new("secret", n, "arg")
    bits = mc.put_bits(Ptr(sec), n, "k"); u = mc.put_coordinate(f, Ptr(ses), "u", 1 if f is F255 else 0)
    snap = [(o, {i: mc.load_int(Ptr(o, i), 1) for i in range(n)}) for o in (ses, sec)]
    try: mc.call(fname, [Ptr(out), Ptr(ses), Ptr(sec)])
    finally: R_.insts = mc.results()
    tx = time.time() - t0
    for o, b in snap:
        same = True
        for i, w in b.items():
            x = mc.load_int(Ptr(o, i), 1)
            if isinstance(x, Undef) or not (x is w or mc.c.norm(mc.c.tow(x, 8)).p == mc.c.norm(w).p): same = False
        if same: R_.ok("frame:%s unchanged" % o.name.split("#")[0], "store log")
        else: R_.bad("frame:%s" % o.name.split("#")[0], "the input is modified")
    got = [mc.load_int(Ptr(out, 8 * i), 8) for i in range(n // 8)]
    if any(isinstance(w, Undef) for w in got): R_.bad("value:shared", "output byte left unwritten"); return R_
    got = [mc.c.norm(mc.c.tow(w, 64)) for w in got]
    kb = clamp_bits(f, bits); hit = None; diag = ""
    for name, start in (("1", V(E, E.const(1))), ("u", u)):
        t1 = time.time(); ref = reference(mc, f, kb, u, start)
        ws = mc.ser_words(f, ref.t)
        if all(g.p == w.p for g, w in zip(got, ws)): hit = name; R_.ok("value:shared = encoding of the RFC 7748 ladder from (%s:0)" % name, "chain of %d polynomial identities over GF(p)" % E.identities, tx + time.time() - t1); break
    if hit is None: R_.bad("value:shared", "the output is not shown to be the canonical encoding of the RFC 7748 function (%d terms, %d identities tried, %d refuted)" % (len(E.names), E.identities, E.failed))
    if hit == "u": scaled_start_lemma(f, R_)
    R_.ok("memory-safety:%d accesses" % mc.access_checks, "bounds of every access (concrete addresses)", 0.0)
    if mc.asm_checks: R_.ok("asm-constraints:%d blocks" % mc.asm_checks, "declared outputs and clobbers", 0.0)
    R_.log = dict(called=mc.called, accesses=mc.access_checks)
    return R_

# ---------------------------------------------------------------- native replay
def rfc7748(f, k, u):
    n = f.nbytes; k = bytearray(k)
    if f is F255: k[0] &= 248; k[31] &= 127; k[31] |= 64
    else: k[0] &= 252; k[55] |= 128
    k = int.from_bytes(k, "little"); x1 = int.from_bytes(u, "little")
    if f is F255: x1 &= (1 << 255) - 1
    p = f.p; x1 %= p; x2, z2, x3, z3, sw = 1, 0, x1, 1, 0; a24 = a24_of(f)
    for t in range(nbits(f) - 1, -1, -1):
        b = k >> t & 1
        if sw ^ b: x2, x3, z2, z3 = x3, x2, z3, z2
        sw = b
        A = x2 + z2; AA = A * A % p; B = x2 - z2; BB = B * B % p; E = AA - BB; C = x3 + z3; D = x3 - z3; DA = D * A; CB = C * B
        x3 = (DA + CB) ** 2 % p; z3 = x1 * (DA - CB) ** 2 % p; x2 = AA * BB % p; z2 = E * (AA + a24 * E) % p
    if sw: x2, z2 = x3, z3
    return (x2 * pow(z2, p - 2, p) % p).to_bytes(n, "little")
LOW255 = [0, 1, 325606250916557431795983626356110631294008115727848805560023387167927233504, 39382357235489614581723060781553021112529911719440698176882885853963445705823]
def edge(rng, f):
    n = f.nbytes; p = f.p; m = rng.randrange(6); top = 1 << 8 * n
    if m == 0: return rng.choice([0, 1, 2, 5, 9, p - 1, p, p + 1, p - 2, 2 * p, 2 * p - 1, 2 * p + 1, top - 1, top - 2, 1 << (nbits(f) - 1)]) % top
    if m == 1: return (p + rng.randrange(-3, 40)) % top
    if m == 2:
        z = 0
        for i in range(n // 8): z |= rng.choice([0, (1 << 64) - 1, 1, 1 << 63, rng.getrandbits(64)]) << 64 * i
        return z
    if m == 3 and f is F255: return (rng.choice(LOW255) + rng.choice([0, p, 1 << 255])) % top
    if m == 4:
        i, j = sorted(rng.randrange(8 * n + 1) for _ in range(2)); return (1 << j) - (1 << i)
    return rng.getrandbits(8 * n)
def replay(items, seconds=60):
    """items: (slot, f, offset)"""
    import ctypes
    from . import replay as rp
    so = rp.library()
    def run(report):
        lib = ctypes.CDLL(so); t0 = time.time(); rng = random.Random(3)
        while time.time() - t0 < seconds:
            for slot, f, off in items:
                n = f.nbytes; base = ctypes.addressof(ctypes.c_uint8.in_dll(lib, slot.split(".")[0]))
                fp = ctypes.c_void_p.from_address(base + off).value
                if not fp: return dict(reason="the interface slot %s is empty" % slot)
                k = edge(rng, f).to_bytes(n, "little"); u = edge(rng, f).to_bytes(n, "little")
                o, a, b = rp.Buf(n), rp.Buf(n), rp.Buf(n); a.set(u); b.set(k)
                inp = dict(function=slot, secret=k.hex(), session_key=u.hex()); report(inp)
                ctypes.CFUNCTYPE(ctypes.c_int, *[ctypes.c_void_p] * 3)(fp)(o.p, a.p, b.p)
                why = None; exp = rfc7748(f, k, u)
                if o.get() != exp: why = "returns %s, RFC 7748 gives %s" % (o.get().hex(), exp.hex())
                elif a.get() != u: why = "modifies the session key"
                elif b.get() != k: why = "modifies the secret"
                elif not (o.guards() and a.guards() and b.guards()): why = "writes outside the output"
                if why: return dict(result=why, **inp)
        return None
    return rp.in_child(run, timeout=seconds + 30)
