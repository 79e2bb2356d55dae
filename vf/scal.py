"""Scalar arithmetic modulo the group orders (C14, C15).

Contracts, over the integer values of the words:
  word64_multiplier(C,A,nA,B,nB)   C' = C + A*B                      (C of nA+nB words, the result fits)
  reduce256bits(a)                 a' = (a mod 2^256) - (16l-2^256)*(a div 2^256)   modulo 2^512
  reduce64bits(a)                  a' = the canonical residue of (a mod 2^252) + 2^252*a[4], a[4] < 64
  modular_reduction_*(a)           a' = the canonical residue of a
  calculate_s_*(s,r,k,a)           s  = the canonical residue of r + k*a
  div4(d,n)                        d  = the canonical residue of n/4
Callers are verified against the contracts of their callees when these exist as functions, against their bodies otherwise."""
import time
from .core import *
from .exe import Machine as _M
from . import canon
from .poly import key as canonkey
from .fnspec import eliminate
from .points import L255, L448
from . import fm

C16 = 16 * L255 - (1 << 256)
class Mod:
    def __init__(s, p): s.p = p
ELL = {"255": Mod(L255), "448": Mod(L448)}
def vsum(ws, b=64):
    z = {}
    for i, w in enumerate(ws): z = padd(z, pscale(w.p, 1 << b * i))
    return z

def hsum(ws, b=64): return sum(w.hi << b * i for i, w in enumerate(ws))

class SM(_M):
    """machine with the contracts of the scalar functions"""
    def __init__(s, mod, use=None):
        super().__init__(mod); s.insts = {}; s.fork_ok = s.fork_masks = s.cut_partial = True; s.vals = []
        for n, h in HANDLERS.items():
            if n in mod.funcs and (use is None or n in use): s.contracts[n] = h
    def results(s): return list(s.insts.values())
    def overlap(s, a, na, b, nb): return a.obj is b.obj and a.off < b.off + nb and b.off < a.off + na
    def rely(s, key, fn, *a):
        k = ("scal",) + key; r = fm._inst.get(k)
        if r is None:
            try: r = fn(*a)
            except Unsupported as e: r = Result(key[0]); r.unsup.append(str(e))
            except Violation as e: r = Result(key[0]); r.bad(e.ob, e.msg)
            r.ikey = key; r.al = None; fm._inst[k] = r
        s.insts[k] = r
        for q in getattr(r, "insts", []): s.insts[("sub", id(q))] = q
        if r.fail or r.unsup: raise Violation("callee:" + key[0], "the contract of %s does not hold: %s" % (key[0], (r.fail or r.unsup)[:2]))
    def words(s, p, n, nm):
        s.check(p, 8 * n, "read"); out = []
        for i in range(n):
            x = s.load_int(Ptr(p.obj, p.off + 8 * i), 8)
            if isinstance(x, Undef): raise Violation("uninitialised", "word %d given to %s is uninitialised at %s" % (i, nm, s.where()))
            out.append(s.c.norm(s.c.tow(x, 64)))
        return out
    def bytes(s, p, n, nm):
        s.check(p, n, "read"); out = []
        for i in range(n):
            x = s.load_int(Ptr(p.obj, p.off + i), 1)
            if isinstance(x, Undef): raise Violation("uninitialised", "byte %d given to %s is uninitialised at %s" % (i, nm, s.where()))
            out.append(s.c.norm(s.c.tow(x, 8)))
        return out
    def put(s, p, v, lo, hi, n, b=8):
        """store the value v (lo <= v <= hi < 2^(8*b*n)) as n words of b bytes"""
        s.check(p, b * n, "write"); c = s.c; k = 8 * b
        if v and not (len(v) == 1 and () in v):
            ws = []; low = v
            for i in range(1, n):
                h = min((1 << k) - 1, hi >> k * i)
                if not h: ws.append(W(k, {}, 0, 0)); continue
                a = c.atom("w%d_%d" % (len(s.vals), len(c.atoms)), lo >> k * i if hi >> k * (i + 1) == 0 else 0, h)
                ws.append(c.var(a, k)); low = padd(low, {(a.id,): -(1 << k * i)})
            ws.insert(0, W(k, low, 0, min(hi, (1 << k) - 1))); c.known[canonkey(low)] = (0, min(hi, (1 << k) - 1))
            if n > 1: c.facts.append((low, 0, min(hi, (1 << k) - 1), max(c.atoms_of(low))))
        else: ws = [c.const(v.get((), 0) >> k * i, k) for i in range(n)]
        for i in range(n): s.store_int(Ptr(p.obj, p.off + b * i), b, ws[i])
    def residue(s, v, l):
        """the canonical residue of v modulo l as a polynomial"""
        c = s.c; lo, hi = c.pbounds(v); k0 = lo // l
        a = c.atom("q%d" % len(c.atoms), 0, hi // l - k0, "wrap", None); p = padd(v, {(a.id,): -l, **pconst(-l * k0)})
        c.facts.append((p, 0, l - 1, a.id)); s.vals.append((v, p))
        return p

# ---------------------------------------------------------------- contracts at call sites
def _int(m, x, nm):
    if not isinstance(x, int): raise Unsupported("symbolic size given to %s" % nm)
    return x
def h_mul(m, args):
    C, A, nA, B, nB = args; nA, nB = _int(m, nA, "word64_multiplier"), _int(m, nB, "word64_multiplier"); n = nA + nB; c = m.c
    if not 1 <= nA <= 16 or not 1 <= nB <= 16: raise Unsupported("word64_multiplier of %d by %d words" % (nA, nB))
    m.rely(("word64_multiplier", nA, nB), verify_mul, nA, nB)
    if m.overlap(C, 8 * n, A, 8 * nA) or m.overlap(C, 8 * n, B, 8 * nB): raise Unsupported("overlapping arguments of word64_multiplier")
    ws, wa, wb = m.words(C, n, "word64_multiplier"), m.words(A, nA, "word64_multiplier"), m.words(B, nB, "word64_multiplier")
    a, b = vsum(wa), vsum(wb); v = padd(vsum(ws), c.pmul(a, b)); hi = hsum(ws) + hsum(wa) * hsum(wb); lo = 0
    if hi >> 64 * n: 
        if not c.lia(c.atoms_of(v), lambda zp: zp(v) >= 1 << 64 * n, timeout=20000, mode="cone"): raise Violation("precondition:word64_multiplier", "the result of the %d by %d word product may not fit at %s" % (nA, nB, m.where()))
        hi = (1 << 64 * n) - 1
    m.put(C, v, lo, hi, n)
def h_red256(m, args):
    a = args[0]; c = m.c; m.rely(("reduce256bits",), verify_red256)
    ws = m.words(a, 8, "reduce256bits"); L, H = vsum(ws[:4]), vsum(ws[4:]); d = padd(L, pscale(H, -C16)); lo, hi = c.pbounds(d)
    h1, h2 = hsum(ws[:4]), hsum(ws[4:]); l1, l2 = (max(0, c.pbounds(x)[0], sum(w.lo << 64 * i for i, w in enumerate(y))) for x, y in ((L, ws[:4]), (H, ws[4:])))
    lo, hi = max(lo, l1 - C16 * h2), min(hi, h1 - C16 * l2); T = -(lo >> 256)
    q = padd(d, pconst(T << 256)); lw, g = c._split(q, 0, hi + (T << 256), 256) if hi + (T << 256) >> 256 else (q, {}); gh = hi + (T << 256) >> 256
    h = padd(g, pconst(-T)); lo2, hi2 = -T, gh - T
    if lo2 < 0 <= hi2:
        neg = m.truth(c.ult(W(320, g, 0, gh), T, 320), "case")
        if neg: hi2 = -1
        else:
            lo2 = 0
            if hi2 == 0:
                lw, h = d, {}; c.facts.append((d, 0, (1 << 256) - 1, max(c.atoms_of(d))))
    if hi2 < 0: h = padd(h, pconst(1 << 256)); lo2 += 1 << 256; hi2 += 1 << 256
    if lo2 < 0 or hi2 >> 256: raise Unsupported("range of reduce256bits")
    m.put(a, lw, 0, (1 << 256) - 1, 4); m.put(Ptr(a.obj, a.off + 32), h, lo2, hi2, 4)
def h_red64(m, args):
    a = args[0]; c = m.c; m.rely(("reduce64bits",), verify_red64)
    ws = m.words(a, 5, "reduce64bits"); q = c.norm(W(64, c.subst(ws[4].p, c.assume), 0, ws[4].hi))
    if ws[3].hi >= 1 << 60 and not c.prove_le(ws[3].p, (1 << 60) - 1): raise Violation("precondition:reduce64bits", "the low part may exceed 2^252 at %s" % m.where())
    if q.hi > 63 and not c.prove_le(q.p, 63): raise Violation("precondition:reduce64bits", "the high part may exceed 63 at %s" % m.where())
    v = padd(vsum(ws[:4]), pscale(ws[4].p, 1 << 252)); m.put(a, m.residue(v, L255), 0, L255 - 1, 4)
def h_modred(f):
    fn = "modular_reduction_ed" + ("25519" if f == "255" else "448"); l = ELL[f].p
    def h(m, args):
        a = args[0]; m.rely((fn,), verify_modred, f)
        if f == "255": v = vsum(m.words(a, 8, fn))
        else: v = vsum(m.words(a, 14, fn)); v = padd(v, pscale(vsum(m.bytes(Ptr(a.obj, a.off + 112), 2, fn), 8), 1 << 896))
        if f == "255":
            m.put(a, m.residue(v, l), 0, l - 1, 4)
            for i in range(4, 8): m.store_int(Ptr(a.obj, a.off + 8 * i), 8, m.c.fresh("junk%d" % len(m.c.atoms), 64))
        else:
            m.put(a, m.residue(v, l), 0, l - 1, 7)
            for i in range(56, 114): m.store_int(Ptr(a.obj, a.off + i), 1, 0)
    return h
def h_calcs(f):
    fn = "calculate_s_ed" + ("25519" if f == "255" else "448"); l = ELL[f].p; n = 32 if f == "255" else 56
    def h(m, args):
        S, r, k, a = args; m.rely((fn,), verify_calcs, f); c = m.c
        rv, kv, av = (vsum(m.bytes(x, n, fn), 8) for x in (r, k, a))
        if any(m.overlap(S, 64, x, n) for x in (r, k, a)): raise Unsupported("overlapping arguments of " + fn)
        m.put(S, m.residue(padd(rv, c.pmul(kv, av)), l), 0, l - 1, n // 8)
        if f == "448": m.store_int(Ptr(S.obj, S.off + 56), 1, 0)
    return h
INV4 = pow(4, -1, L448)
def h_div4(m, args):
    d, n = args; m.rely(("div4",), verify_div4); v = vsum(m.bytes(n, 56, "div4"), 8)
    m.put(d, m.residue(pscale(v, INV4), L448), 0, L448 - 1, 7); m.store_int(Ptr(d.obj, d.off + 56), 1, 0)
HANDLERS = {"word64_multiplier": h_mul, "reduce256bits": h_red256, "reduce64bits": h_red64, "modular_reduction_ed25519": h_modred("255"), "modular_reduction_ed448": h_modred("448"),
            "calculate_s_ed25519": h_calcs("255"), "calculate_s_ed448": h_calcs("448"), "div4": h_div4}

# ---------------------------------------------------------------- verification of the bodies
def paths(fn, setup, post, nm=None):
    """every path of a function"""
    t0 = time.time(); R_ = Result(nm or fn); R_.insts = []; pend = [[]]; n = 0
    while pend:
        m = SM(module()); m.contracts.pop(fn, None); m.decisions = pend.pop(); m.pending = []; n += 1
        if n > 16: raise Unsupported("too many paths in %s" % fn)
        args, st = setup(m)
        try: r = m.call(fn, args)
        finally: R_.insts += [x for x in m.results() if x not in R_.insts]
        pend += m.pending
        post(m, R_, st, "path %s" % ("".join(map(str, m.decisions)) or "-") if m.decisions else "result", r)
        R_.ok("memory-safety:%d accesses" % m.access_checks, "bounds of every access (concrete addresses)", 0.0)
        if m.asm_checks: R_.ok("asm-constraints:%d blocks" % m.asm_checks, "declared outputs and clobbers", 0.0)
    R_.wall = time.time() - t0
    return R_
def canonical(m, R_, M, ws, v, nm):
    """the words are the canonical residue of v: a residue given by a contract, or shown by arithmetic"""
    if not any(isinstance(w, Undef) for w in ws):
        z = m.c.subst(vsum([m.c.norm(m.c.tow(w, 64)) for w in ws]), m.c.assume)
        for u, p in m.vals:
            if psub(z, m.c.subst(p, m.c.assume)): continue
            d = {k: x for k, x in ((k, x % M.p) for k, x in psub(z, m.c.subst(v, m.c.assume)).items()) if x}
            if not d:
                R_.ok("congruence:" + nm, "polynomial identity (exact)"); R_.ok("canonical:" + nm, "contract of the callee"); return
    canon.canonical(m, R_, M, ws, v, nm)
def fresh_words(m, o, n, nm, his=None, off=0):
    out = []
    for i in range(n):
        x = m.c.fresh("%s%d" % (nm, i), 64, 0, his[i] if his else None); o.cells[off + 8 * i] = (x, 8); out.append(x)
    return out
def fresh_bytes(m, o, n, nm):
    """words as far as they go, then bytes; the value"""
    v = vsum(fresh_words(m, o, n // 8, nm))
    for i in range(n // 8 * 8, n):
        x = m.c.fresh("%sb%d" % (nm, i), 8); o.cells[i] = (x, 1); v = padd(v, pscale(x.p, 1 << 8 * i))
    return v
def same_cells(m, R_, o, snap, nm):
    ok = all(off in o.cells and o.cells[off][1] == x[1] and o.cells[off][0] is x[0] for off, x in snap.items())
    if not ok:
        ok = True
        for off, (w, n) in snap.items():
            x = m.load_int(Ptr(o, off), n)
            if isinstance(x, Undef) or m.c.norm(m.c.tow(x, 8 * n)).p != w.p: ok = False
    if ok: R_.ok("frame:%s unchanged" % nm, "store log")
    else: R_.bad("frame:" + nm, "the operand is modified")
def identity(m, R_, ws, want, n, nm):
    if any(isinstance(w, Undef) for w in ws): R_.bad("value:" + nm, "a word of the result is undefined"); return
    d = psub(vsum([m.c.norm(m.c.tow(w, 64)) for w in ws]), want)
    d, be, t = eliminate(m.c, d, 1 << n, R_, nm)
    if d: R_.bad("value:" + nm, "the result differs modulo 2^%d: %s" % (n, m.c.show(d)))
    else: R_.ok("value:%s modulo 2^%d" % (nm, n), be, t)
def verify_mul(nA, nB):
    fn = "word64_multiplier"; n = nA + nB
    def setup(m):
        C, A, B = m.new("C", 8 * n, "arg"), m.new("A", 8 * nA, "arg"), m.new("B", 8 * nB, "arg")
        c, a, b = vsum(fresh_words(m, C, n, "c")), vsum(fresh_words(m, A, nA, "a")), vsum(fresh_words(m, B, nB, "b"))
        return [Ptr(C), Ptr(A), nA, Ptr(B), nB], (C, A, B, dict(A.cells), dict(B.cells), padd(c, m.c.pmul(a, b)))
    def post(m, R_, st, nm, r):
        C, A, B, sa, sb, v = st; identity(m, R_, [m.load_int(Ptr(C, 8 * i), 8) for i in range(n)], v, 64 * n, nm); same_cells(m, R_, A, sa, "A"); same_cells(m, R_, B, sb, "B")
    return paths(fn, setup, post, "%s[%d,%d]" % (fn, nA, nB))
def verify_red256():
    def setup(m):
        a = m.new("a", 64, "arg"); ws = fresh_words(m, a, 8, "a"); return [Ptr(a)], (a, ws)
    def post(m, R_, st, nm, r):
        a, ws = st; identity(m, R_, [m.load_int(Ptr(a, 8 * i), 8) for i in range(8)], padd(vsum(ws[:4]), pscale(vsum(ws[4:]), -C16)), 512, nm)
    return paths("reduce256bits", setup, post)
def verify_red64():
    def setup(m):
        a = m.new("a", 40, "arg"); ws = fresh_words(m, a, 5, "a", [(1 << 64) - 1] * 3 + [(1 << 60) - 1, 63]); return [Ptr(a)], (a, ws)
    def post(m, R_, st, nm, r):
        a, ws = st; canonical(m, R_, ELL["255"], [m.load_int(Ptr(a, 8 * i), 8) for i in range(4)], padd(vsum(ws[:4]), pscale(ws[4].p, 1 << 252)), nm)
    return paths("reduce64bits", setup, post)
def verify_modred(f):
    fn = "modular_reduction_ed" + ("25519" if f == "255" else "448"); n = 64 if f == "255" else 114
    def setup(m):
        a = m.new("a", n, "arg"); return [Ptr(a)], (a, fresh_bytes(m, a, n, "a"))
    def post(m, R_, st, nm, r):
        a, v = st; k = 4 if f == "255" else 7; canonical(m, R_, ELL[f], [m.load_int(Ptr(a, 8 * i), 8) for i in range(k)], v, nm)
        if f == "448":
            z = [m.load_int(Ptr(a, i), 1) for i in range(56, 114)]
            if all(x == 0 if isinstance(x, int) else isinstance(x, W) and not m.c.norm(x).p for x in z): R_.ok("value:high bytes are zero", "store log")
            else: R_.bad("value:high bytes", "bytes 56 to 113 are not zero")
    return paths(fn, setup, post)
def verify_calcs(f):
    fn = "calculate_s_ed" + ("25519" if f == "255" else "448"); n = 32 if f == "255" else 57; k = n // 8 * 8
    def setup(m):
        os_ = [m.new(x, (n if x == "s" else k if f == "255" else 57), "arg") for x in ("s", "r", "k", "a")]
        vs = [vsum(fresh_words(m, o, k // 8, nm)) for o, nm in zip(os_[1:], "rka")]
        if f == "448":
            for o in os_[1:]: o.cells[56] = (m.c.fresh("top", 8), 1)
        return [Ptr(o) for o in os_], (os_, [dict(o.cells) for o in os_], padd(vs[0], m.c.pmul(vs[1], vs[2])))
    def post(m, R_, st, nm, r):
        os_, sn, v = st; canonical(m, R_, ELL[f], [m.load_int(Ptr(os_[0], 8 * i), 8) for i in range(k // 8)], v, nm)
        if f == "448":
            if m.load_int(Ptr(os_[0], 56), 1) == 0: R_.ok("value:byte 56 is zero", "store log")
            else: R_.bad("value:byte 56", "the last byte of the signature is not zero")
        for o, s, x in zip(os_[1:], sn[1:], "rka"): same_cells(m, R_, o, s, x)
    return paths(fn, setup, post)
def verify_div4():
    def setup(m):
        d, n = m.new("d", 57, "arg"), m.new("n", 56, "arg"); v = vsum(fresh_words(m, n, 7, "n"))
        return [Ptr(d), Ptr(n)], (d, n, dict(n.cells), v)
    def post(m, R_, st, nm, r):
        d, n, s, v = st; ws = [m.load_int(Ptr(d, 8 * i), 8) for i in range(7)]
        canonical(m, R_, ELL["448"], ws, pscale(v, INV4), nm)
        if m.load_int(Ptr(d, 56), 1) == 0: R_.ok("value:byte 56 is zero", "store log")
        else: R_.bad("value:byte 56", "the last byte is not zero")
        same_cells(m, R_, n, s, "n")
    return paths("div4", setup, post)

# ---------------------------------------------------------------- tasks and native trials
LIVE = {"255": ["modular_reduction_ed25519", "calculate_s_ed25519", "reduce64bits"], "448": ["modular_reduction_ed448", "calculate_s_ed448", "div4"]}
def tasks(f):
    T = [(verify_modred, (f,)), (verify_calcs, (f,))]
    T.append((verify_div4, ()) if f == "448" else (verify_red64, ()))
    return T
WRAP = {"255": "void v_mr(uint8_t*a){modular_reduction_ed25519(a);}\nvoid v_cs(uint8_t*s,uint8_t*r,uint8_t*k,uint8_t*a){calculate_s_ed25519(s,r,k,a);}\n",
        "448": "void v_mr(uint8_t*a){modular_reduction_ed448(a);}\nvoid v_cs(uint8_t*s,uint8_t*r,uint8_t*k,uint8_t*a){calculate_s_ed448(s,r,k,a);}\nvoid v_d4(uint8_t*s,uint8_t*r){div4(s,r);}\n"}
def replay(f, seconds=60):
    from . import ptreplay, replay as rp
    ptreplay.unit_library("scal" + f, WRAP[f])
    return rp.in_child(lambda report: trials(f, seconds), timeout=seconds + 60)
def trials(f, seconds):
    import ctypes, random
    from . import ptreplay
    lib = ctypes.CDLL(ptreplay.unit_library("scal" + f, WRAP[f])); rng = random.Random(1); l = ELL[f].p; n = 32 if f == "255" else 57; N = 2 * n; kb = l.bit_length() - 1
    def buf(b, size=None):
        raw = ctypes.create_string_buffer((size or len(b)) + 64); o = -ctypes.addressof(raw) % 32; v = (ctypes.c_uint8 * (size or len(b))).from_buffer(raw, o)
        v[:len(b)] = b; return v
    def big(bits):
        m = rng.randrange(7)
        if m == 0: v = rng.randrange(1 << bits)
        elif m == 1: v = sum(rng.choice([0, (1 << 64) - 1, 1, 1 << 63, rng.randrange(1 << 64)]) << 64 * i for i in range((bits + 63) // 64))
        elif m == 2: v = l * rng.randrange((1 << bits) // l + 1) + rng.randrange(-3, 4)
        elif m == 3: v = (1 << rng.randrange(bits + 1)) + rng.randrange(-3, 4)
        elif m == 4: v = (rng.randrange(1 << bits) >> kb << kb) + rng.choice([0, 1, (1 << kb) - 1, (1 << kb) - 2, rng.randrange(1 << kb)])
        elif m == 5: v = l * rng.randrange(1 << rng.randrange(1, bits - kb + 1)) + rng.randrange(-3, 1 << rng.randrange(2, 60))
        else: v = (1 << bits) - 1 - rng.randrange(1 << rng.randrange(1, bits))
        return max(0, min(v, (1 << bits) - 1))
    end = time.time() + seconds; it = 0
    for v in (0, l, l - 1, l + 1, 1 << kb, 2 * l, (1 << 8 * N) - 1): big_first.append(v)
    while time.time() < end and it < 400000:
        it += 1; v = big_first.pop() if big_first else big(8 * N)
        a = buf(v.to_bytes(N, "little")); lib.v_mr(a); k = 32 if f == "255" else N; got = int.from_bytes(bytes(a[:k]), "little")
        if got != v % l: return dict(function=LIVE[f][0], input=hex(v), returned=hex(got), expected=hex(v % l))
        w = 8 * (32 if f == "255" else 56)
        r, k, x = (big(w) for _ in range(3))
        if rng.random() < .3:
            r %= l; k %= l; x |= 1 << w - 2
        s = buf(b"", n); lib.v_cs(s, *(buf(z.to_bytes(n, "little")) for z in (r, k, x))); got = int.from_bytes(bytes(s), "little")
        if got != (r + k * x) % l: return dict(function=LIVE[f][1], r=hex(r), k=hex(k), a=hex(x), returned=hex(got), expected=hex((r + k * x) % l))
        if f == "448":
            s = buf(b"", n); lib.v_d4(s, buf(r.to_bytes(n, "little"))); got = int.from_bytes(bytes(s), "little")
            if got != r * INV4 % l: return dict(function="div4", input=hex(r), returned=hex(got), expected=hex(r * INV4 % l))
    return None
big_first = []
