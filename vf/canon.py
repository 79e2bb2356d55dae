"""Contracts of serialisation, comparison, sign and constants (C06)."""
from .fnspec import *
from .exe import VB
from .fieldspecs import tight, unit

def zero_set(c, p):
    """the equations whose conjunction is equivalent to `word == 0`, or None when the shape is not known"""
    if not p: return []
    if () in p or any(k < 0 for k in p.values()): return None
    out = []
    for m, k in p.items():
        if len(m) != 1: return None
        a = c.atoms[m[0]]
        if a.kind == "xor":
            l = [dict(q[0]) for q in a.d]
            if len(l) != 2: return None
            out.append((l[0], l[1], max(q[2] for q in a.d), min(q[1] for q in a.d)))
        elif a.kind == "or":
            for w in a.d:
                z = zero_set(c, w.p)
                if z is None: return None
                out += z
        else: return None
    return out

class CSpec:
    """kind: ser unser cmp sgn prime"""
    def __init__(s, fld, rep, slot, kind, pre=None):
        s.f, s.rep, s.slot, s.kind, s.pre = fld, rep, slot, kind, pre
        s.name = slot
        s.fname = None; s.nonneg = False
    def aliases(s): return [[0, 0], [0, 1]] if s.kind == "cmp" else [[0]]

def specs(fld):
    S = []
    for rn, pre in (("full", "_1w_full."), ("red1", "_1w_red."), ("red2", "_2w_red."), ("red4", "_4w_red.")):
        rep = R[fld.tag, rn]; b = None if rn == "full" else tight(rep)
        for k, m in (("ser", "arith.misc.ser"), ("unser", "arith.misc.unser"), ("cmp", "arith.cmp"), ("sgn", "arith.sgn"), ("prime", "arith.prime")):
            if k == "prime" and rn in ("red2", "red4"): continue
            if k == "sgn" and rn == "red4": continue
            S.append(CSpec(fld, rep, fld.vt + "." + pre + m, k, b))
    return S
EMPTY = {"Fp448._1w_red.arith.sgn", "Fp448._2w_red.arith.sgn"}

def digs(mc, rep, obj, l):
    return [mc.c.norm(mc.c.tow(d, 64)) if not isinstance(d, Undef) else d for d in digits(mc, rep, obj, l)]
def checked_value(mc, rep, obj, l, R_, nm):
    ds = digs(mc, rep, obj, l)
    if any(isinstance(d, Undef) for d in ds): R_.bad("value:" + nm, "digit left unwritten or undefined"); return None, ds
    return value(mc, rep, ds), ds
def canonical(mc, R_, f, words, v, nm):
    """the words encode a value congruent to v and below p"""
    c = mc.c
    if any(isinstance(w, Undef) for w in words): R_.bad("value:" + nm, "output byte left unwritten"); return None
    words = [c.norm(c.tow(w, 64)) for w in words]
    z = {}
    for i, w in enumerate(words): z = padd(z, pscale(w.p, 1 << 64 * i))
    r, be, t = eliminate(c, psub(z, v), f.p, R_, nm)
    if r: R_.bad("congruence:" + nm, "residual modulo p not shown to vanish: %s" % c.show(r))
    else: R_.ok("congruence:" + nm, be, t)
    t = time.time()
    if c.prove_le(z, f.p - 1): R_.ok("canonical:" + nm, "z3 linear integer arithmetic", time.time() - t)
    else: R_.bad("canonical:" + nm, "the encoded value may reach p or more")
    return z

def verify(sp, al):
    mod = module(); mc = Machine(mod); c = mc.c; f, rep = sp.f, sp.rep
    if sp.kind not in ("ser", "canon"): mc.cut = 1; mc.cut_depth = 8; c.maxsplit = 2
    R_ = Result(sp.name + ("" if al != [0, 0] else "[alias]")); nb = f.nbytes; n = nb // 8
    if sp.kind == "ser":
        buf = mc.new("buf", nb * rep.lanes, "arg"); a = mc.new("a", rep.size, "arg"); va = put(mc, rep, a, "a", sp.pre)
        mc.call(sp.fname, [Ptr(buf), Ptr(a)])
        for l in range(rep.lanes):
            canonical(mc, R_, f, [mc.load_int(Ptr(buf, nb * l + 8 * i), 8) for i in range(n)], va[l], "buf.lane%d" % l)
            same_value(mc, R_, f, rep, a, l, va[l], "operand")
    elif sp.kind == "canon":     # canonicalises its argument in place
        a = mc.new("a", rep.size, "arg"); va = put(mc, rep, a, "a", sp.pre)
        mc.call(sp.fname, [Ptr(a)])
        canonical(mc, R_, f, [mc.load_int(Ptr(a, 8 * i), 8) for i in range(n)], va[0], "a")
    elif sp.kind == "unser":
        buf = mc.new("buf", nb * rep.lanes, "arg"); a = mc.new("a", rep.size, "arg"); vs = []
        for l in range(rep.lanes):
            v = {}
            for i in range(n):
                x = c.fresh("b%d[%d]" % (l, i), 64); buf.cells[nb * l + 8 * i] = (x, 8); v = padd(v, pscale(x.p, 1 << 64 * i))
            vs.append(v)
        before = dict(buf.cells)
        mc.call(sp.fname, [Ptr(a), Ptr(buf)])
        for l in range(rep.lanes):
            v, ds = checked_value(mc, rep, a, l, R_, "lane%d" % l)
            if v is None: continue
            r, be, t = eliminate(c, psub(v, vs[l]), f.p, R_, "lane%d" % l)
            if r: R_.bad("congruence:lane%d" % l, "residual modulo p not shown to vanish: %s" % c.show(r))
            else: R_.ok("congruence:lane%d" % l, be, t)
            if rep.name != "full":
                for j, d in enumerate(ds):
                    if d.hi <= sp.pre[j] or c.prove_le(d.p, sp.pre[j]): R_.ok("bound:lane%d[%d]" % (l, j), "interval arithmetic")
                    else: R_.bad("bound:lane%d[%d]" % (l, j), "digit may reach %#x" % d.hi)
        if all(buf.cells.get(k) == v for k, v in before.items()): R_.ok("frame:buf unchanged", "store log")
        else: R_.bad("frame:buf", "the input string is modified")
    elif sp.kind == "cmp":
        a = mc.new("a", rep.size, "arg"); va = put(mc, rep, a, "a", sp.pre)
        if al == [0, 0]: b, vb = a, va
        else: b = mc.new("b", rep.size, "arg"); vb = put(mc, rep, b, "b", sp.pre)
        r = mc.call(sp.fname, [Ptr(a), Ptr(b)])
        if isinstance(r, VB): r = mc.elems(r, ir.Ty("vec", n=4, e=ir.I64))
        if rep.lanes == 1: rs = [r]
        else: rs = [r[l * 4 // rep.lanes] for l in range(rep.lanes)]
        for l in range(rep.lanes):
            x = rs[l]; nm = "result.lane%d" % l
            if isinstance(x, int): xs = {} if x == 0 else pconst(x)
            elif isinstance(x, Undef): R_.bad(nm, "undefined"); continue
            else: xs = c.norm(x).p
            if not xs:
                if not psub(va[l], vb[l]): R_.ok("equality:" + nm, "polynomial identity (exact)")
                else: R_.bad("equality:" + nm, "always reports equality")
                continue
            if sp.nonneg and not (isinstance(x, W) and c.norm(x).hi < 1 << 31): R_.bad("sign:" + nm, "the result may be negative"); continue
            zs = zero_set(c, xs)
            if zs is None: R_.bad("equality:" + nm, "the result %s is not zero exactly when the encodings agree" % c.show(xs)); continue
            match(mc, R_, f, zs, va[l], vb[l], nm)
        for l in range(rep.lanes):
            same_value(mc, R_, f, rep, a, l, va[l], "first operand"); same_value(mc, R_, f, rep, b, l, vb[l], "second operand")
    elif sp.kind == "sgn":
        a = mc.new("a", rep.size, "arg"); va = put(mc, rep, a, "a", sp.pre)
        r = mc.call(sp.fname, [Ptr(a)])
        if isinstance(r, VB): r = mc.elems(r, ir.Ty("vec", n=4, e=ir.I64))
        rs = [r] if rep.lanes == 1 else [r[l * 4 // rep.lanes] for l in range(rep.lanes)]
        for l in range(rep.lanes):
            # v = p*q + s + 2*h canonical: the bit s of a split of the canonical value
            x = c.norm(c.tow(rs[l], 64)) if not isinstance(rs[l], Undef) else None
            if x is None: R_.bad("sign.lane%d" % l, "undefined"); continue
            parity(mc, R_, f, x, va[l], "sign.lane%d" % l)
            same_value(mc, R_, f, rep, a, l, va[l], "operand")
    elif sp.kind == "prime":
        a = mc.new("a", rep.size, "arg")
        mc.call(sp.fname, [Ptr(a)])
        v, ds = checked_value(mc, rep, a, 0, R_, "prime")
        if v is not None:
            if v == pconst(f.p): R_.ok("value:prime", "constant evaluation")
            else: R_.bad("value:prime", "the constant is %s" % c.show(v))
    R_.ok("memory-safety:%d accesses" % mc.access_checks, "bounds of every access (concrete addresses)", 0.0)
    if mc.asm_checks: R_.ok("asm-constraints:%d blocks" % mc.asm_checks, "declared outputs and clobbers", 0.0)
    R_.log = dict(called=list(mc.called), accesses=mc.access_checks)
    return R_
def same_value(mc, R_, f, rep, o, l, v, nm):
    ds = digs(mc, rep, o, l)
    if any(isinstance(d, Undef) for d in ds): R_.bad("frame:" + nm, "operand digit undefined after the call"); return
    d = psub(value(mc, rep, ds), v)
    if not d: R_.ok("frame:%s.lane%d unchanged" % (nm, l), "store log"); return
    r, be, t = eliminate(mc.c, d, f.p, R_, nm)
    if r: R_.bad("frame:" + nm, "the value of the operand changes: %s" % mc.c.show(r))
    else: R_.ok("frame:%s.lane%d same residue" % (nm, l), be, t)

def evaluator(c, rng):
    """value of polynomials under a random choice of the inputs (atoms introduced later have definitions)"""
    facts = {}
    for p, lo, hi, aid in c.facts: facts.setdefault(aid, (p, lo, hi))
    val = {}
    def atom(a):
        if a in val: return val[a]
        at = c.atoms[a]
        if at.kind in ("wrap", "split"):
            p, lo, hi = facts[a]; k = p[(a,)]
            rest = poly({m: v for m, v in p.items() if m != (a,)}); M = -k
            v = (rest - lo) // M
        elif at.kind == "eq": v = int(poly(at.d) == 0)
        elif at.kind == "def": v = poly(at.d)
        elif at.kind == "xor":
            v = 0
            for q, _, _ in at.d: v ^= poly(dict(q))
        elif at.kind == "or": v = poly(at.d[0].p) | poly(at.d[1].p)
        elif at.kind == "and": v = poly(at.d[0].p) & poly(at.d[1].p)
        elif at.kind == "cond": v = poly(at.d)
        else: v = rng.randint(at.lo, at.hi)
        val[a] = v
        return v
    def poly(p):
        r = 0
        for m, k in p.items():
            for x in m: k *= atom(x)
            r += k
        return r
    return poly
def match(mc, R_, f, zs, va, vb, nm):
    """the equations zs must be: byte i of the canonical encoding of va = byte i of that of vb, for every i.
    Positions are guessed from sample evaluations; what is proved is that the assembled integers are canonical."""
    import random
    c = mc.c; ev = [evaluator(c, random.Random(k)) for k in range(4)]
    ca = [e(va) % f.p for e in ev]; cb = [e(vb) % f.p for e in ev]
    A, B, seen = {}, {}, []
    for x, y, hi, lo in zs:
        w = hi.bit_length(); w = next(k for k in (8, 16, 32, 64, 1 << 20) if w <= k)
        xs = [e(x) for e in ev]; ys = [e(y) for e in ev]; at = None
        for i in range(0, 8 * f.nbytes, w):
            wa = [v >> i & ((1 << w) - 1) for v in ca]; wb = [v >> i & ((1 << w) - 1) for v in cb]
            if xs == wa and ys == wb: at = (i, x, y); break
            if xs == wb and ys == wa: at = (i, y, x); break
        if at is None:
            R_.bad("equality:" + nm, "a compared piece is no part of the canonical encodings"); return
        if at[0] in seen: continue
        seen.append(at[0]); A = padd(A, pscale(at[1], 1 << at[0])); B = padd(B, pscale(at[2], 1 << at[0]))
        if lo < 0: R_.bad("equality:" + nm, "piece below zero"); return
    for z, v, s in ((A, va, "first"), (B, vb, "second")):
        t = time.time()
        r, be, tt = eliminate(c, psub(z, v), f.p, R_, nm)
        if r: R_.bad("congruence:%s.%s" % (nm, s), "the compared bytes are not the encoding of the operand: %s" % c.show(r)); continue
        R_.ok("congruence:%s.%s" % (nm, s), be, tt)
        t = time.time()
        if c.prove_le(z, f.p - 1): R_.ok("canonical:%s.%s" % (nm, s), "z3 linear integer arithmetic", time.time() - t)
        else: R_.bad("canonical:%s.%s" % (nm, s), "the compared value may reach p or more")
def parity(mc, R_, f, x, v, nm):
    c = mc.c; t = time.time(); lo, hi = c.pbounds(v)
    q = c.atom("Q", lo // f.p, hi // f.p); h = c.atom("H", 0, f.p // 2); s = c.atom("S", 0, 1)
    z = psub(v, {(q.id,): f.p})
    c.facts.append((z, 0, f.p - 1, q.id))
    d = psub(psub(z, {(h.id,): 2}), {(s.id,): 1})
    c.facts.append((d, 0, 0, s.id))
    e = psub(x.p, {(s.id,): 1})
    if c.prove_le(e, 0) and c.prove_ge(e, 0): R_.ok("parity:" + nm, "z3 linear integer arithmetic", time.time() - t)
    else: R_.bad("parity:" + nm, "the result is not shown to be the parity of the canonical residue")

# ---------------------------------------------------------------- replay on the compiled code
def trials(sp, al, off, n, seed):
    from . import replay as rp
    so = rp.library(); f, rep = sp.f, sp.rep
    def run(report):
        import ctypes, random
        lib = ctypes.CDLL(so); rng = random.Random(seed)
        base = ctypes.addressof(ctypes.c_uint8.in_dll(lib, sp.slot.split(".")[0]))
        fp = ctypes.c_void_p.from_address(base + off).value
        if not fp: return dict(reason="the interface slot %s is empty" % sp.slot)
        nb = f.nbytes
        def special():
            m = rng.randrange(6)
            if m == 0: return f.p + rng.randrange(-3, 4)
            if m == 1: return rng.randrange(4)
            if m == 2: return (1 << rng.randrange(8 * nb)) - rng.randrange(2)
            return rng.randrange(1 << 8 * nb)
        def elem(like=None):
            """an element (digits within the precondition) and its lane values"""
            o = rp.Buf(rep.size); raw = bytearray(b"\x5a" * rep.size); vs = []; ds = []
            for l in range(rep.lanes):
                t = rng.randrange(5); x = 0
                if like is not None and rng.randrange(3): z = like[l] % f.p + (f.p if rng.randrange(2) else 0)
                else: z = special()
                if like is not None and rng.randrange(2): z ^= 1 << rng.randrange(8 * nb)
                if t >= 3:      # just above 2^bits, with a run of ones
                    top = f.p.bit_length(); i, j = sorted(rng.randrange(top) for _ in range(2)); z = (1 << top) + (1 << j) - (1 << i)
                dd = []
                for k in range(rep.n):
                    w = rep.weights[k]; hi = (1 << 64) - 1 if rep.name == "full" else sp.pre[k]
                    width = rep.weights[k + 1] - w if k + 1 < rep.n else 10**6
                    d = min(z >> w & ((1 << width) - 1), hi)
                    if rep.name != "full":
                        if t == 1: d = rng.choice([0, hi, (1 << (width if width < 99 else 64)) - 1, rng.randint(0, hi), d]); d = min(d, hi)
                        elif t == 2: d = rp.pick(rng, hi)
                    dd.append(d)
                if rep.name != "full" and rng.randrange(2):    # move one unit of a digit to the digit below
                    for k in range(rep.n - 1, 0, -1):
                        u = 1 << (rep.weights[k] - rep.weights[k - 1])
                        if dd[k] and dd[k - 1] + u <= sp.pre[k - 1] and (t == 4 or rng.randrange(2)): dd[k] -= 1; dd[k - 1] += u; break
                for k, d in enumerate(dd):
                    p_ = rep.off(l, k); raw[p_:p_ + 8] = d.to_bytes(8, "little"); ds.append(hex(d)); x += d << rep.weights[k]
                vs.append(x)
            o.set(raw); return o, vs, ds
        def val(o):
            raw = o.get()
            return [sum(int.from_bytes(raw[rep.off(l, k):rep.off(l, k) + 8], "little") << rep.weights[k] for k in range(rep.n)) for l in range(rep.lanes)]
        for t in range(n):
            why = None; inp = {}
            if sp.kind == "ser":
                a, va, ds = elem(); b = rp.Buf(nb * rep.lanes); inp = dict(digits=ds); report(inp)
                rp._call(fp, [b.p, a.p]); got = b.get()
                exp = b"".join((v % f.p).to_bytes(nb, "little") for v in va)
                if got != exp: why = "encodes %s, expected %s" % (got.hex(), exp.hex())
                if not (b.guards() and a.guards()): why = "writes outside the output"
                if [v % f.p for v in val(a)] != [v % f.p for v in va]: why = "the operand changes its value"
            elif sp.kind == "unser":
                b = rp.Buf(nb * rep.lanes); zs = [special() % (1 << 8 * nb) for _ in range(rep.lanes)]
                s = b"".join(z.to_bytes(nb, "little") for z in zs); b.set(s); a = rp.Buf(rep.size); inp = dict(bytes=s.hex()); report(inp)
                rp._call(fp, [a.p, b.p])
                if [v % f.p for v in val(a)] != [z % f.p for z in zs]: why = "gives values %s" % [hex(v) for v in val(a)]
                if not (b.guards() and a.guards()): why = "writes outside the output"
                if b.get() != s: why = "the input string is modified"
            elif sp.kind in ("cmp", "sgn"):
                a, va, ds = elem(); b, vb, db = (a, va, ds) if al == [0, 0] else elem(va); inp = dict(a=ds, b=db if sp.kind == "cmp" else None); report(inp)
                args = [a.p, b.p] if sp.kind == "cmp" else [a.p]
                if rep.lanes == 1:
                    r = [ctypes.CFUNCTYPE(ctypes.c_int, *[ctypes.c_void_p] * len(args))(fp)(*args)]
                else:
                    o = rp.Buf(32); getattr(lib, "vf_ret_vec%d" % len(args))(ctypes.c_void_p(fp), o.p, *args)
                    r = [int.from_bytes(o.get()[i:i + 8], "little") for i in range(0, 32, 32 // rep.lanes)]
                for l in range(rep.lanes):
                    if sp.kind == "cmp":
                        if (r[l] == 0) != ((va[l] - vb[l]) % f.p == 0): why = "lane %d: comparison of %#x and %#x returns %d" % (l, va[l] % f.p, vb[l] % f.p, r[l])
                    elif r[l] != (va[l] % f.p) & 1: why = "lane %d: sign of %#x is reported as %d" % (l, va[l] % f.p, r[l])
            elif sp.kind == "prime":
                a = rp.Buf(rep.size); report(inp); rp._call(fp, [a.p])
                if val(a)[0] != f.p: why = "writes %#x" % val(a)[0]
                if not a.guards(): why = "writes outside the output"
            if why: return dict(function=sp.slot, alias=al, result=why, **inp)
        return None
    return rp.in_child(run)
def replay(tasks, seconds=80):
    t0 = time.time()
    for r in range(6):
        for sp, al, off in tasks:
            if time.time() - t0 > seconds: return None
            x = trials(sp, al, off, 4000 if r == 0 else 60000, 11 + r)
            if x: return x
    return None
