"""Contracts of repeated squaring, inversion and square roots (C05)."""
from .fnspec import *
from .exe import VB
from .fieldspecs import tight, LOOSE1
from . import fm

def invariant_bounds(rep):
    if rep.name == "full": return [(1 << 64) - 1] * rep.n
    return LOOSE1 if (rep.f.tag, rep.lanes) == ("448", 1) else tight(rep)
def sqrn(fname, f, rep, times, pre):
    """a := a^(2^times).  A loop over digits held in registers (or in the argument) is cut at its back edge:
    the state is shown to be an element congruent to the square of the previous one, with digits within the bounds
    of tight(), and replaced by an arbitrary such element."""
    mod = module(); mc = Machine(mod); c = mc.c; R_ = Result("%s(times=%d)" % (fname, times))
    T = invariant_bounds(rep)
    a = mc.new("a", rep.size, "arg"); va = put(mc, rep, a, "a", pre)
    canon = {}
    for l in range(rep.lanes):
        for i in range(rep.n): canon[l, i] = c.fresh("s%d[%d]" % (l, i), 64, 0, T[i])
    vc = []
    for l in range(rep.lanes):
        v = {}
        for i in range(rep.n): v = padd(v, pscale(canon[l, i].p, 1 << rep.weights[i]))
        vc.append(v)
    st = dict(cur={k: mc.load_int(Ptr(a, rep.off(*k)), 8) for k in canon}, val=va, seen=None, iters=0, mem=dict(a.cells))
    def flat(v, ty):
        if ty.e.w != 64: raise Unsupported("loop state of %s is not in 64-bit elements" % fname)
        return list(mc.elems(v, ty))
    def digit_of(q):
        """which digit of the current element an integer word is"""
        if isinstance(q, W):
            for k, d in st["cur"].items():
                if c.norm(q).p == d.p: return k
        return None
    def step(new):
        """obligations of one iteration; returns True when they hold"""
        ds = {k: c.norm(c.tow(w, 64)) for k, w in new.items()}
        kk = tuple(sorted((k, key(w.p)) for k, w in ds.items()))
        if kk == st["seen"] and st["val"] is vc: return
        for l in range(rep.lanes):
            v = {}
            for i in range(rep.n): v = padd(v, pscale(ds[l, i].p, 1 << rep.weights[i]))
            nm = "loop%s.lane%d" % (st["iters"], l)
            r, be, t = eliminate(c, psub(v, c.pmul(st["val"][l], st["val"][l])), f.p, R_, nm)
            if r: R_.bad("congruence:" + nm, "residual modulo p not shown to vanish: %s" % c.show(r))
            else: R_.ok("congruence:" + nm, be, t)
            for i in range(rep.n):
                w = ds[l, i]
                if w.hi <= T[i] or c.prove_le(w.p, T[i]): R_.ok("bound:%s[%d]" % (nm, i), "interval arithmetic")
                else: R_.bad("bound:%s[%d]" % (nm, i), "digit may reach %#x, loop invariant %#x" % (w.hi, T[i]))
        if st["val"] is vc: st["seen"] = kk
    def hook(m, fn, env, blk, nxt):
        if fn.name != fname or R_.fail: return
        phis = [x for x in fn.blocks[nxt] if x.op == "phi"]; new = {}; regs = []; same = []
        for x in phis:
            old = env.get(x.res); src = next((v for v, b in x.a if b == blk), None)
            if src is None: return
            nv = mc.val(env, src, x.ty)
            if isinstance(nv, (tuple, VB)):
                o = flat(old, x.ty); n = flat(nv, x.ty)
                ks = [digit_of(q) for q in o]
                regs.append((src, x.ty, ks, n, o))
                for k, w in zip(ks, n):
                    if k is None: continue
                    if isinstance(w, int): w = c.const(w, 64)
                    if isinstance(w, Undef): raise Violation("value:loop", "undefined digit at the back edge of %s" % fname)
                    if k in new and c.norm(new[k]).p != c.norm(c.tow(w, 64)).p: raise Unsupported("loop state of %s is not one element" % fname)
                    new[k] = w
        mem = {}
        for (l, i) in canon:
            d = mc.load_int(Ptr(a, rep.off(l, i)), 8)
            if isinstance(d, W) and c.norm(d).p != st["mem"].get((l, i)): mem[l, i] = d
        if mem and not new: new = {k: mc.load_int(Ptr(a, rep.off(*k)), 8) for k in canon}
        if not new: return
        if set(new) != set(canon): raise Unsupported("loop state of %s is not one element" % fname)
        step(new); st["iters"] += 1
        env2 = {k: w for k, w in canon.items()}
        for src, ty, ks, n, o in regs:
            out = []
            for k, w, ow in zip(ks, n, o):
                if k is not None: out.append(env2[k])
                elif isinstance(w, int) and w == ow or isinstance(w, W) and isinstance(ow, W) and not c.norm(w).p and not c.norm(ow).p: out.append(w)
                else: raise Unsupported("loop state of %s holds a derived value" % fname)
            if src[0] != "l": raise Unsupported("loop state of %s" % fname)
            env[src[1]] = tuple(out)
        if mem:
            for k, w in canon.items(): mc.store_int(Ptr(a, rep.off(*k)), 8, w)
        st["cur"] = dict(canon); st["val"] = vc
        st["mem"] = {k: c.norm(mc.load_int(Ptr(a, rep.off(*k)), 8)).p for k in canon}
    st["mem"] = {k: w.p for k, w in st["cur"].items()}
    mc.backedge = hook
    mc.call(fname, [Ptr(a), times])
    if times:
        if st["val"] is va and times > 1: raise Unsupported("the loop of %s was not recognised" % fname)
        new = {k: mc.load_int(Ptr(a, rep.off(*k)), 8) for k in canon}
        if any(isinstance(w, Undef) for w in new.values()): R_.bad("value:exit", "output digit left unwritten"); return R_
        n = st["iters"]
        if not R_.fail and not all(c.norm(c.tow(new[k], 64)).p == c.norm(c.tow(st["cur"][k], 64)).p for k in canon):
            st["seen"] = None; st["iters"] = "-exit"; step(new); n += 1
        if not R_.fail:
            if n == times: R_.ok("iterations:%d" % times, "concrete trip count")
            else: R_.bad("iterations", "%d squarings are performed for times=%d" % (n, times))
    R_.ok("memory-safety:%d accesses" % mc.access_checks, "bounds of every access (concrete addresses)", 0.0)
    R_.outb = T
    return R_

# ---------------------------------------------------------------- inversion and square roots
class PSpec:
    """kind: inv (c = a^(p-2)), srt (c a square root of a when a has one), exp448 (c = a^((p-3)/4))"""
    def __init__(s, slot, f, rep, kind):
        s.slot, s.f, s.rep, s.kind, s.name = slot, f, rep, kind, slot
        s.fname = None
def specs():
    out = []
    for f in (F255, F448):
        for rn, pre in (("full", "_1w_full."), ("red1", "_1w_red."), ("red4", "_4w_red.")):
            rep = R[f.tag, rn]
            if rn != "red4": out.append(PSpec(f.vt + "." + pre + "arith.inv", f, rep, "inv"))
            if f is F255: out.append(PSpec(f.vt + "." + pre + "arith.srt", f, rep, "srt"))
    return out
EMPTY = {"Fp448._1w_full.arith.srt"}
def run_paths(sp, alias, mk):
    """all paths of one call; yields (machine, output, input terms)"""
    pend = [[]]
    while pend:
        m = fm.FM(module(), [sp.f], use={"arith.misc.ser", "arith.misc.unser", "arith.cmp"})
        m.fork_ok = True; m.decisions = pend.pop(); m.pending = []
        rep = sp.rep
        a = m.new("a", rep.size, "arg"); c = a if alias else m.new("c", rep.size, "arg")
        b = [(1 << 64) - 1] * rep.n if rep.name == "full" else tight(rep)
        vs = m.put_element(sp.f, rep, Ptr(a), "x", b)
        snap = dict(a.cells)
        m.call(sp.fname, [Ptr(c), Ptr(a)])
        if len(m.branches) > 8: raise Unsupported("too many symbolic branches in %s" % sp.fname)
        pend += m.pending
        yield m, a, c, vs, snap

def reduce_mono(f, t, var, case):
    """value of the monomial c*a^k as (constant, exponent) when a^((p-1)/4) = case (1 or -1), a != 0"""
    if not t: return (0, 0)
    if len(t) != 1: raise Unsupported("not a power of the operand")
    (m, k), = t.items()
    e = 0
    for i, x in m:
        if i != var: raise Unsupported("not a power of the operand")
        e = x
    q = (f.p - 1) // 4
    n, e = divmod(e, q)
    if case is None: raise Unsupported("case")
    if n & 1 and case < 0: k = -k % f.p
    return (k, e)

def verify(sp, alias=False):
    t0 = time.time(); f, rep = sp.f, sp.rep
    R_ = Result(sp.name + ("[alias]" if alias else "")); R_.need = {}; R_.insts = []
    for m, a, c, vs, snap in run_paths(sp, alias, None):
        E = m.fe[f.tag]; path = "".join(map(str, m.decisions)) or "-"
        for k, b in m.need.items(): R_.need[k] = b if k not in R_.need else [max(x, y) for x, y in zip(b, R_.need[k])]
        for r in m.results():
            if not any(r is q for q in R_.insts): R_.insts.append(r)
        if not alias:
            same = all(m.read(f, rep, Ptr(a), l)[1] == vs[l].t for l in range(rep.lanes))
            if rep.name != "full" or sp.kind == "inv": same = a.cells == snap
            if same: R_.ok("frame:a.path %s" % path, "store log")
            else: R_.bad("frame:a", "the operand is modified")
        for l in range(rep.lanes):
            ds, t = m.read(f, rep, Ptr(c), l); nm = "lane%d.path %s" % (l, path)
            b = invariant_bounds(rep)
            for i, d in enumerate(ds):
                if d.hi > b[i]: R_.bad("bound:%s[%d]" % (nm, i), "digit may reach %#x" % d.hi)
                else: R_.ok("bound:%s[%d]" % (nm, i), "interval arithmetic")
            if sp.kind != "srt":
                want = vs[l] ** (f.p - 2 if sp.kind == "inv" else (f.p - 3) // 4)
                if E.eq(t, want.t): R_.ok("power:" + nm, "field term identity")
                else: R_.bad("power:" + nm, "the result is %s, not %s" % (E.show(t), E.show(want.t)))
                continue
            # square root: a = 0, and a^((p-1)/4) = 1, -1 (a nonzero square has a^((p-1)/2) = 1)
            var = next(iter(vs[l].t))[0][0]
            for case in (0, 1, -1):
                try: ok = root_case(m, f, E, t, var, case)
                except Unsupported as e: R_.bad("root:%s.case %d" % (nm, case), str(e)); continue
                if ok: R_.ok("root:%s.case %d%s" % (nm, case, ok), "exponent arithmetic")
                else: R_.bad("root:%s.case %d" % (nm, case), "the result is not a square root when a^((p-1)/4) = %d" % case)
    R_.ok("memory-safety:%d accesses" % m.access_checks, "bounds of every access (concrete addresses)", 0.0)
    return R_

def root_case(m, f, E, t, var, case):
    """the output term t is a square root of the operand under the case, or the path is not taken in the case"""
    c = m.c
    def same(ta, tb):
        if case == 0: return E.sub({k: v for k, v in ta.items() if not k}, {k: v for k, v in tb.items() if not k}) == {}
        (x, e), (y, g) = reduce_mono(f, ta, var, case), reduce_mono(f, tb, var, case)
        if e == g: return x == y
        raise Unsupported("comparison of different powers")
    env = {}
    for at in c.atoms:
        if at.kind != "eq": continue
        ids = [x for mm in at.d for x in mm if c.atoms[x].kind == "cmp"]
        if not ids: continue
        if len(at.d) != 1 or len(ids) != 1: raise Unsupported("a comparison result is used as a number")
        _, ta, tb = c.atoms[ids[0]].d
        vs_ = set(i for q in (ta, tb) for mm in q for i, _ in mm)
        if vs_ - {var}: continue        # another lane
        env[at.id] = int(same(ta, tb))
    for k, v in c.assume.items():
        if k in env and env[k] != v: return " (not taken)"
        if k not in env: raise Unsupported("branch on an unknown condition")
    fb = {m.bmap[f.tag][k]: v for k, v in env.items() if k in m.bmap[f.tag]}
    out = {}
    for mono, k in t.items():
        z = 1; l = []
        for i, e in mono:
            if E.isbool(i):
                if i not in fb: raise Unsupported("the result depends on an unknown condition")
                z *= fb[i]
            else: l.append((i, e))
        if z: out = E.add(out, {tuple(l): k})
    if case == 0: return None if () in out else " "
    k, e = reduce_mono(f, E.raw_pow(out, 2), var, case)
    return " " if (k, e) == (1, 1) else None

def trials(sp, alias, off, n, seed):
    import ctypes, random
    from . import replay as rp
    so = rp.library(); f, rep = sp.f, sp.rep; p = f.p
    def run(report):
        lib = ctypes.CDLL(so); rng = random.Random(seed)
        base = ctypes.addressof(ctypes.c_uint8.in_dll(lib, sp.slot.split(".")[0]))
        fp = ctypes.c_void_p.from_address(base + off).value
        T = tight(rep) if rep.name != "full" else None
        for t in range(n):
            a = rp.Buf(rep.size); c = a if alias else rp.Buf(rep.size); raw = bytearray(rep.size); vs = []; ds = []
            for l in range(rep.lanes):
                z = rng.choice([0, 1, 2, p - 1, p, p + 1, 4]) if rng.randrange(3) == 0 else rng.randrange(p)
                if sp.kind == "srt": z = z * z % p
                v = 0
                for k in range(rep.n):
                    w = rep.weights[k]; width = (rep.weights[k + 1] if k + 1 < rep.n else (64 * rep.n if T is None else f.p.bit_length())) - w
                    d = z >> w & ((1 << width) - 1)
                    if sp.kind == "inv" and rng.randrange(8) == 0: d = rp.pick(rng, (1 << 64) - 1 if T is None else T[k])
                    o = rep.off(l, k); raw[o:o + 8] = d.to_bytes(8, "little"); v += d << w; ds.append(hex(d))
                vs.append(v)
            a.set(raw); report(dict(function=sp.slot, digits=ds))
            ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p)(fp)(c.p, a.p)
            got = c.get(); why = None
            for l in range(rep.lanes):
                g = sum(int.from_bytes(got[rep.off(l, k):rep.off(l, k) + 8], "little") << rep.weights[k] for k in range(rep.n)) % p
                if sp.kind == "inv" and g != pow(vs[l], p - 2, p): why = "lane %d: inverse of %#x computed as %#x" % (l, vs[l] % p, g)
                if sp.kind == "srt" and (g * g - vs[l]) % p: why = "lane %d: %#x returned as square root of %#x" % (l, g, vs[l] % p)
            if not alias and a.get() != bytes(raw) and rep.name != "full": why = "the operand is modified"
            if not (a.guards() and c.guards()): why = "writes outside the output"
            if why: return dict(function=sp.slot, alias=alias, digits=ds, result=why)
        return None
    return rp.in_child(run)
def replay(tasks, seconds=60):
    t0 = time.time()
    for r in range(4):
        for sp, al, off in tasks:
            if time.time() - t0 > seconds: return None
            x = trials(sp, al, off, 400 << 2 * r, 5 + r)
            if x: return x
    return None
