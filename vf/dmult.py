"""Double-base multiplication of signature verification (C13): recoding, tables and the main loop.

Loops whose trip count depends on data are cut at their header: the header is found by running one path to the first back
edge behind a data-dependent branch; the verification run checks the invariant when the header is entered first, replaces the
loop state by fresh unknowns, executes one iteration along every path, and checks the invariant again at the back edge.

  recoding(K,r,w)      invariant: r = sum of K[j]*2^j for j < i  plus  2^i * R     (R: the words of the loop state)
                       step: K[i] is 0 or odd, |K[i]| < 2^(w-1), 2R' + K[i] = R; the loop is left exactly when R = 0
  double point mult    invariant: Q = sum over j > i of 2^(j-i-1) * (s_j*B + h_j*A);  step: Q' = 2Q + s_i*B + h_i*A;
                       the loop starts above all nonzero digits and is left at i = -1"""
import time
from .core import *
from .exe import Obj
from .fld import *
from .fe import V
from . import fm, fieldspecs, points, mult
from .points import *
from .mult import PM, Pt

class PathDone(Exception): pass
def leaf(p): return Ptr(p.obj, p.off)

class Cut:
    """loop cutting for a machine m at the header hdr of function fn"""
    def __init__(s, fn, hdr=None): s.fn, s.hdr, s.snap, s.first = fn, hdr, {}, True
    # discovery: the first back edge behind a data-dependent branch
    def attach(s, m):
        s.m = m; s.seen = set()
        m.onblock = s.onblock; m.backedge = s.onback
    def ready(s): return s.m.branches or s.m.forked
    def memory(s):
        return {o: dict(o.cells) for o in s.m.objs if not o.const and o.live}
    def onblock(s, m, f, env, blk):
        if f.name != s.fn: return
        if s.hdr is None:
            if blk not in s.snap: s.snap[blk] = (s.memory(), len(m.branches) + m.forked)
            return
        if blk == s.hdr and s.first:
            s.first = False; s.enter(f, env, blk)
    def onback(s, m, f, env, blk, nxt):
        if f.name != s.fn: return
        if s.hdr is None:
            if nxt in s.snap and len(m.branches) + m.forked > s.snap[nxt][1]:
                s.hdr = nxt; old = s.snap[nxt][0]
                s.changed = [o.name for o in m.objs if not o.const and o.live and old.get(o) != o.cells]
                raise PathDone()
            return
        if nxt == s.hdr: s.back(f, env, blk, nxt); raise PathDone()
    def phis(s, f, env, blk):
        """(name, type, current value, value along the edge from blk)"""
        out = []
        for x in f.blocks[s.hdr]:
            if x.op != "phi": break
            new = None
            for v, b in x.a:
                if b == blk: new = s.m.val(env, v, x.ty)
            out.append((x.res, x.ty, env.get(x.res), new))
        return out
    def frame(s, state):
        """every initialised object outside the loop state keeps its contents"""
        for o, cells in s.held.items():
            if o not in state and o.live and cells and o.cells != cells: raise Unsupported("the loop of %s also changes %s" % (s.fn, o.name))
    def same(s, a, b):
        if isinstance(a, W) or isinstance(b, W):
            if isinstance(a, (Ptr,)) or isinstance(b, Ptr) or a is None or b is None: return False
            w = (a if isinstance(a, W) else b).w
            return s.m.c.norm(s.m.c.tow(a, w)).p == s.m.c.norm(s.m.c.tow(b, w)).p
        return a == b

class Forks:
    """n-way case distinctions"""
    forked = 0
    def decide(s):
        if s.pos < len(s.decisions): d = s.decisions[s.pos]
        else: d = 0; s.decisions.append(0); s.pending.append(s.decisions[:s.pos] + [1])
        s.pos += 1; s.forked += 1
        return d
    def choose(s, n):
        for j in range(n - 1):
            if not s.decide(): return j
        return n - 1
    def new(s, *a, **k):
        o = super().new(*a, **k); s.objs.append(o); return o
    def sel(s, c, a, b, w):
        if s.fork_sel and isinstance(c, W):
            d = s.truth(c, "select"); return a if d else b
        return super().sel(c, a, b, w)
    def never(s, q, test):
        c = s.c; h = c.atoms_of(q) | set(c.assume); p = c.subst(q, c.assume); lo, hi = c.pbounds(p)
        return c.lia(h, lambda zp: test(zp(q)))
    def is_zero(s, q):
        p = s.c.subst(q, s.c.assume)
        if not p: return True
        return s.never(p, lambda z: z >= 1) and s.never(p, lambda z: z <= -1)
    def at_most(s, q, k):
        p = s.c.subst(q, s.c.assume); lo, hi = s.c.pbounds(p)
        return hi <= k or s.never(p, lambda z: z >= k + 1)

# ---------------------------------------------------------------- recoding
from .exe import Machine as _M
class WM(Forks, _M):
    fork_sel = True
    def __init__(s, mod): s.objs = []; super().__init__(mod); s.fork_ok = s.fork_masks = True
WNAF = {"255": ("wnaf_256bits", 32, 253, (7, 5)), "448": ("wnaf_448bits", 57, 446, (7, 5))}
def gword(c, nm, top, low):
    """an arbitrary word below 2^top, its low bits apart"""
    p = {}; low = min(low, top)
    for j in range(low): p[(c.atom("%s.%d" % (nm, j), 0, 1).id,)] = 1 << j
    if top > low: p[(c.atom(nm, 0, (1 << top - low) - 1).id,)] = 1 << low
    return W(64, p, 0, (1 << top) - 1)
class RecodeCut(Cut):
    def enter(s, f, env, blk):
        m = s.m; c = m.c; s.words = []; n = s.nw; s.cells = {}; s.names = {}
        ent = {j: w.p for j, w in enumerate(s.inw)}
        def word(v): 
            if isinstance(v, int): return [j for j in ent if ent[j] == (pconst(v) if v else {})]
            q = c.norm(c.tow(v, 64)).p
            return [j for j in ent if not c.expand(psub(q, ent[j]))]
        got = {}
        for nm, ty, cur, _ in s.phis(f, env, None):
            if ty.k == "int" and ty.w == 64 and isinstance(cur, W):
                j = word(cur)
                if len(j) == 1: s.names[nm] = j[0]; got[j[0]] = 1
        for o in m.objs:
            if o.name not in s.changed or o.kind == "arg" and o is not s.K.obj: continue
            if o is s.K.obj: continue
            for off in range(0, o.size - 7, 8):
                v = m.load_int(Ptr(o, off), 8)
                if isinstance(v, Undef): continue
                if isinstance(v, int): s.cells[o, off] = None; continue
                j = word(v)
                if len(j) == 1: s.cells[o, off] = j[0]; got[j[0]] = 1
                else: raise Unsupported("loop state of %s is not the words of the scalar" % s.fn)
        # words that are constant at the header: zero words above the scalar, by position
        for (o, off), j in list(s.cells.items()):
            if j is None:
                j = off // 8; v = m.load_int(Ptr(o, off), 8)
                if v == 0 and j not in got: s.cells[o, off] = j; got[j] = 0
                else: raise Unsupported("loop state of %s" % s.fn)
        if [j for j in got if j >= n and got[j]] or [j for j in range(n) if j not in got]: raise Unsupported("the words of the scalar are not the loop state of %s" % s.fn)
        # fresh words below 2^top
        tot = max(got) + 1; s.fresh = [gword(c, "R%d" % j, max(0, min(64, s.top - 64 * j)), s.w if j == 0 else 1) for j in range(tot)]
        for nm, j in s.names.items(): env[nm] = s.fresh[j]
        for (o, off), j in s.cells.items(): m.store_int(Ptr(o, off), 8, s.fresh[j])
        s.R = {}
        for j, w in enumerate(s.fresh): s.R = padd(s.R, pscale(w.p, 1 << 64 * j))
        s.cnt = None; s.keep = {}
        for nm, ty, cur, _ in s.phis(f, env, None):
            if nm in s.names: continue
            if ty.k == "int" and cur == 0 and s.cnt is None and nm in s.moving:
                a = c.atom("i", 0, s.cap - 1); s.I = {(a.id,): 1}; env[nm] = W(ty.w, s.I, 0, s.cap - 1); s.cnt = nm
            else: s.keep[nm] = cur
        if s.cnt is None: raise Unsupported("the loop of %s has no counter" % s.fn)
        s.res.ok("invariant:entry R = r, i = 0", "identity of words")
        s.kstores = []; s.held = s.memory()
    def back(s, f, env, blk, nxt):
        m = s.m; c = m.c; res = s.res; tag = "[path %s]" % "".join(map(str, m.decisions[:m.pos])); new = {}
        s.frame(set(o for o, _ in s.cells))
        for nm, ty, cur, nw in s.phis(f, env, blk):
            if nm in s.names: new[s.names[nm]] = nw
            elif nm == s.cnt:
                d = psub(psub(c.norm(c.tow(nw, ty.w)).p, s.I), pconst(1))
                if d: res.bad("invariant:counter" + tag, "the digit index does not advance by one")
            elif not s.same(s.keep[nm], nw): raise Unsupported("loop state of %s: %s" % (s.fn, nm))
        for (o, off), j in s.cells.items(): new[j] = m.load_int(Ptr(o, off), 8)
        if any(isinstance(v, Undef) for v in new.values()): res.bad("invariant:words" + tag, "a word of the loop state is undefined"); return
        ws = {j: c.norm(c.tow(v, 64)) for j, v in new.items()}
        V_ = {}
        for j, w in ws.items(): V_ = padd(V_, pscale(w.p, 1 << 64 * j))
        if len(s.kstores) != 1: res.bad("digit:store" + tag, "%d digits are written in one iteration" % len(s.kstores)); return
        off, v = s.kstores[0]
        if c.subst(psub(off, s.I), c.assume): res.bad("digit:index" + tag, "the digit is not written at the current index"); return
        b = c.norm(c.tow(v, 8))
        p = c.subst(b.p, c.assume); lo, hi = c.pbounds(p)
        if hi <= 127 or m.at_most(p, 127): d = p
        elif lo >= 128 or m.at_most(pscale(p, -1), -128): d = psub(p, pconst(256))
        else: raise Unsupported("sign of the digit")
        lim = (1 << s.w - 1) - 1
        if d:
            ev = [k for mm, k in d.items() if mm and k & 1]
            if not ev and d.get((), 0) & 1: res.ok("digit:odd" + tag, "coefficients")
            else: res.bad("digit:odd" + tag, "a nonzero digit may be even"); return
        if m.at_most(d, lim) and m.at_most(pscale(d, -1), lim): res.ok("digit:|d| <= %d%s" % (lim, tag), "interval or linear arithmetic")
        else: res.bad("digit:range" + tag, "a digit may exceed %d" % lim)
        # 2R' + d = R
        q = psub(padd(pscale(V_, 2), d), s.R)
        if m.is_zero(q): res.ok("step:2R'+d=R" + tag, "integer identity" if not c.subst(q, c.assume) else "linear integer arithmetic")
        else: res.bad("step:2R'+d=R" + tag, "the scalar is not preserved by one step of the recoding")
        # the loop body is entered only when R >= 1
        s.iter += 1
        if m.at_most(psub(s.R, d), (1 << s.top + 1) - 1): res.ok("invariant:R' < 2^%d%s" % (s.top, tag), "2R' = R - d, interval arithmetic")
        else: res.bad("invariant:range" + tag, "R may reach 2^%d" % s.top)
        if m.never(s.R, lambda z: z <= 0): res.ok("exit:body only when R > 0" + tag, "linear integer arithmetic")
        else: res.bad("exit:body" + tag, "the loop continues with R = 0: more digits than the buffer holds")
def length_bound(top, w):
    """iterations until R = 0 from R < 2^top, by R' <= (R + 2^(w-1) - 1)/2 and, below 2^(w-1), R' <= R/2 (an odd R < 2^(w-1) is its own digit)"""
    u = (1 << top) - 1; n = 0; h = (1 << w - 1) - 1
    while u:
        u = (u + h) // 2 if u > h else u // 2; n += 1
        if n > 4 * top: return None
    return n
def verify_wnaf(fn, nbytes, w, top, cap):
    """the recoding of every scalar below 2^top with window w; at most cap digits"""
    t0 = time.time(); R_ = Result("%s[w=%d]" % (fn, w)); R_.insts = []; nw = (top + 63) // 64
    def setup(dec):
        m = WM(module()); m.decisions = dec; m.pending = []
        K = m.new("K", cap, "arg"); r = m.new("r", nbytes, "arg"); c = m.c; inw = []
        for j in range((nbytes + 7) // 8):
            x = gword(c, "r%d" % j, max(0, min(64, top - 64 * j)), 1)
            if 8 * j + 8 <= nbytes: r.cells[8 * j] = (x, 8); inw.append(x)
            else:
                for i in range(8 * j, nbytes): r.cells[i] = (0, 1)
        return m, Ptr(K), Ptr(r), inw
    m, K, r, inw = setup([]); cut = Cut(fn); cut.attach(m); stores0 = []
    m.symstore_hook = lambda m_, p, ty, v: None
    # discovery on a path with R > 0
    pend = [[]]; tries = 0
    while cut.hdr is None and pend and tries < 40:
        m, K, r, inw = setup(pend.pop()); cut.snap = {}; cut.attach(m); tries += 1
        try: m.call(fn, [K, r, w])
        except PathDone: break
        pend += m.pending
    if cut.hdr is None: raise Unsupported("no loop over the scalar is recognised in %s" % fn)
    hdr, changed = cut.hdr, cut.changed
    f = m.m.funcs[fn]; moving = set(x.res for x in f.blocks[hdr] if x.op == "phi")
    pend = [[]]; n = 0; iters = 0; exits = 0
    while pend:
        m, K, r, inw = setup(pend.pop()); n += 1
        if n > 400: raise Unsupported("too many paths in %s" % fn)
        cut = RecodeCut(fn, hdr); cut.attach(m); cut.changed, cut.moving, cut.nw, cut.w, cut.top, cut.cap, cut.res, cut.inw, cut.K, cut.iter = changed, moving, nw, w, top, cap, R_, inw, K, 0
        cut.kstores = []; snap = dict(r.obj.cells)
        def hook(m_, p, ty, v):
            if p.obj is not K.obj: raise Unsupported("store at a symbolic address outside the digits")
            off = m_.c.norm(p.off)
            if ir_size(ty) != 1 or off.lo < 0 or off.hi >= cap: raise Violation("bounds:digits", "a digit is written outside the buffer of %d at %s" % (cap, m_.where()))
            cut.kstores.append((off.p, v))
        m.symstore_hook = hook
        try:
            ret = m.call(fn, [K, r, w])
            tag = "[path %s]" % "".join(map(str, m.decisions[:m.pos])); c = m.c
            if cut.first: R_.bad("exit" + tag, "the function returns before its loop")
            else:
                exits += 1
                if m.never(cut.R, lambda z: z >= 1): R_.ok("exit:R = 0" + tag, "linear integer arithmetic")
                else: R_.bad("exit:R = 0" + tag, "the recoding stops before all digits are produced")
                q = c.norm(c.tow(ret, 32)).p
                if q == cut.I: R_.ok("exit:returns the number of digits" + tag, "identity")
                else: R_.bad("exit:length" + tag, "the number of digits returned is wrong")
                if cut.kstores: R_.bad("exit:store" + tag, "digits are written after the loop")
        except PathDone: iters += cut.iter
        if {k: v for k, v in r.obj.cells.items()} != snap: R_.bad("frame:scalar", "the scalar is modified")
        if any(k for k in K.obj.cells): R_.bad("frame:digits", "digits are written outside the loop")
        pend += m.pending
        if len(R_.fail) > 8: break
    if not iters or not exits: R_.bad("paths", "no complete iteration or no exit")
    L = length_bound(top, w)
    if L is None or L > cap: R_.bad("length", "the number of digits may exceed %d" % cap)
    else: R_.ok("length:at most %d digits of %d" % (L, cap), "integer recursion", 0.0)
    R_.ok("memory-safety:%d accesses" % m.access_checks, "bounds of every access", 0.0)
    R_.len = L; R_.wall = time.time() - t0; R_.paths = n
    return R_
def ir_size(ty):
    from . import ir
    return ir.size_of(ty)

# ---------------------------------------------------------------- tables
NAMES = {"255": dict(main="double_point_mult_4w_ed25519", pre="precompute_points_4w_ed25519", read="read_point_4w_ed25519", enc="point_encoding_ed25519", cap=260, n=32),
         "448": dict(main="double_point_mult_4w_ed448", pre="precompute_points_4w_ed448", read="read_point_4w_ed448", enc="point_encoding_ed448", cap=460, n=57)}
DYN = 8
def verify_read(f, ds):
    """the static table: the entry of every odd digit"""
    cv = curve_of(f); fn = NAMES[f.tag]["read"]; t0 = time.time(); R_ = Result("%s[%d..%d]" % (fn, ds[0], ds[-1])); K = KINDS[f.tag]["pre4"]; p = f.p; pt = K.pts[0]; R_.outb = {}; R_.insts = []
    for d in ds:
        mc = Machine(module()); P = mc.new("P", K.size, "arg")
        try: mc.call(fn, [Ptr(P), d & 0xff])
        except Violation as e: R_.bad("table:%+d" % d, e.msg); continue
        x, y = cv.mul(d, cv.B); want = dict(add=(y + x) % p, sub=(y - x) % p, dt=2 * cv.d * x % p * y % p, z2=2); why = ""
        for c, (off, rep, lane) in pt.items():
            v = [mc.load_int(Ptr(P, off + rep.off(lane, i)), 8) for i in range(rep.n)]
            if not all(isinstance(z, int) for z in v): why = "%s is undefined" % c; break
            R_.outb[c] = [max(a, b) for a, b in zip(v, R_.outb.get(c, [0] * rep.n))]
            if (sum(z << w for z, w in zip(v, rep.weights)) - want[c]) % p: why = "%s is not that of %+d times the base point" % (c, d); break
            if any(z > b for z, b in zip(v, maxb(rep))): why = "a digit of %s is out of bounds" % c
        if why: R_.bad("table:%+d" % d, why)
        else: R_.ok("table:%+d" % d, "concrete execution")
        if len(R_.fail) > 3: break
    R_.wall = time.time() - t0
    return R_
def put_point(mc, f, kd, o, P, z, bound=None):
    E = mc.fe[f.tag]
    for c, t in coords(E, P.cv, kd.pts[0], P.x, P.y, z).items():
        off, rep, lane = kd.pts[0][c]; mc.write(f, rep, Ptr(o, off), lane, t.t, (bound or {}).get(c) or maxb(rep))
def verify_precompute(f):
    """table[k] represents (2k+1)*A for every point A of the group"""
    fn = NAMES[f.tag]["pre"]; t0 = time.time(); mc = PM(module(), [f]); R_ = Result(fn); R_.need = mc.need; R_.insts = []; K = KINDS[f.tag]; cv = curve_of(f)
    T = mc.new("table", DYN * K["pre4"].size, "arg"); o = mc.new("P", K["xytz4"].size, "arg")
    A = mc.newpt(cv, {"A": pconst(1)}); put_point(mc, f, K["xytz4"], o, A, mc.unit_var(f, "zA"))
    try: mc.call(fn, [Ptr(T), Ptr(o)])
    finally: R_.insts = mc.results()
    R_.outb = {}; need = {"add", "sub", "dt", "z2"}; kd = K["pre4"]
    for k in range(DYN):
        t, b = mc.read_point(f, Ptr(T, k * kd.size), kd.pts[0], need); P = mc.identify(cv, t, need)
        if P is None: R_.bad("post:table[%d]" % k, "the entry is not a known point"); continue
        if P.val != {"A": pconst(2 * k + 1)}: R_.bad("post:table[%d]" % k, "the entry is %s times A" % mc.c.show(P.val.get("A", {}))); continue
        R_.ok("post:table[%d] = %dA" % (k, 2 * k + 1), "field term identity; value by the contracts of the point functions")
        for c, x in b.items(): R_.outb[c] = [max(u, v) for u, v in zip(x, R_.outb.get(c, x))]
    R_.outb = {c: [fm.round_up(x) for x in b] for c, b in R_.outb.items()}
    R_.ok("memory-safety:%d accesses" % mc.access_checks, "bounds of every access (concrete addresses)", 0.0)
    R_.wall = time.time() - t0
    return R_

# ---------------------------------------------------------------- the main loop
class Enc(Exception): pass
class DM(Forks, PM):
    fork_sel = True
    def __init__(s, f, relied):
        s.objs = []; s.f = f; s.digits = {}; s.memo = {}; s.relied = relied; s.cur = {}; s.enc = []
        PM.__init__(s, module(), [f]); s.fork_ok = s.fork_masks = True; N = NAMES[f.tag]
        s.contracts[WNAF[f.tag][0]] = lambda m, a: m.h_wnaf(a)
        s.contracts[N["pre"]] = lambda m, a: m.h_pre(a)
        s.contracts[N["read"]] = lambda m, a: m.h_readp(a)
        s.contracts[N["enc"]] = lambda m, a: m.h_encp(a)
        s.contracts["div4"] = lambda m, a: m.h_div4(a)
        s.symload_hook = lambda m, p, ty: m.digit_load(p, ty)
        def st(m, p, ty, v): raise Unsupported("store at a symbolic address at %s" % m.where())
        s.symstore_hook = st
    def rely(s, key, fn, *a): s.relied[key] = (fn, a)
    def h_div4(s, a):
        d, n = a; s.check(d, 57, "write"); s.check(n, 56, "read")
        from . import scal
        s.rely(("div4",), scal.verify_div4)
        if s.overlap(d, 57, n, 56): raise Unsupported("overlapping arguments of div4")
        v = s.number(n, 56, "div4")
        w = s.put_scalar(d, 57, 446); s.divs.append((w, v))
    def number(s, p, n, nm):
        v = {}
        for i in range(n):
            x = s.load_int(Ptr(p.obj, p.off + i), 1)
            if isinstance(x, Undef): raise Violation("uninitialised", "byte %d given to %s is uninitialised at %s" % (i, nm, s.where()))
            v = padd(v, pscale(s.c.norm(s.c.tow(x, 8)).p, 1 << 8 * i))
        return v
    def h_wnaf(s, a):
        K, r, w = a; fn, nb, top, ws = WNAF[s.f.tag]
        if w not in ws or not isinstance(w, int): raise Unsupported("window of the recoding at %s" % s.where())
        s.check(r, nb, "read"); L = length_bound(top, w)
        v = s.number(r, (top + 7) // 8, fn)
        if s.c.pbounds(v)[1] >> top: raise Violation("precondition:" + fn, "the scalar may reach 2^%d at %s" % (top, s.where()))
        if K.off: raise Unsupported("digits inside a larger object at %s" % s.where())
        s.check(K, L, "write")
        for i in range(K.obj.size):
            if s.load_int(Ptr(K.obj, i), 1) != 0: raise Violation("precondition:" + fn, "the digit buffer is not zero at %s: digits beyond the last one are read" % s.where())
        s.rely(("wnaf", s.f.tag, w), verify_wnaf, fn, nb, w, top, L)
        if s.choose(2): ln = W(32, {(s.c.atom("len%d" % len(s.digits), 1, L).id,): 1}, 1, L)
        else: ln = 0
        s.digits[K.obj] = dict(value=v, w=w, len=ln)
        return ln
    def h_pre(s, a):
        T, P = a; f = s.f; K = KINDS[f.tag]; cv = curve_of(f); kd = K["pre4"]
        s.check(T, DYN * kd.size, "write"); s.check(P, K["xytz4"].size, "write"); need = {"X", "Y", "Z", "T"}
        t, b = s.read_point(f, P, K["xytz4"].pts[0], need); A = s.identify(cv, t, need)
        if A is None or A.val != {"A": pconst(1)}: raise Violation("precondition:precompute", "the table is not computed from the given point at %s" % s.where())
        for c, x in b.items():
            if any(u > v for u, v in zip(x, maxb(K["xytz4"].pts[0][c][1]))): raise Violation("precondition:precompute", "digits of the point exceed their bounds")
        r = s.pre; s.havoc(P, K["xytz4"].size)
        for k in range(DYN):
            Q = s.newpt(cv, {"A": pconst(2 * k + 1)}); put_point(s, f, Kind("", 0, [{c: (o + k * kd.size, rp, l) for c, (o, rp, l) in kd.pts[0].items()}]), T.obj if T.off == 0 else None, Q, s.unit_var(f, "zt%d" % k), r.outb)
        s.table = (T.obj, kd.size)
    def h_readp(s, a):
        P, d = a; f = s.f; cv = curve_of(f); kd = KINDS[f.tag]["pre4"]; s.check(P, kd.size, "write")
        if isinstance(d, Undef): raise Violation("uninitialised", "digit given to %s" % NAMES[f.tag]["read"])
        p = s.c.norm(s.c.tow(d, 8)); p = s.c.subst(p.p, s.c.assume); lo, hi = s.c.pbounds(p)
        if lo >= 128: p = psub(p, pconst(256)); lo -= 256; hi -= 256
        if lo < -63 or hi > 63 or not p.get((), 0) & 1 or any(k & 1 for m, k in p.items() if m): raise Violation("precondition:read_point", "the digit is not odd or exceeds 63 at %s" % s.where())
        Q = s.newpt(cv, {"B": p}); put_point(s, f, kd, P.obj, Q, V(s.fe[f.tag], s.fe[f.tag].const(1)), s.readb) if P.off == 0 else s.unsup()
    def unsup(s): raise Unsupported("table entry inside a larger object at %s" % s.where())
    def h_encp(s, a):
        out, P = a; f = s.f; N = NAMES[f.tag]; kd = KINDS[f.tag]["xytz2"]; s.check(out, N["n"], "write"); s.check(P, kd.size, "read"); need = {"X", "Y", "Z"}
        cv = ED25519 if f is F255 else ED448
        t, b = s.read_point(f, P, kd.pts[0], need); A = s.identify(cv, t, need)
        if A is None: raise Violation("post:point", "the encoded value is not a known point at %s" % s.where())
        for c, x in b.items():
            if c in need and any(u > v for u, v in zip(x, maxb(kd.pts[0][c][1]))): raise Violation("precondition:encoding", "digits of %s exceed the bounds of the encoding" % c)
        s.enc.append((out, A.val))
        for i in range(N["n"]): s.store_int(Ptr(out.obj, out.off + i), 1, W(8, {(s.c.atom("e%d" % i, 0, 255).id,): 1}, 0, 255))
    # ------------------------------------------------------------ digits
    def i_load(s, x, env):
        p = s.val(env, x.a[0], ir_PTR)
        if isinstance(p, Ptr) and p.obj in s.digits: env[x.res] = s.digit_load(p, x.ty); return
        return super().i_load(x, env)
    def digit_load(s, p, ty):
        D = s.digits.get(p.obj)
        if D is None or ir_size(ty) != 1: raise Unsupported("load at a symbolic address at %s" % s.where())
        off = p.off; off = off if isinstance(off, int) else s.c.norm(off)
        q = pconst(off) if isinstance(off, int) and off else {} if isinstance(off, int) else off.p
        s.access_checks += 1
        ok = 0 <= off < p.obj.size if isinstance(off, int) else (s.at_most(q, p.obj.size - 1) and s.at_most(pscale(q, -1), 0))
        if not ok: raise Violation("bounds:digits", "digit read outside the buffer at %s" % s.where())
        k = (id(p.obj), tuple(sorted(s.c.subst(q, s.c.assume).items())))
        if k not in s.memo:
            h = 1 << D["w"] - 1; nm = "d%d" % len(s.memo)
            if D["w"] <= 5:
                j = s.choose(1 + h)
                d = [0] + [x * y for x in range(1, h, 2) for y in (1, -1)]
                b = d[j]; r = b & 0xff; b = pconst(b) if b else {}
            else:
                j = s.choose(3)
                if j == 0: r, b = 0, {}
                else:
                    a = s.c.atom(nm, 0, h // 2 - 1); b = {(a.id,): 2, (): 1}
                    if j == 2: b = pscale(b, -1); r = W(8, padd(b, pconst(256)), 257 - h, 255)
                    else: r = W(8, b, 1, h - 1)
            s.memo[k] = (r, b); s.cur.setdefault(p.obj, []).append((q, b))
        return s.memo[k][0]

class LoopCut(Cut):
    def enter(s, f, env, blk):
        """the loop is entered with Q the identity and the counter at or above the last digit"""
        m = s.m; c = m.c; res = s.res; s.tag = "[entry %s]" % "".join(map(str, m.decisions[:m.pos])); s.keep = {}; s.cnt = None
        kd = KINDS[m.f.tag]["xytz4"]; cv = curve_of(m.f)
        s.Qs = []
        for o in m.objs:
            if o.name not in s.changed or not o.live or o.kind == "arg" or o in m.digits: continue
            if not o.cells: continue
            if o.size == kd.size: s.Qs.append(o)
            else: raise Unsupported("loop state %s of %s" % (o.name, s.fn))
        if len(s.Qs) != 1: raise Unsupported("the loop state of %s is not one point" % s.fn)
        need = {"X", "Y", "T", "Z"}; t, b = m.read_point(m.f, Ptr(s.Qs[0]), kd.pts[0], need); A = m.identify(cv, t, need)
        if A is None or A.val: res.bad("invariant:entry Q = 0" + s.tag, "the accumulator does not start as the identity")
        for nm, ty, cur, _ in s.phis(f, env, None):
            if nm in s.moving and ty.k == "int" and s.cnt is None:
                lo = c.norm(c.tow(cur, ty.w)); q = lo.p; w = ty.w
                sg = q if lo.hi < 1 << w - 1 else psub(q, pconst(1 << w)) if lo.lo >= 1 << w - 1 else None
                if sg is None: raise Unsupported("sign of the loop counter")
                for o, D in m.digits.items():
                    L = D["len"]; Lp = L.p if isinstance(L, W) else pconst(L) if L else {}
                    if m.at_most(psub(psub(Lp, pconst(1)), sg), 0): pass
                    else: res.bad("invariant:entry counter" + s.tag, "the loop starts below the last digit of %s" % o.name)
                if not m.at_most(sg, s.cap - 1): res.bad("bounds:counter" + s.tag, "the counter starts beyond the digit buffer")
                s.cnt = nm; s.w = ty.w
            else: s.keep[nm] = cur
        if s.cnt is None: raise Unsupported("the loop of %s has no counter" % s.fn)
        if not res.fail: res.ok("invariant:entry Q = 0, i >= length-1" + s.tag, "interval or linear arithmetic")
        # arbitrary later state
        m.cur = {}; m.memo = {}
        if m.choose(2):
            a = c.atom("i", 0, s.cap - 1); s.I = {(a.id,): 1}; env[s.cnt] = W(s.w, s.I, 0, s.cap - 1)
        else: s.I = pconst(-1); env[s.cnt] = (1 << s.w) - 1
        s.Q = m.newpt(cv, {"Q": pconst(1)}); put_point(m, m.f, kd, s.Qs[0], s.Q, m.unit_var(m.f, "zQ"), s.qb); s.held = s.memory()
    def back(s, f, env, blk, nxt):
        s.frame(set(s.Qs))
        m = s.m; c = m.c; res = s.res; tag = "[path %s]" % "".join(map(str, m.decisions[:m.pos]))
        for nm, ty, cur, nw in s.phis(f, env, blk):
            if nm == s.cnt:
                d = padd(psub(c.norm(c.tow(nw, ty.w)).p, s.I), pconst(1)); d = {k: v % (1 << s.w) for k, v in c.subst(d, c.assume).items() if v % (1 << s.w)}
                if d and not m.is_zero(d): res.bad("invariant:counter" + tag, "the digit index does not decrease by one")
            elif not s.same(s.keep[nm], nw): raise Unsupported("loop state of %s: %s" % (s.fn, nm))
        kd = KINDS[m.f.tag]["xytz4"]; cv = curve_of(m.f); need = {"X", "Y", "T", "Z"}
        t, b = m.read_point(m.f, Ptr(s.Qs[0]), kd.pts[0], need); A = m.identify(cv, t, need)
        if A is None: res.bad("invariant:Q" + tag, "the accumulator is not a known point"); return
        want = {"Q": pconst(2)}
        for o, D in m.digits.items():
            l = [b2 for q, b2 in m.cur.get(o, []) if not c.subst(psub(q, s.I), c.assume)]
            if len(l) != 1 or len(m.cur.get(o, [])) != 1: res.bad("invariant:digit" + tag, "not exactly the current digit of each scalar is used"); return
            g = s.gen[o]
            if l[0]: want[g] = padd(want.get(g, {}), l[0])
        d = vadd_(A.val, want)
        if d: res.bad("step:Q' = 2Q + s_i*B + h_i*A" + tag, "the accumulator is wrong by %s" % {g: c.show(p) for g, p in d.items()})
        else: res.ok("step:Q' = 2Q + s_i*B + h_i*A" + tag, "values of points by contract")
        for cc, x in b.items():
            if any(u > v for u, v in zip(x, s.qb[cc])): res.bad("bound:Q.%s%s" % (cc, tag), "digits exceed the invariant")
        s.iter += 1
def vadd_(a, b): return mult.vadd(a, b, -1)
from . import ir as _ir
ir_PTR = _ir.PTR

def setup_double(f, dec, pre, readb, relied):
    m = DM(f, relied); m.decisions = dec; m.pending = []; m.pre = pre; m.readb = readb; m.divs = []; N = NAMES[f.tag]; K = KINDS[f.tag]; cv = curve_of(f)
    out = m.new("out", N["n"], "arg"); sc = m.new("s", N["n"], "arg"); h = m.new("h", N["n"], "arg"); A = m.new("A", K["xytz4"].size, "arg")
    if f is F255: sv, hv = m.put_scalar(Ptr(sc), 32, 253), m.put_scalar(Ptr(h), 32, 253)
    else:
        sv, hv = {}, {}
        for o, v in ((sc, sv), (h, hv)):
            for i in range(57):
                a = m.c.atom("%s%d" % (o.name, i), 0, 255); o.cells[i] = (W(8, {(a.id,): 1}, 0, 255), 1)
                if i < 56: v[(a.id,)] = 1 << 8 * i
    P = m.newpt(cv, {"A": pconst(1)}); put_point(m, f, K["xytz4"], A, P, m.unit_var(f, "zA"))
    return m, out, sc, h, A, sv, hv
def verify_double(f, part=0, parts=1):
    """enc([s]B + [h]A) for all scalars; part/parts select the paths through the loop body"""
    N = NAMES[f.tag]; fn = N["main"]; t0 = time.time(); R_ = Result("%s[part %d]" % (fn, part) if parts > 1 else fn); R_.insts = []; R_.need = {}; R_.relied = {}
    pre = verify_precompute(f); R_.relied["precompute", f.tag] = (verify_precompute, (f,))
    if pre.fail or pre.unsup: R_.bad("callee:" + N["pre"], "%s" % (pre.fail or pre.unsup)[:2]); return R_
    rd = {"add": None}
    odd = [d for d in range(-63, 64) if d & 1]; chunks = [odd[:32], odd[32:]]
    readb = {c: maxb(rep) for c, (o, rep, l) in KINDS[f.tag]["pre4"].pts[0].items()}
    for ch in chunks: R_.relied["read", f.tag, ch[0]] = (verify_read, (f, ch))
    pend = [[]]; cut = Cut(fn); tries = 0
    while cut.hdr is None and pend and tries < 40:
        m, out, sc, h, A, sv, hv = setup_double(f, pend.pop(), pre, readb, R_.relied); cut.snap = {}; cut.attach(m); tries += 1
        try: m.call(fn, [Ptr(out), Ptr(sc), Ptr(h), Ptr(A)])
        except PathDone: break
        pend += m.pending
    if cut.hdr is None: raise Unsupported("no loop over digits is recognised in %s" % fn)
    hdr, changed = cut.hdr, cut.changed; fi = m.m.funcs[fn]; moving = set(x.res for x in fi.blocks[hdr] if x.op == "phi")
    qb = {c: maxb(rep) for c, (o, rep, l) in KINDS[f.tag]["xytz4"].pts[0].items()}
    pend = [[]]; n = 0; iters = exits = 0; entered = None
    while pend:
        dec = pend.pop(); m, out, sc, h, A, sv, hv = setup_double(f, dec, pre, readb, R_.relied); n += 1
        if n > 3000: raise Unsupported("too many paths in %s" % fn)
        lc = LoopCut(fn, hdr); lc.attach(m); lc.changed, lc.moving, lc.res, lc.cap, lc.qb, lc.iter = changed, moving, R_, N["cap"], qb, 0
        lc.gen = {}; ent = lc.enter
        def enter(f_, env, blk, lc=lc, m=m):
            nonlocal entered
            for o, D in m.digits.items():
                v = D["value"]
                for gname, val in (("B", sv), ("A", hv)):
                    if v == val or any(w == v and x == val for w, x in m.divs): lc.gen[o] = gname
            if len(lc.gen) != 2 or len(set(lc.gen.values())) != 2: raise Violation("precondition:digits", "the loop does not use the digits of both scalars")
            ent(f_, env, blk)
            pfx = m.decisions[:m.pos - 1]
            if entered is None: entered = list(pfx)
            if pfx != entered and m.decisions[m.pos - 1]: raise PathDone()     # the loop body is examined once, from an arbitrary state
        lc.enter = enter
        try:
            m.call(fn, [Ptr(out), Ptr(sc), Ptr(h), Ptr(A)])
            tag = "[path %s]" % "".join(map(str, m.decisions[:m.pos])); exits += 1
            if lc.first: raise Violation("post:loop", "the function returns without its loop" + tag)
            if lc.I != pconst(-1): R_.bad("exit" + tag, "the loop may be left before the last digit")
            k = 1 if f is F255 else 4
            if len(m.enc) == 1 and m.enc[0][0] == Ptr(out) and m.enc[0][1] == {"Q": pconst(k)}: R_.ok("post:encodes the accumulator" + tag, "values of points by contract")
            else: R_.bad("post:encoding" + tag, "the result is not the encoding of the accumulator")
        except PathDone: iters += lc.iter
        finally:
            for q in m.results():
                if not any(q is x for x in R_.insts): R_.insts.append(q)
            for kk, b in m.need.items(): R_.need[kk] = b if kk not in R_.need else [max(x, y) for x, y in zip(b, R_.need[kk])]
        pend += m.pending
        if len(R_.fail) > 6: break
    if not iters or not exits: R_.bad("paths", "no complete iteration or no exit")
    R_.ok("memory-safety:%d accesses per path" % m.access_checks, "bounds of every access", 0.0)
    R_.paths = n; R_.wall = time.time() - t0
    return R_

def tasks(f):
    """the double multiplication and every contract it relies on"""
    N = NAMES[f.tag]; fn, nb, top, ws = WNAF[f.tag]; T = [(verify_double, (f,)), (verify_precompute, (f,))]
    odd = [d for d in range(-63, 64) if d & 1]
    for i in range(0, 64, 32): T.append((verify_read, (f, odd[i:i + 32])))
    for w in ws: T.append((verify_wnaf, (fn, nb, w, top, length_bound(top, w))))
    if f is F448:
        from . import scal
        T.append((scal.verify_div4, ()))
    return T

# ---------------------------------------------------------------- native trials
def odd_scalar(rng, top):
    m = rng.randrange(9)
    if m == 0: v = rng.choice([0, 1, 2, 3, (1 << top) - 1, (1 << top) - 2, 1 << top - 1, (1 << top - 1) - 1])
    elif m == 1: v = (1 << rng.randrange(top)) - rng.choice([0, 1, 1, 2])
    elif m == 2:
        a, b = sorted(rng.randrange(top + 1) for _ in range(2)); v = (1 << b) - (1 << a)
    elif m == 3: v = sum(rng.choice([63, 64, 65, 127, 15, 16, 17, 31]) << i for i in range(0, top - 8, rng.choice([5, 7, 8, 11])))
    elif m == 4: v = rng.randrange(1, 128) << rng.randrange(top - 7)
    elif m == 5: v = (1 << top) - 1 - (rng.randrange(128) << rng.randrange(top - 7))
    elif m == 6: v = (rng.randrange(1 << 64) << 64 * rng.randrange((top - 1) // 64 + 1))
    else: v = rng.randrange(1 << top)
    return v % (1 << top)
def replay(f, seconds=60):
    import ctypes, random
    from . import ptreplay as pr, replay as rp, eddsa, scal
    fns = module().funcs; N = NAMES[f.tag]; fn, nb, top, ws = WNAF[f.tag]; vis = '__attribute__((visibility("default"))) '; w = ""; cap = N["cap"]
    if fn in fns: w += vis + "int vfw_wnaf(void*a,void*b,int c){return %s(a,b,c);}\n" % fn
    if N["read"] in fns: w += vis + "void vfw_read(void*a,int d){%s(a,d);}\n" % N["read"]
    if N["main"] in fns: w += vis + "void vfw_double(void*a,void*b,void*c,void*d){%s(a,b,c,d);}\n" % N["main"]
    if not w: return None
    so = pr.unit_library("dmult" + f.tag, w); cv = curve_of(f); rc = ED25519 if f is F255 else ED448; p = f.p; K = KINDS[f.tag]; n = N["n"]
    sch = eddsa.Scheme(rc, n, "")
    def run(report):
        lib = ctypes.CDLL(so); rng = random.Random(41); t0 = time.time()
        if N["read"] in fns:
            kd = K["pre4"]
            for d in range(-63, 64, 2):
                P = rp.Buf(kd.size); rec = dict(function=N["read"], digit=d); report(rec); lib.vfw_read(P.p, ctypes.c_int(d)); raw = P.get(); x, y = cv.mul(d, cv.B)
                v = {c: pr.dval(rep, [int.from_bytes(raw[off + rep.off(lane, q):][:8], "little") for q in range(rep.n)]) % p for c, (off, rep, lane) in kd.pts[0].items()}
                if v != dict(add=(y + x) % p, sub=(y - x) % p, dt=2 * cv.d * x * y % p, z2=2): return dict(result="the entry is not that of the digit", **rec)
        pool = []
        while time.time() - t0 < seconds:
            if fn in fns:
                for _ in range(60):
                    r = odd_scalar(rng, top); wd = rng.choice(ws); k = rp.Buf(cap); k.set(bytes(cap)); b = rp.Buf(nb); b.set(r.to_bytes(nb, "little")); rec = dict(function=fn, scalar=hex(r), window=wd); report(rec)
                    L = lib.vfw_wnaf(k.p, b.p, ctypes.c_int(wd)); ds = [x - 256 if x > 127 else x for x in k.get()]
                    if sum(d << i for i, d in enumerate(ds)) != r: return dict(result="the digits do not represent the scalar", **rec)
                    if any(d and (not d & 1 or abs(d) >= 1 << wd - 1) for d in ds) or not 0 <= L <= cap or any(ds[L:]): return dict(result="a digit is even, too large or beyond the length returned", **rec)
                    if not (k.guards() and b.guards()) or b.get() != r.to_bytes(nb, "little"): return dict(result="writes outside the output", **rec)
            if N["main"] in fns:
                s, h = odd_scalar(rng, 253 if f is F255 else 456), odd_scalar(rng, 253 if f is F255 else 456)
                if f is F448: s &= (1 << 448) - 1; h &= (1 << 448) - 1
                m = rng.randrange(6)
                A = rc.mul(rng.choice([0, 1, 2, 3, -1, rng.randrange(rc.l)]) if m < 3 else rng.randrange(rc.l), rc.B)
                if m == 5: A = rc.add(A, rng.choice(pr.LOW[f.tag]))
                if m == 4: h = (s * rng.choice([1, -1])) % rc.l; A = rc.B
                C = A if f is F255 else phi448(A) if (A[0] * A[1]) % p else (0, 1); z = rng.randrange(1, p)
                raw = bytearray(K["xytz4"].size)
                for c, v in dict(X=C[0] * z, Y=C[1] * z, T=C[0] * C[1] % p * z, Z=z).items():
                    off, rep, lane = K["xytz4"].pts[0][c]
                    for i, d in enumerate(pr.spread(rng, f, rep, v % p, maxb(rep))): raw[off + rep.off(lane, i):][:8]; raw[off + rep.off(lane, i):off + rep.off(lane, i) + 8] = d.to_bytes(8, "little")
                o, a, b, q = rp.Buf(n), rp.Buf(n), rp.Buf(n), rp.Buf(K["xytz4"].size); a.set(s.to_bytes(n, "little")); b.set(h.to_bytes(n, "little")); q.set(bytes(raw))
                rec = dict(function=N["main"], s=hex(s), h=hex(h), A=[hex(x) for x in A]); report(rec); lib.vfw_double(o.p, a.p, b.p, q.p)
                hh = h if f is F255 else 4 * (h * pow(4, -1, rc.l) % rc.l)
                if o.get() != sch.enc(rc.add(rc.mul(s, rc.B), rc.mul(hh, A))): return dict(result="the result is not the encoding of [s]B + [h]A", **rec)
                if not all(x.guards() for x in (o, a, b, q)): return dict(result="writes outside the output", **rec)
        return None
    return rp.in_child(run, timeout=seconds + 120)
