"""Secret data never decides a branch or an address (C25).

Contract of every entry point that takes a secret: for two calls that agree on the public inputs (lengths, public keys, messages)
and differ only in secrets, the sequence of branches taken and of addresses accessed is the same.  It is a relational
(two-run) postcondition; it is discharged with labels: the code is executed completely, instruction by instruction (inline
assembly included, all callees included), on values that are a concrete public constant, PUB (public, value unknown) or SEC
(may depend on a secret).  Every result of an operation with a SEC operand is SEC.  Obligations: the condition of every branch
and switch, every address, every length and every call target is not SEC.  A branch on PUB takes both ways; an address that is
PUB may be any element of its array.  Loops whose trip count is PUB (the hash functions) are cut when a state of labels
repeats: the label of every variable and memory cell is then an inductive invariant.  Hash functions are under contract in
the entry points (result SEC, state SEC) and verified separately."""
import time
from .core import *
from . import asm as A_, ir, flow, exe
from .exe import VB

class Label:
    __slots__ = ("n",)
    def __init__(s, n): s.n = n
    def __repr__(s): return s.n
    def __reduce__(s): return (_lab, (s.n,))
SEC = Label("SEC"); PUB = Label("PUB")
def _lab(n): return SEC if n == "SEC" else PUB
class Rng:
    """an unknown public offset within [lo, hi)"""
    __slots__ = ("lo", "hi")
    def __init__(s, lo, hi): s.lo, s.hi = lo, hi
    def __repr__(s): return "[%d..%d)" % (s.lo, s.hi)
    def __eq__(s, o): return isinstance(o, Rng) and (s.lo, s.hi) == (o.lo, o.hi)
    def __hash__(s): return hash((s.lo, s.hi))
class SPtr(Ptr):
    """pointer that remembers the array it points into"""
    __slots__ = ("lo", "hi")
    def __init__(s, obj, off, lo, hi): s.obj, s.off, s.lo, s.hi = obj, off, lo, hi
def lj(*vs):
    r = None
    for v in vs:
        if v is SEC: return SEC
        if r is UNDEF: continue
        if v is PUB or isinstance(v, (Ptr, Fn)): r = PUB
        elif isinstance(v, Undef): r = UNDEF
    return r
class LC:
    """labels in the place of the context of polynomials"""
    assume = {}
    def extract(s, v, o, n): return v
    def concat(s, parts): return lj(*[x for x, _ in parts]) or PUB
    def norm(s, v): return v
    def tow(s, v, w): return v
    def define(s, v): return v
class Done(Exception): pass

class CTState(A_.State):
    def num(s, v, w): return v
    def addc(s, a, b, cin, w):
        if all(isinstance(x, int) for x in (a, b, cin)): return super().addc(a, b, cin, w)
        if isinstance(a, Ptr) and isinstance(b, int) and cin == 0: return s.mc.binop("add", a, b, w), PUB
        if any(isinstance(x, Undef) for x in (a, b, cin)): s.fail("uninitialised value or flag used")
        l = lj(a, b, cin); return l, l
    def subb(s, a, b, cin, w):
        if all(isinstance(x, int) for x in (a, b, cin)): return super().subb(a, b, cin, w)
        if any(isinstance(x, Undef) for x in (a, b, cin)): s.fail("uninitialised value or flag used")
        l = lj(a, b, cin); return l, l
    def mul(s, a, b):
        if isinstance(a, int) and isinstance(b, int): return super().mul(a, b)
        if isinstance(a, Undef) or isinstance(b, Undef): s.fail("uninitialised value used")
        l = lj(a, b); return l, l
    def notf(s, f):
        if isinstance(f, Undef): s.fail("flag used before it is set")
        return f if isinstance(f, Label) else 1 - f
    def addr(s, o):
        b = s.get(A_.Reg(o.base, 64), 64); d = o.disp
        if o.idx is not None:
            i = s.get(A_.Reg(o.idx, 64), 64); d = d + i * o.scale if isinstance(i, int) else i
        return s.mc.padd(b, d)
    def step(s, op, ops):
        base = op if op in A_.KNOWN or op[:-1] not in A_.KNOWN else op[:-1]
        if op.startswith("j") or op in ("loop", "call", "rep"): raise Unsupported("control flow in inline assembly at %s" % s.mc.where())
        if base == "sbb":
            o = [A_.operand(x) for x in ops]
            if isinstance(o[0], A_.Reg) and isinstance(o[1], A_.Reg) and o[0].n == o[1].n and isinstance(s.cf, Label):
                s.put(o[1], s.cf, 64); s.of = UNDEF; s.zf = s.cf; return
        if base == "imul" and len(ops) in (2, 3):
            o = [A_.operand(x) for x in ops]; w = s.width(op, o[::-1]); a = s.get(o[0], w); b = s.get(o[1], w)
            if isinstance(a, Label) or isinstance(b, Label):
                v = s.mc.binop("mul", a, b, w); s.put(o[-1], v, w); s.cf = s.of = v; s.zf = UNDEF; return
            if isinstance(a, int) and isinstance(b, int):
                g = lambda x: x - (1 << w) if x >> w - 1 else x
                s.put(o[-1], a * b & (1 << w) - 1, w); s.cf = s.of = int(not -(1 << w - 1) <= g(a) * g(b) < 1 << w - 1); s.zf = UNDEF; return
        if op in ("vpbroadcastq", "vmovq", "movq") and "%xmm" in "".join(ops): raise Unsupported("asm %s" % op)
        return super().step(op, ops)

HASHES = {"sph_sha512_init": ("init", 0), "sph_sha384_init": ("init", 0), "sph_sha512": ("update", 0), "sph_sha384": ("update", 0), "sph_sha512_close": ("close", 64), "sph_sha384_close": ("close", 48), "Init": ("init", 0), "Update": ("update", 0)}
class CTM(Machine):
    asm_state = CTState
    def __init__(s, mod, hashes=True):
        super().__init__(mod, LC()); s.fork_ok = True; s.sites = {}; s.npub = 0; s.envs = []; s.seen = None; s.maxsteps = 60_000_000; s.lowered = set(); s.cenvs = []; s.members = {}
        s.externals.update(memcpy=lambda m, a: (m.memcpy(*a[:3]), a[0])[1], memmove=lambda m, a: (m.memcpy(*a[:3]), a[0])[1], memset=lambda m, a: (m.memset(*a[:3]), a[0])[1])
        if hashes:
            for n, (k, z) in HASHES.items(): s.contracts[n] = lambda m, a, k=k, z=z: m.h_hash(k, a, z)
            s.contracts["Final2"] = lambda m, a: m.h_out(a[1], a[2], a[0]); s.contracts["SHAKE256"] = lambda m, a: m.h_shake(a)
    # ---------------------------------------------------------------- contracts of the hash functions
    def public(s, v, what):
        if v is SEC or lj(v) is SEC: raise Violation("secret-address", "%s depends on a secret at %s" % (what, s.where()))
    def ptr_ok(s, p, what):
        s.public(p, what)
        if isinstance(p, Ptr) and p.off is SEC: raise Violation("secret-address", "%s depends on a secret at %s" % (what, s.where()))
    def h_hash(s, k, a, z):
        s.ptr_ok(a[0], "the address of a hash state")
        if k == "update": s.ptr_ok(a[1], "the address of hashed data"); s.public(a[2], "the length of hashed data")
        if k == "close":
            s.ptr_ok(a[1], "the address of a digest"); s.fill(a[1], z)
        s.lowered.add(s.stack[-1]); return 0
    def h_out(s, out, n, st):
        s.ptr_ok(st, "the address of a hash state"); s.ptr_ok(out, "the address of a digest"); s.public(n, "the length of a digest")
        if not isinstance(n, int): raise Unsupported("digest of unknown length")
        s.fill(out, n); s.lowered.add(s.stack[-1]); return 0
    def h_shake(s, a):
        s.ptr_ok(a[0], "the address of hashed data"); s.public(a[1], "the length of hashed data"); return s.h_out(a[2], a[3], a[2])
    def fill(s, p, n):
        s.clear(p, n); s.check(p, n, "write")
        for i in range(n): p.obj.cells[p.off + i] = (SEC, 1)
    # ---------------------------------------------------------------- memory
    def site(s, k):
        f = s.stack[-1] if s.stack else "top"; d = s.sites.setdefault(f, {}); d[k] = d.get(k, 0) + 1
    def check(s, p, n, what):
        if p is SEC or isinstance(p, Ptr) and p.off is SEC: raise Violation("secret-address", "the address of a %s depends on a secret at %s" % (what, s.where()))
        s.site("address")
        if isinstance(p, Ptr) and isinstance(p.off, Rng):
            if not p.obj.live: raise Violation("memory", "%s of dead object %r at %s" % (what, p, s.where()))
            return
        super().check(p, n, what)
    def piece(s, v, o, n): return v if isinstance(v, Label) else super().piece(v, o, n)
    def region(s, p):
        lab = p.obj.big or None; o = p.off
        for k, (v, n) in p.obj.cells.items():
            if k < o.hi and k + n > o.lo:
                if isinstance(v, (Ptr, Fn)): raise Unsupported("access at an unknown offset to an object with pointers at %s" % s.where())
                lab = lj(lab, v if isinstance(v, Label) else PUB)
        return lab
    def load_int(s, p, n):
        if isinstance(p, Ptr) and isinstance(p.off, Rng): s.check(p, n, "read"); return s.region(p) or PUB
        if isinstance(p, Ptr) and p.obj is not None and p.obj.big:
            s.check(p, n, "read"); c = p.obj.cells.get(p.off); return c[0] if c is not None and c[1] == n else p.obj.big
        return super().load_int(p, n)
    def store_int(s, p, n, v):
        if isinstance(p, Ptr) and isinstance(p.off, Rng):
            s.check(p, n, "write"); s.weak(p, v); return
        super().store_int(p, n, v)
    def weak(s, p, v):
        o = p.obj
        if isinstance(v, (Ptr, Fn)): raise Unsupported("pointer stored at an unknown offset at %s" % s.where())
        l = lj(s.region(p), v if isinstance(v, Label) else PUB)
        if o.size > 1 << 20: o.big = l; return
        s.clear(Ptr(o, p.off.lo), p.off.hi - p.off.lo)
        for k in range(p.off.lo, p.off.hi): o.cells[k] = (l, 1)
    def memcpy(s, d, src, n):
        for q, w in ((d, "write"), (src, "read")):
            if isinstance(q, Ptr): s.check(q, 0, w)
        if n is SEC: raise Violation("secret-address", "the length of a copy depends on a secret at %s" % s.where())
        if isinstance(n, int) and isinstance(d.off, int) and isinstance(src.off, int):
            if src.obj.big:
                s.clear(d, n)
                for i in range(n): d.obj.cells[d.off + i] = (src.obj.big, 1)
                return
            return super().memcpy(d, src, n)
        v = s.region(s.whole(src)) or PUB; s.weak(s.whole(d), v)
    def whole(s, p):
        if isinstance(p.off, Rng): return p
        if isinstance(p, SPtr): return Ptr(p.obj, Rng(p.lo, p.hi))
        for lo, hi in s.members.get(id(p.obj), ()):
            if lo <= p.off < hi: return Ptr(p.obj, Rng(lo, hi))
        return Ptr(p.obj, Rng(0, p.obj.size))
    def memset(s, d, v, n):
        s.check(d, 0, "write")
        if n is SEC: raise Violation("secret-address", "the length of a fill depends on a secret at %s" % s.where())
        if isinstance(n, int) and isinstance(d.off, int): return super().memset(d, v, n)
        s.weak(s.whole(d), v)
    # ---------------------------------------------------------------- pointers
    def padd(s, p, d):
        if isinstance(p, Label) or isinstance(p, int): raise Violation("memory", "access through %r at %s" % (p, s.where()))
        if p.off is SEC or d is SEC: return Ptr(p.obj, SEC)
        if isinstance(p.off, int) and isinstance(d, int):
            if d >= 1 << 63: d -= 1 << 64
            return SPtr(p.obj, p.off + d, p.lo, p.hi) if isinstance(p, SPtr) else Ptr(p.obj, p.off + d)
        return s.whole(p)
    def gep(s, bt, base, idx):
        if base is SEC: return Ptr(None, SEC)
        if all(isinstance(i, int) for i in idx) and (isinstance(base, int) or isinstance(base.off, int)):
            r = super().gep(bt, base, idx)
            if isinstance(base, SPtr) and len(idx) == 1: return SPtr(r.obj, r.off, base.lo, base.hi)
            t = bt; arr = None; off = base.off if isinstance(base, Ptr) else 0
            for n, i in enumerate(idx):
                i = i - (1 << 64) if i >= 1 << 63 else i
                if n == 0: off += i * ir.size_of(t)
                elif t.k in ("arr", "vec"):
                    arr = (off, off + ir.size_of(t)) if n == len(idx) - 1 else None
                    t = t.e; off += i * ir.size_of(t)
                elif t.k == "struct":
                    off += ir.offsets(t)[0][i]; t = t.e[i]; arr = (off, off + ir.size_of(t)) if t.k == "arr" else None
            return SPtr(r.obj, r.off, *arr) if arr else r
        if any(i is SEC for i in idx) or isinstance(base, Ptr) and base.off is SEC: return Ptr(base.obj, SEC)
        if any(isinstance(i, Undef) for i in idx): raise Violation("memory", "address depends on an uninitialised value at %s" % s.where())
        if not isinstance(base, Ptr): raise Unsupported("unknown base of an address at %s" % s.where())
        if isinstance(base.off, Rng):
            # field of an element at an unknown offset: the whole region
            return base
        if not isinstance(idx[0], int): return s.whole(base)
        t = bt; off = base.off + idx[0] * ir.size_of(t)
        for i in idx[1:]:
            if t.k in ("arr", "vec"):
                if not isinstance(i, int): return Ptr(base.obj, Rng(off, off + ir.size_of(t)))
                t = t.e; off += i * ir.size_of(t)
            else: off += ir.offsets(t)[0][i]; t = t.e[i]
        return Ptr(base.obj, off)
    # ---------------------------------------------------------------- operations
    def binop(s, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return super().binop(op, a, b, w)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "add": return s.padd(a, b) if isinstance(a, Ptr) else s.padd(b, a)
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, int): return s.padd(a, -b & (1 << w) - 1)
            if op == "and" and isinstance(a, Ptr) and isinstance(b, int) and b >= 1 << 63: return s.whole(a)
            for q in (a, b):
                if isinstance(q, Ptr) and q.off is SEC or q is SEC: return SEC
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and isinstance(a.off, int) and isinstance(b.off, int) and op == "sub": return (a.off - b.off) & (1 << w) - 1
            if op == "and" and isinstance(b, int) and isinstance(a.off, int) and not a.obj.kind == "arg": return a.off & b if b < 32 else PUB
            return PUB
        if op in ("and", "mul") and (a == 0 and isinstance(a, int) or b == 0 and isinstance(b, int)): return 0
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        return lj(a, b) or PUB
    def icmp(s, pred, a, b, w):
        if isinstance(a, int) and isinstance(b, int): return super().icmp(pred, a, b, w)
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if any(isinstance(q, Ptr) and (q.off is SEC) or q is SEC for q in (a, b)): return SEC
            if any(isinstance(q, Label) or isinstance(q, Ptr) and not isinstance(q.off, int) for q in (a, b)): return PUB
            return super().icmp(pred, a, b, w)
        if isinstance(a, Fn) or isinstance(b, Fn): return super().icmp(pred, a, b, w)
        return lj(a, b)
    def cast(s, op, a, t0, t1):
        if isinstance(a, Label) and t0.k != "vec" and t1.k != "vec":
            if op == "inttoptr": return Ptr(None, SEC) if a is SEC else a
            return a
        if isinstance(a, Ptr) and op == "trunc" and not isinstance(a.off, int): return SEC if a.off is SEC else PUB
        if isinstance(a, Ptr) and op == "trunc": return PUB
        return super().cast(op, a, t0, t1)
    def sel(s, c, a, b, w):
        if isinstance(c, int): return a if c & 1 else b
        if isinstance(c, Undef): return UNDEF
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if c is SEC:
                if a == b: return a
                raise Violation("secret-address", "a secret selects a pointer at %s" % s.where())
            return a if s.truth(c) else b
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        return lj(c, a, b)
    def truth(s, c, kind="branch"):
        s.site("branch")
        if isinstance(c, int): return c & 1
        if isinstance(c, Undef): raise Violation("uninitialised", "branch on an uninitialised value at %s" % s.where())
        if c is SEC: raise Violation("secret-branch", "a branch depends on a secret at %s" % s.where())
        s.npub += 1
        if s.pos < len(s.decisions): d = s.decisions[s.pos]
        else:
            d = 0; s.decisions.append(0); s.pending.append(s.decisions[:s.pos] + [1])
        s.pos += 1
        if s.pos > 400: raise Unsupported("too many public branches at %s" % s.where())
        return d
    def do_switch(s, v, x):
        if v is SEC: raise Violation("secret-branch", "a switch depends on a secret at %s" % s.where())
        if isinstance(v, int): return super().do_switch(v, x)
        for c, l in x.a[2]:
            if s.truth(v): return l
        return x.a[1]
    def i_load(s, x, env): env[x.res] = s.load(s.val(env, x.a[0], ir.PTR), x.ty)
    def i_store(s, x, env): s.store(s.val(env, x.a[1], ir.PTR), x.ty, s.val(env, x.a[0], x.ty))
    def load(s, p, ty):
        if isinstance(p, Ptr) and not isinstance(p.off, int):
            v = s.load_int(p, 1)
            if ty.k in ("vec", "arr"): return (v,) * ty.n
            return v
        if ty.k == "int" and ty.w <= 64:
            v = s.load_int(p, (ty.w + 7) // 8)
            return v & (1 << ty.w) - 1 if isinstance(v, int) else v
        return super().load(p, ty)
    def store(s, p, ty, v):
        if isinstance(p, Ptr) and not isinstance(p.off, int):
            e = v.e if isinstance(v, VB) else v if isinstance(v, tuple) else (v,)
            s.check(p, 0, "write"); s.weak(p, lj(*e) or PUB); return
        super().store(p, ty, v)
    def permd_sym(s, v, idx, at):
        flat = list(idx.e if isinstance(idx, VB) else idx) + list(v.e if isinstance(v, VB) else v); return (lj(*flat) or PUB,) * at[0].n
    def blendv(s, a, b, m):
        fl = [list(v.e if isinstance(v, VB) else v) for v in (a, b, m)]
        if any(isinstance(x, Label) for v in fl for x in v) and (any(isinstance(x, Label) for x in fl[2]) or len(set(map(len, fl))) > 1 or True):
            if all(isinstance(x, int) for x in fl[2]): return super().blendv(a, b, m)
            l = lj(*[x for v in fl for x in v]); w = next((v for v in (a, b, m) if isinstance(v, VB)), None)
            return VB((l,) * len(w.e), w.sw, w.tw) if w is not None else (l,) * len(a)
        return super().blendv(a, b, m)
    def intrinsic(s, name, x, env):
        n = name[5:]
        if n.startswith(("memcpy", "memmove", "memset")):
            a = [s.val(env, v, t) for t, v in x.a]; (s.memset if n.startswith("memset") else s.memcpy)(*a[:3]); return None
        if n.startswith(("fshl.", "fshr.", "bswap.", "umin", "umax", "smin", "smax", "ctpop", "cttz", "ctlz", "abs")) and x.ty.k == "int":
            a = [s.val(env, v, t) for t, v in x.a]
            if any(isinstance(q, Label) for q in a): return lj(*a)
            if any(isinstance(q, Undef) for q in a): return UNDEF
        if ".psll" in n or ".psrl" in n or ".psra" in n:
            a = [s.val(env, v, t) for t, v in x.a]; cnt = a[1]; fl = [cnt] if not isinstance(cnt, (tuple, VB)) else list(cnt.e if isinstance(cnt, VB) else cnt)
            if any(isinstance(q, Label) for q in fl): return (lj(*fl, *(a[0].e if isinstance(a[0], VB) else a[0])),) * x.ty.n
        if n.startswith(("x86.avx", "x86.sse", "x86.ssse", "x86.bmi", "x86.pclmul", "x86.aesni", "vector.reduce")) and not any(k in n for k in ("gather", "maskload", "maskstore", "vzero", ".psll", ".psrl", ".psra", "permd", "pblendvb")):
            # a function of its operands: its label is theirs
            a = [s.val(env, v, t) for t, v in x.a]; fl = []
            for q in a: fl += list(q.e) if isinstance(q, VB) else list(q) if isinstance(q, tuple) else [q]
            if any(isinstance(q, Ptr) for q in fl): raise Unsupported("intrinsic %s" % name)
            l = lj(*fl) or PUB
            return (l,) * x.ty.n if x.ty.k == "vec" else l
        return super().intrinsic(name, x, env)
    # ---------------------------------------------------------------- calls and loops
    def i_call(s, x, env):
        f = x.x
        if f[0] != "g" and s.val(env, f, ir.PTR) is SEC: raise Violation("secret-branch", "a call target depends on a secret at %s" % s.where())
        s.cenvs.append(env)
        try: return super().i_call(x, env)
        finally: s.cenvs.pop()
    def run(s, f, args):
        s.nframe += 1; s.envs.append(s.nframe)
        try: return super().run(f, args)
        finally: s.envs.pop()
    nframe = 0
    def start_cut(s):
        """stop a path when the labels of all variables and cells repeat at the head of a loop"""
        s.seen = set(); s.frames = {}; s.backedge = CTM.cut
    def live_objects(s, env):
        seen = {}; todo = [x for e in s.cenvs + [env] for v in list(e.values()) for x in (v if isinstance(v, tuple) else (v,)) if isinstance(x, Ptr) and x.obj is not None] + [g for g in s.globals.values() if isinstance(g, Ptr)]
        while todo:
            o = todo.pop().obj
            if o is None or o.const or id(o) in seen: continue
            seen[id(o)] = o; todo += [v for v, _ in o.cells.values() if isinstance(v, Ptr)]
        return list(seen.values())
    def widen(s, u, v):
        if isinstance(v, tuple): return tuple(s.widen(a, b) for a, b in zip(u, v)) if isinstance(u, tuple) and len(u) == len(v) else v
        if isinstance(v, Ptr) and isinstance(u, Ptr): return v if u == v or u.obj is not v.obj or v.off is SEC else s.whole(v)
        if isinstance(v, int) and isinstance(u, int): return v if u == v else PUB
        if isinstance(u, Label) and not isinstance(v, (Ptr, Fn, VB)): return v if isinstance(v, Undef) else lj(u, v)
        return v
    def snapshot(s, env):
        ids = {}; out = []; objs = []
        def v(x):
            if isinstance(x, Ptr):
                if x.obj is None: return ("p", 0, str(x.off))
                if id(x.obj) not in ids: ids[id(x.obj)] = len(ids); objs.append(x.obj)
                return ("p", ids[id(x.obj)], str(x.off))
            if isinstance(x, tuple): return tuple(v(y) for y in x)
            if isinstance(x, VB): return ("vb",) + tuple(v(y) for y in x.e)
            if isinstance(x, Fn): return x.name
            return str(x)
        for e in s.cenvs + [env]:
            for k in sorted(e, key=str): out.append((str(k), v(e[k])))
        for g in sorted(s.globals):
            if isinstance(s.globals[g], Ptr) and not s.globals[g].obj.const: v(s.globals[g])
        i = 0
        while i < len(objs):
            o = objs[i]; i += 1
            if o.const: continue
            out.append((o.size, str(o.big), tuple((k, n, v(x)) for k, (x, n) in sorted(o.cells.items(), key=lambda t: t[0]))))
        return tuple(out)
    def cut(s, f, env, blk, nxt):
        if s.npub == 0: return
        k = (s.envs[-1], nxt); old = s.frames.get(k); cells = {id(o): o for o in s.live_objects(env)}
        if old is not None and old[0] < s.npub:      # a trip decided by public data: what changes becomes unknown
            for n, v in list(env.items()): env[n] = s.widen(old[1].get(n, v), v)
            for i, o in cells.items():
                for c, (v, z) in list(o.cells.items()):
                    u = old[2].get(i, {}).get(c)
                    if u is not None and u[1] == z: o.cells[c] = (s.widen(u[0], v), z)
        s.frames[k] = (s.npub, dict(env), {i: dict(o.cells) for i, o in cells.items()})
        st = (tuple(s.stack), nxt, blk, s.snapshot(env))
        h = hash(st)
        if s.pos < len(s.decisions): return           # replaying a prefix
        if h in s.seen_all: raise Done()
        s.seen_all.add(h)
    seen_all = None

# ---------------------------------------------------------------- entry points
def paths_of(make, fn, hashes=True, cut=False, limit=3000):
    """all public paths of a call; yields the machines"""
    pend = [[]]; n = 0; seen = set(); out = []
    while pend:
        m, args = make(); m.decisions = pend.pop(); m.pending = []; n += 1
        if cut: m.start_cut(); m.seen_all = seen
        if n > limit: raise Unsupported("more than %d public paths" % limit)
        try: m.call(fn, args)
        except Done: pass
        pend += m.pending; out.append(m.sites)
        yield m, n
def secret(m, name, n, label=SEC):
    o = m.new(name, n, "arg")
    if n > 1 << 20: o.big = label
    else:
        for i in range(n): o.cells[i] = (label, 1)
    return o
def summary(R_, sites, npaths, t0):
    for f, d in sorted(sites.items()):
        for k, c in sorted(d.items()): R_.ok("%s in %s does not depend on secrets (%d executed)" % (k, f, c), "label propagation", 0.0)
    R_.notes.append("%d public paths" % npaths); R_.wall = time.time() - t0
    return R_
def verify(slot, op, fn, f, ctx):
    """op: keygen (out, secret), shared (out, peer, secret), edkeygen (public, private), sign"""
    t0 = time.time(); R_ = Result("%s %s" % (slot, fn)); nb = {"x255": 32, "x448": 56, "255": 32, "448": 57}[f]; sites = {}; k = 0; low = set()
    def make():
        m = CTM(module()); o = lambda nm, n, l: Ptr(secret(m, nm, n, l)); out = lambda nm, n: Ptr(m.new(nm, n, "arg"))
        if op == "keygen": a = [out("public", nb), o("secret", nb, SEC)]
        elif op == "shared": a = [out("shared", nb), o("session", nb, PUB), o("secret", nb, SEC)]
        elif op == "edkeygen": a = [out("public", nb), o("private", nb, SEC)]
        else: a = [out("signature", 2 * nb), o("message", 1 << 62, PUB), PUB] + ([o("context", 1 << 62, PUB), PUB] if ctx else []) + [o("public", nb, PUB), o("private", nb, SEC)]
        return m, a
    for m, k in paths_of(make, fn, limit=200):
        low |= m.lowered
        for g, d in m.sites.items():
            e = sites.setdefault(g, {})
            for q, c in d.items(): e[q] = max(e.get(q, 0), c)
    R_.lowered = sorted(x.split(":")[-1] for x in low)
    return summary(R_, sites, k, t0)
SLOTS = [("X25519", "x255"), ("X25519_x64", "x255"), ("X448", "x448")]
def tasks():
    T = []; bad = []; mod = module(); names = [s + "." + o for s, _ in SLOTS for o in ("keygen", "shared")]; sl = slots(names)
    def missing(n): r = Result(n); r.bad("interface:" + n, "the interface slot is empty"); r.wall = 0; bad.append(r)
    for s, f in SLOTS:
        for o in ("keygen", "shared"):
            n = s + "." + o; fn = resolve(mod, n, sl[n])
            if fn is None: missing(n)
            else: T.append((verify, (n, o, fn, f, False)))
    for f in ("255", "448"):
        for o, q in (("keygen", "edkeygen"), ("sign", "sign")):
            for api, fn in flow.resolve_apis(f, o):
                if fn is None: missing(api.slot + "." + o)
                else: T.append((verify, (api.slot + "." + o, q, fn, f, bool(api.ctx))))
    return T, bad

# ---------------------------------------------------------------- the hash functions
def bytes_of(m, o):
    r = {}
    for k, (v, n) in o.cells.items():
        if isinstance(v, (Ptr, Fn)): raise Unsupported("a hash state with pointers")
        for i in range(n): r[k + i] = v >> 8 * i & 255 if isinstance(v, int) else v
    return r
def join_states(a, b):
    if a is None: return b
    r = dict(a)
    for k, v in b.items():
        u = r.get(k, v); r[k] = v if u is v or (isinstance(u, int) and u == v and isinstance(v, int)) else lj(u, v) or PUB
    return r
def members(header, ty, names):
    """extents of the members of a structure, measured with the project's header (an address computed from a member stays in it: C22, C26)"""
    d = scratch(); f = os.path.join(d, "memb%d" % os.getpid())
    open(f + ".c", "w").write('#include <stdio.h>\n#include <stddef.h>\n#include <%s>\nint main(void){%s return 0;}' % (header, "".join('printf("%%zu %%zu\\n",offsetof(%s,%s),offsetof(%s,%s)+sizeof(((%s*)0)->%s));' % (ty, n, ty, n, ty, n) for n in names)))
    r = subprocess.run(["gcc", "-w"] + INC + [f + ".c", "-o", f], capture_output=True, text=True)
    if r.returncode: return []
    return [tuple(map(int, l.split())) for l in subprocess.run([f], capture_output=True, text=True).stdout.splitlines()]
def verify_hash(src, init, initargs, update, close, closeargs, unit):
    """every history: the labels of the state are a fixed point under update (any data, any length); close on that state"""
    t0 = time.time(); R_ = Result("%s, %s, %s" % (init, update, close)); mod = module(src); sites = {}; np = 0; parts = members(*unit)
    def run(fn, st, args):
        nonlocal np
        out = None; box = []
        def make():
            m = CTM(mod, hashes=False); o = m.new("state", 4096, "arg"); box[:] = [o]
            m.members[id(o)] = parts
            for k, v in (st or {}).items(): o.cells[k] = (v, 1)
            return m, [Ptr(o)] + args(m)
        for m, k in paths_of(make, fn, cut=True):
            np += 1
            for g, d in m.sites.items():
                e = sites.setdefault(g, {})
                for q, c in d.items(): e[q] = max(e.get(q, 0), c)
            out = join_states(out, bytes_of(m, box[0]))
        return out
    st = run(init, None, lambda m: list(initargs))
    data = lambda m: [Ptr(secret(m, "data", 1 << 62)), PUB]
    for i in range(8):
        new = join_states(st, run(update, st, data))
        if new == st: break
        st = new
    else: raise Unsupported("the labels of the hash state do not settle")
    R_.ok("invariant: labels of the hash state (%d secret, %d public bytes)" % (sum(v is SEC for v in st.values()), sum(v is not SEC for v in st.values())), "fixed point after %d rounds" % (i + 1))
    run(close, st, lambda m: closeargs(m))
    return summary(R_, sites, np, t0)
def verify_shot(src, fn):
    t0 = time.time(); R_ = Result(fn); sites = {}; mod = module(src)
    def make():
        m = CTM(mod, hashes=False); return m, [Ptr(secret(m, "data", 1 << 62)), PUB, Ptr(secret(m, "digest", 4096, PUB)), PUB]
    for m, k in paths_of(make, fn, cut=True):
        for g, d in m.sites.items():
            e = sites.setdefault(g, {})
            for q, c in d.items(): e[q] = max(e.get(q, 0), c)
    return summary(R_, sites, k, t0)
def out_args(n): return lambda m: [Ptr(m.new("digest", 4096, "arg"))] + ([PUB] if n is None else [])
def _sha512(): return verify_hash("third_party/sha512.c", "sph_sha512_init", [], "sph_sha384", "sph_sha512_close", out_args(0), ("sha512.h", "sph_sha384_context", ("buf", "val", "count")))
def _sha3(): return verify_hash("third_party/sha3.c", "Init", [256], "Update", "Final2", out_args(None), ("sha3.h", "hashState", ("s",)))
def _shake(): return verify_shot("third_party/sha3.c", "SHAKE256")
HASH_TASKS = [(_sha512, ()), (_sha3, ()), (_shake, ())]
VERIFIED = {"sph_sha512_init", "sph_sha384", "sph_sha512", "sph_sha512_close", "Init", "Update", "Final2", "SHAKE256"}

# ---------------------------------------------------------------- trials of the compiled code
DRIVER = """
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <valgrind/memcheck.h>
#include "faz_ecdh_avx2.h"
#include "faz_eddsa_avx2.h"
static uint8_t B[8][512] __attribute__((aligned(64)));
static uint64_t seed;
static uint8_t rnd(void){ seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; return seed >> 56; }
static void fill(int i, int n, int mode, int secret){ for (int k = 0; k < n; k++) B[i][k] = mode == 1 ? 0 : mode == 2 ? 255 : rnd(); if (secret) VALGRIND_MAKE_MEM_UNDEFINED(B[i], n); }
#define SEC(i, n) fill(i, n, mode, 1)
int main(int argc, char **argv){
  seed = strtoull(argv[1], 0, 10); int mode = atoi(argv[2]); (void)argc;
  static const int ml[] = {0, 1, 40, 200, 300}; int m = ml[seed % 5]; (void)mode;
#define CALL(nm, x) fprintf(stderr, "@@ %s\\n", nm); x; VALGRIND_MAKE_MEM_DEFINED(B, sizeof B);
%s
  return 0;
}
"""
def replay(seconds=60):
    """memcheck with the secrets marked undefined: it reports jumps and addresses computed from them"""
    import random
    d = scratch(); c = os.path.join(d, "ctg.c"); exe_ = os.path.join(d, "ctg"); body = []
    for s, f in SLOTS:
        n = 32 if f == "x255" else 56
        body += ['CALL("%s.keygen", (SEC(1, %d), %s.keygen(B[0], B[1])))' % (s, n, s), 'CALL("%s.shared", (SEC(1, %d), fill(2, %d, 0, 0), %s.shared(B[0], B[2], B[1])))' % (s, n, n, s)]
    for f in ("255", "448"):
        n = flow.SPEC[f]["n"]
        for a in flow.APIS[f]:
            ctx = "(const void*)B[4], (seed >> 8) % 200, " if a.ctx else ""
            body += ['CALL("%s.keygen", (SEC(1, %d), %s.keygen((void*)B[0], (void*)B[1])))' % (a.slot, n, a.slot),
                     'CALL("%s.sign", (SEC(1, %d), fill(2, %d, 0, 0), fill(3, m, 0, 0), fill(4, 200, 0, 0), %s.sign((void*)B[0], (const void*)B[3], m, %s(const void*)B[2], (const void*)B[1])))' % (a.slot, n, n, a.slot, ctx)]
    open(c, "w").write(DRIVER.replace("%s\n  return", "\n".join("  " + b + ";" for b in body) + "\n  return"))
    tp = os.path.join(ir.REPO, "third_party"); fl = [x for x in PROJ_CFLAGS if not x.startswith(("-march", "-mtune", "-std", "-pedantic"))] + ["-march=haswell", "-madx", "-std=gnu99", "-g"]
    src = [os.path.join(ir.REPO, "src", "target.c")] + [os.path.join(tp, x) for x in sorted(os.listdir(tp)) if x.endswith(".c")]
    r = subprocess.run(["gcc"] + fl + INC + ["-o", exe_, c] + src, capture_output=True, text=True)
    if r.returncode: raise RuntimeError("gcc failed\n" + r.stderr[-2000:])
    end = time.time() + seconds; k = 0
    while k == 0 or time.time() < end:
        seed = 7 * k + 1; mode = k % 3; cmd = ["valgrind", "--tool=memcheck", "--error-limit=no", "--error-exitcode=99", exe_, str(seed), str(mode)]; k += 1
        try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=max(10, end - time.time() + 30), errors="replace")
        except subprocess.TimeoutExpired: break
        if r.returncode == 99:
            ent = "?"
            ls = r.stderr.splitlines()
            for i, l in enumerate(ls):
                if l.startswith("@@ "): ent = l[3:]
                if "uninitialised" in l: return dict(entry=ent, driver_arguments=[seed, mode], secret="bytes drawn from the driver's generator (mode %d: %s)" % (mode, ["random", "zero", "all ones"][mode]), observed="the compiled code: " + " | ".join(x.split("==")[-1].strip() for x in ls[i:i + 4]))
            return dict(entry=ent, driver_arguments=[seed, mode], observed=r.stderr[-600:])
        if r.returncode: raise RuntimeError("memcheck: exit %d: %s" % (r.returncode, r.stderr[-600:]))
    return None
