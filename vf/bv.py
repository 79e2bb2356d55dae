"""Machine whose unknown integers are z3 bit vectors: unbounded lengths, return values of external functions, addresses."""
import z3
from .core import *
from . import ir

BV = z3.BitVecRef
class BVC:
    assume = {}
    def norm(s, v): return v
    def tow(s, v, w): return v
    def define(s, v): return v
    def extract(s, v, o, n): return simp(z3.Extract(o + n - 1, o, v))
    def concat(s, parts): return simp(z3.Concat(*[bv(v, w) for v, w in reversed(parts)])) if len(parts) > 1 else parts[0][0]
def simp(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e
def bv(v, w): return z3.BitVecVal(v, w) if isinstance(v, int) else v
def signed(v, w): return v - (1 << w) if v >> w - 1 else v
class BVM(Machine):
    def __init__(s, mod):
        super().__init__(mod, BVC()); s.fork_ok = True; s.pc = []; s.sol = z3.Solver(); s.sol.set("timeout", 60000); s.nfresh = 0; s.objs = []; s.decisions = []; s.pending = []; s.obl = []; s.sizes = {}
    def fresh(s, name, w):
        s.nfresh += 1; return z3.BitVec("%s.%d" % (name, s.nfresh), w)
    def new(s, name, size, kind="stack", const=False):
        o = super().new(name, size, kind, const); s.objs.append(o); return o
    def assume(s, f): s.pc.append(f); s.sol.add(f)
    def valid(s, f):
        s.sol.push(); s.sol.add(z3.Not(f)); r = s.sol.check(); m = str(s.sol.model())[:300] if r == z3.sat else ""; s.sol.pop()
        if r == z3.unknown: raise Unsupported("z3 gives no answer at %s" % s.where())
        s.cex = m
        return r == z3.unsat
    def possible(s, f): return not s.valid(z3.Not(f))
    def prove(s, name, f, msg=""):
        t = time.time()
        if not s.valid(f): raise Violation(name, "%s at %s [%s]" % (msg, s.where(), s.cex))
        s.obl.append((name, time.time() - t))
    # ---- memory
    def check(s, p, n, what):
        if isinstance(p, Ptr) and p.obj is not None and (not isinstance(p.off, int) or id(p.obj) in s.sizes):
            if not p.obj.live: raise Violation("memory", "%s of dead object %r at %s" % (what, p, s.where()))
            s.range_ok(p, n, what); s.access_checks += 1; return
        super().check(p, n, what)
    def range_ok(s, p, n, what):
        sz = bv(s.sizes.get(id(p.obj), p.obj.size), 64); o = bv(p.off & (1 << 64) - 1 if isinstance(p.off, int) else p.off, 64); n = bv(n, 64)
        s.prove("memory:" + what, z3.And(z3.ULE(o, sz), z3.ULE(n, sz - o)), "%s outside %s" % (what, p.obj.name))
    def piece(s, v, o, n): return simp(z3.Extract(8 * (o + n) - 1, 8 * o, v)) if isinstance(v, BV) else super().piece(v, o, n)
    def i_load(s, x, env):
        p = s.val(env, x.a[0], ir.PTR)
        if isinstance(p, Ptr) and not isinstance(p.off, int): env[x.res] = s.bvload(p, x.ty); return
        env[x.res] = s.load(p, x.ty)
    def i_store(s, x, env):
        p = s.val(env, x.a[1], ir.PTR); v = s.val(env, x.a[0], x.ty)
        if isinstance(p, Ptr) and not isinstance(p.off, int): s.bvstore(p, x.ty, v); return
        s.store(p, x.ty, v)
    def bvload(s, p, ty): raise Unsupported("load at a symbolic address at %s" % s.where())
    def bvstore(s, p, ty, v): raise Unsupported("store at a symbolic address at %s" % s.where())
    # ---- operations
    def gep(s, bt, base, idx):
        if isinstance(base, Ptr) and isinstance(base.off, int) and all(isinstance(i, int) for i in idx): return super().gep(bt, base, idx)
        if not isinstance(base, Ptr): raise Unsupported("address computed from %r at %s" % (base, s.where()))
        t = bt; off = bv(base.off & (1 << 64) - 1 if isinstance(base.off, int) else base.off, 64); first = True
        for i in idx:
            if first: sz = ir.size_of(t); first = False
            elif t.k in ("arr", "vec"): t = t.e; sz = ir.size_of(t)
            else: off = off + ir.offsets(t)[0][i]; t = t.e[i]; continue
            if isinstance(i, Undef): raise Violation("memory", "address depends on an uninitialised value at %s" % s.where())
            i = bv(i, 64)
            if i.size() < 64: i = z3.SignExt(64 - i.size(), i)
            off = off + i * sz
        return s.mkptr(base.obj, simp(off))
    def mkptr(s, obj, off):
        if isinstance(off, int) and off >= 1 << 63: off -= 1 << 64
        return Ptr(obj, off)
    def binop(s, op, a, b, w):
        if isinstance(a, BV) and not isinstance(b, (Ptr, Undef)) or isinstance(b, BV) and not isinstance(a, (Ptr, Undef)):
            a = bv(a, w); b = bv(b, w)
            f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b,
                 "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]
            return simp(f())
        if isinstance(a, Ptr) and isinstance(b, (BV, int)) and op in ("add", "sub") and (isinstance(b, BV) or not isinstance(a.off, int)):
            o = bv(a.off & (1 << 64) - 1 if isinstance(a.off, int) else a.off, 64); return s.mkptr(a.obj, simp(o + bv(b, 64) if op == "add" else o - bv(b, 64)))
        if isinstance(b, Ptr) and isinstance(a, (BV, int)) and op == "add": return s.binop("add", b, a, w)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub" and a.obj is b.obj: return simp(bv(a.off & (1 << 64) - 1 if isinstance(a.off, int) else a.off, 64) - bv(b.off & (1 << 64) - 1 if isinstance(b.off, int) else b.off, 64))
        return super().binop(op, a, b, w)
    def icmp(s, pred, a, b, w):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            a, b = [o & (1 << 64) - 1 if isinstance(o, int) else o for o in (a.off, b.off)]; w = 64
        if isinstance(a, BV) and isinstance(b, (BV, int)) or isinstance(b, BV) and isinstance(a, int):
            a = bv(a, w); b = bv(b, w)
            f = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]
            return simp(z3.If(f(), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        return super().icmp(pred, a, b, w)
    def cast(s, op, a, t0, t1):
        if isinstance(a, BV) and t0.k != "vec" and t1.k != "vec":
            if op == "zext": return simp(z3.ZeroExt(t1.w - a.size(), a)) if t1.w > a.size() else a
            if op == "sext": return simp(z3.SignExt(t1.w - a.size(), a))
            if op == "trunc": return simp(z3.Extract(t1.w - 1, 0, a))
            if op in ("bitcast", "freeze"): return a
            raise Unsupported("cast %s of an unknown integer" % op)
        if isinstance(a, Ptr) and op == "trunc": return simp(z3.Extract(t1.w - 1, 0, s.address(a))) 
        return super().cast(op, a, t0, t1)
    def address(s, p):
        """the address of an object: unknown, aligned to 32"""
        k = "addr.%s" % p.obj.name; b = z3.BitVec(k, 64); return (b << 5) + bv(p.off & (1 << 64) - 1 if isinstance(p.off, int) else p.off, 64)
    def sel(s, c, a, b, w):
        if isinstance(c, BV):
            if isinstance(a, (int, BV)) and isinstance(b, (int, BV)): return simp(z3.If(c == 1, bv(a, w), bv(b, w)))
            return a if s.truth(c) else b
        return super().sel(c, a, b, w)
    def do_switch(s, v, x):
        if isinstance(v, BV):
            for c, l in x.a[2]:
                if s.truth(s.icmp("eq", v, c, v.size())): return l
            return x.a[1]
        return super().do_switch(v, x)
    def truth(s, c, kind="branch"):
        if isinstance(c, int): return c & 1
        if isinstance(c, Undef): raise Violation("uninitialised", "branch on an uninitialised value at %s" % s.where())
        f = c == 1 if c.size() == 1 else c != 0
        if not s.possible(f): return 0
        if not s.possible(z3.Not(f)): return 1
        if s.pos < len(s.decisions): d = s.decisions[s.pos]
        else:
            d = 1; s.decisions.append(1); s.pending.append(s.decisions[:s.pos] + [0])
        s.pos += 1
        if s.pos > 60: raise Unsupported("too many branches at %s" % s.where())
        s.assume(f if d else z3.Not(f)); return d
