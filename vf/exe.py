"""Symbolic executor / verification-condition generator for the extracted IR.

Addresses and trip counts are concrete (executed completely, no unrolling bound is guessed); data is
symbolic in the integer-polynomial domain of poly.py.  Calls to functions under contract use the
contract, all other calls are executed.  Every access is checked against the bounds of its object.
"""
from . import ir
from .ir import Unsupported
from .poly import *

CT = set()          # (kind, function, call path, names): data-dependent branches and addresses of this process
RAN = set()     # functions whose body has been executed
class Violation(Exception):
    """A named obligation that the code provably or apparently does not meet."""
    def __init__(s, ob, msg, info=None):
        super().__init__("%s: %s" % (ob, msg)); s.ob, s.msg, s.info = ob, msg, info or {}

class Obj:
    __slots__ = ("name", "size", "cells", "const", "live", "kind", "written", "big")
    def __init__(s, name, size, kind="stack", const=False):
        s.name, s.size, s.kind, s.const = name, size, kind, const
        s.cells = {}; s.live = True; s.written = False; s.big = False
    def __repr__(s): return "<%s:%d>" % (s.name, s.size)

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(s, obj, off=0): s.obj, s.off = obj, off
    def __repr__(s): return "&%s+%r" % (s.obj.name if s.obj else None, s.off)
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj is o.obj and s.off == o.off
    def __hash__(s): return hash((id(s.obj), s.off))

class Fn:
    __slots__ = ("name",)
    def __init__(s, name): s.name = name
    def __repr__(s): return "@" + s.name

class VB:
    """a vector bit-cast lazily: elements of width sw seen as elements of width tw (sw > tw)"""
    __slots__ = ("e", "sw", "tw")
    def __init__(s, e, sw, tw): s.e, s.sw, s.tw = e, sw, tw

class Machine:
    def __init__(s, mod, ctx=None, contracts=None):
        s.m = mod; s.c = ctx or Ctx(); s.contracts = contracts or {}
        s.globals = {}; s.nobj = 0
        s.decisions = []; s.pos = 0; s.pending = []
        s.branches = []     # symbolic branches taken (location, cond)
        s.symaddr = []      # symbolic addresses
        s.steps = 0; s.maxsteps = 30_000_000
        s.depth = 0
        s.backedge = s.onblock = None
        s.stack = []
        s.externals = {}
        s.called = {}
        s.obligations = 0
        s.access_checks = 0
        s.asm_checks = 0
        s.fork_ok = False
        s.cut = 0           # name stored words whose polynomial has more terms than this
        s.wildcard = None
        s.undef_reads = []
        from . import asm
        s.asm = asm

    # ------------------------------------------------------------ objects
    def new(s, name, size, kind="stack", const=False):
        s.nobj += 1
        return Obj("%s#%d" % (name, s.nobj), size, kind, const)
    def glob(s, name):
        if name in s.globals: return s.globals[name]
        if name in s.m.funcs or name in s.m.decls:
            r = Fn(name)
        elif name in s.m.globals:
            ty, init, const = s.m.globals[name]
            o = Obj(name, ir.size_of(ty), "global", const)
            r = Ptr(o, 0); s.globals[name] = r
            if init is not None: s.init(o, 0, ty, init)
        else:
            o = Obj(name, 1 << 20, "extern"); r = Ptr(o, 0)
        s.globals[name] = r
        return r
    def init(s, o, off, ty, v):
        k = v[0]
        if k == "z":
            for i in range(0, ir.size_of(ty)):
                pass
            s.zero(o, off, ty)
        elif k == "s":
            for i, b in enumerate(v[1]): o.cells[off + i] = (b, 1)
        elif k == "v":
            if ty.k == "struct":
                offs = ir.offsets(ty)[0]
                for (t, x), f in zip(v[1], offs): s.init(o, off + f, t, x)
            else:
                es = ir.size_of(ty.e)
                for i, (t, x) in enumerate(v[1]): s.init(o, off + i * es, t, x)
        elif k == "u": pass
        else: o.cells[off] = (s.const(v, ty), ir.size_of(ty))
    def zero(s, o, off, ty):
        if ty.k in ("int", "ptr"): o.cells[off] = (0, ir.size_of(ty))
        elif ty.k == "struct":
            for t, f in zip(ty.e, ir.offsets(ty)[0]): s.zero(o, off + f, t)
        else:
            es = ir.size_of(ty.e)
            for i in range(ty.n): s.zero(o, off + i * es, ty.e)
    def const(s, v, ty):
        k = v[0]
        if k == "c": return v[1]
        if k == "n": return 0
        if k == "u":
            return UNDEF if ty.k != "vec" else (UNDEF,) * ty.n
        if k == "g": return s.glob(v[1])
        if k == "z":
            if ty.k in ("vec", "arr"): return (s.const(v, ty.e),) * ty.n
            if ty.k == "struct": return tuple(s.const(v, t) for t in ty.e)
            return 0
        if k == "v": return tuple(s.const(x, t) for t, x in v[1])
        if k == "gep":
            base = s.const(v[2][0][1], v[2][0][0])
            return s.gep(v[1], base, [s.const(x, t) for t, x in v[2][1:]])
        if k == "cast":
            a = s.const(v[3], v[2])
            return s.cast(v[1], a, v[2], v[4])
        if k == "bin":
            a = s.const(v[3], v[2]); b = s.const(v[4], v[2])
            return s.binop(v[1], a, b, v[2].w)
        raise Unsupported("constant %r" % (v,))

    # ------------------------------------------------------------ memory
    def check(s, p, n, what):
        if not isinstance(p, Ptr):
            raise Violation("memory", "%s through non-pointer %r at %s" % (what, p, s.where()))
        if not isinstance(p.off, int):
            raise Unsupported("symbolic address in %s (%r) at %s" % (what, p, s.where()))
        if not p.obj.live: raise Violation("memory", "%s of dead object %r at %s" % (what, p, s.where()))
        if p.off < 0 or p.off + n > p.obj.size:
            raise Violation("memory", "%s of %d bytes at offset %d outside %r at %s" % (what, n, p.off, p.obj, s.where()))
        s.access_checks += 1
    def where(s):
        return " < ".join("%s" % f for f in reversed(s.stack[-4:])) or "top"
    def load_int(s, p, n):
        """n bytes as int/W/Ptr/UNDEF"""
        s.check(p, n, "read")
        o, off = p.obj, p.off
        c = o.cells.get(off)
        if c is not None and c[1] == n: return c[0]
        parts = []; pos = off; end = off + n
        while pos < end:
            st = pos
            cc = None
            for k in range(pos, pos - 8, -1):
                cc = o.cells.get(k)
                if cc is not None:
                    if k + cc[1] > pos: break
                    cc = None
                    break
            if cc is None: return UNDEF
            v, sz = cc
            avail = min(k + sz, end) - pos
            if isinstance(v, Undef): return UNDEF
            if isinstance(v, (Ptr, Fn)): raise Unsupported("partial read of a pointer at %s" % s.where())
            if k == pos and avail == sz: parts.append((v, sz * 8))
            else:
                if isinstance(v, int): parts.append(((v >> (8 * (pos - k))) & ((1 << (8 * avail)) - 1), avail * 8))
                else:
                    if s.cut_partial and len(v.p) > 2: v = s.c.define(v); o.cells[k] = (v, sz)
                    parts.append((s.c.extract(v, 8 * (pos - k), 8 * avail), avail * 8))
            pos += avail
        if all(isinstance(v, int) for v, _ in parts):
            r = 0; sh = 0
            for v, b in parts: r |= v << sh; sh += b
            return r
        if len(parts) == 1: return parts[0][0]
        return s.c.concat(parts)
    def store_int(s, p, n, v):
        s.check(p, n, "write")
        o, off = p.obj, p.off
        if o.const: raise Violation("frame", "write to read-only object %r at %s" % (p, s.where()))
        o.written = True
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[1] == n: cells[off] = (v, n); return
        # remove overlaps
        for k in range(off - 7, off + n):
            c = cells.get(k)
            if c is None: continue
            cv, sz = c
            if k + sz <= off: continue
            del cells[k]
            if k < off:
                cells[k] = (s.piece(cv, 0, off - k), off - k)
            if k + sz > off + n:
                cells[off + n] = (s.piece(cv, off + n - k, k + sz - off - n), k + sz - off - n)
        if n <= 8: cells[off] = (v, n)
        else: raise Unsupported("wide store")
    def piece(s, v, o, n):
        if isinstance(v, int): return (v >> (8 * o)) & ((1 << (8 * n)) - 1)
        if isinstance(v, W): return s.c.extract(v, 8 * o, 8 * n)
        return UNDEF
    def load(s, p, ty):
        if ty.k == "int":
            if ty.w <= 64: 
                v = s.load_int(p, (ty.w + 7) // 8)
                if ty.w % 8 and isinstance(v, int): v &= (1 << ty.w) - 1
                elif ty.w % 8 and isinstance(v, W): v = W(ty.w, v.p, v.lo, v.hi)
                return v
            n = ty.w // 64
            return s.join([s.load_int(Ptr(p.obj, p.off + 8 * i), 8) for i in range(n)], 64)
        if ty.k == "ptr": return s.load_int(p, 8)
        if ty.k == "vec":
            es = ty.e.w // 8
            return tuple(s.load_int(Ptr(p.obj, p.off + es * i), es) for i in range(ty.n))
        if ty.k == "arr":
            es = ir.size_of(ty.e)
            return tuple(s.load(Ptr(p.obj, p.off + es * i), ty.e) for i in range(ty.n))
        if ty.k == "struct":
            return tuple(s.load(Ptr(p.obj, p.off + f), t) for t, f in zip(ty.e, ir.offsets(ty)[0]))
        raise Unsupported("load %r" % ty)
    def store(s, p, ty, v):
        if ty.k == "int":
            if ty.w <= 64: s.store_int(p, (ty.w + 7) // 8, v)
            else:
                for i in range(ty.w // 64):
                    s.store_int(Ptr(p.obj, p.off + 8 * i), 8, s.bits(v, 64 * i, 64))
        elif ty.k == "ptr": s.store_int(p, 8, v)
        elif ty.k == "vec":
            es = ty.e.w // 8
            if isinstance(v, VB): es = v.sw // 8; v = v.e
            for i, x in enumerate(v): s.store_int(Ptr(p.obj, p.off + es * i), es, x)
        elif ty.k == "arr":
            es = ir.size_of(ty.e)
            for i, x in enumerate(v): s.store(Ptr(p.obj, p.off + es * i), ty.e, x)
        elif ty.k == "struct":
            for x, t, f in zip(v, ty.e, ir.offsets(ty)[0]): s.store(Ptr(p.obj, p.off + f), t, x)
        else: raise Unsupported("store %r" % ty)
    def bits(s, v, o, b):
        if isinstance(v, int): return (v >> o) & ((1 << b) - 1)
        if isinstance(v, Undef): return UNDEF
        return s.c.extract(v, o, b)
    def join(s, parts, w):
        if all(isinstance(x, int) for x in parts):
            r = 0
            for i, x in enumerate(parts): r |= x << (w * i)
            return r
        if any(isinstance(x, Undef) for x in parts): return UNDEF
        return s.c.concat([(x, w) for x in parts])
    def memcpy(s, d, src, n):
        if n == 0: return
        s.check(d, n, "write"); s.check(src, n, "read")
        items = []
        o = src.obj; pos = src.off; end = src.off + n
        while pos < end:
            c = o.cells.get(pos)
            if c is not None and pos + c[1] <= end:
                items.append((pos - src.off, c[1], c[0])); pos += c[1]; continue
            # partially covered or missing byte
            v = s.load_int(Ptr(o, pos), 1)
            items.append((pos - src.off, 1, v)); pos += 1
        if d.obj.const: raise Violation("frame", "write to read-only object %r at %s" % (d, s.where()))
        s.clear(d, n)
        d.obj.written = True
        for off, sz, v in items:
            if isinstance(v, Undef): continue
            d.obj.cells[d.off + off] = (v, sz)
    def clear(s, d, n):
        o, off = d.obj, d.off
        for k in range(off - 7, off + n):
            c = o.cells.get(k)
            if c is None or k + c[1] <= off: continue
            cv, sz = c
            del o.cells[k]
            if k < off: o.cells[k] = (s.piece(cv, 0, off - k), off - k)
            if k + sz > off + n: o.cells[off + n] = (s.piece(cv, off + n - k, k + sz - off - n), k + sz - off - n)
    def memset(s, d, v, n):
        if n == 0: return
        s.check(d, n, "write")
        if d.obj.const: raise Violation("frame", "write to read-only object %r at %s" % (d, s.where()))
        s.clear(d, n); d.obj.written = True
        i = 0
        while i < n:
            if isinstance(v, int) and (d.off + i) % 8 == 0 and n - i >= 8:
                d.obj.cells[d.off + i] = (v * 0x0101010101010101, 8); i += 8
            else:
                d.obj.cells[d.off + i] = (v, 1); i += 1

    # ------------------------------------------------------------ operations
    def gep(s, bt, base, idx):
        if isinstance(base, int): base = Ptr(None, base)
        off = 0; t = bt
        first = True
        for i in idx:
            if first: sz = ir.size_of(t); first = False
            elif t.k in ("arr", "vec"): t = t.e; sz = ir.size_of(t)
            elif t.k == "struct":
                off = off + ir.offsets(t)[0][i]; t = t.e[i]; continue
            else: raise Unsupported("gep %r" % t)
            if isinstance(i, int):
                if i >= 1 << 63: i -= 1 << 64
                off = off + i * sz if isinstance(off, int) else s.c.add(off, i * sz, 64)
            elif isinstance(i, Undef): raise Violation("memory", "address depends on an uninitialised value at %s" % s.where())
            else:
                j = s.c.norm(i)
                if j.lo == j.hi: off = off + j.lo * sz; continue
                off = s.c.add(s.c.mul(i, sz, 64), off, 64)
        o = base.off
        if isinstance(o, int) and isinstance(off, int): o = o + off
        else: o = s.c.add(s.c.tow(o, 64) if not isinstance(o, W) else o, s.c.tow(off, 64) if isinstance(off, int) else off, 64)
        return Ptr(base.obj, o)

    def binop(s, op, a, b, w):
        if isinstance(a, Undef) or isinstance(b, Undef):
            if op in ("and", "mul") and (a == 0 or b == 0): return 0
            return UNDEF
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == "add": return (a + b) & M
            if op == "sub": return (a - b) & M
            if op == "mul": return (a * b) & M
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & M if b < w else 0
            if op == "lshr": return a >> b
            if op == "ashr":
                if a >> (w - 1): a -= 1 << w
                return (a >> min(b, w - 1)) & M
            if op == "udiv": return a // b
            if op == "urem": return a % b
            if op in ("sdiv", "srem"):
                sa = a - (1 << w) if a >> (w - 1) else a; sb = b - (1 << w) if b >> (w - 1) else b
                q = abs(sa) // abs(sb); q = -q if (sa < 0) != (sb < 0) else q
                return (q if op == "sdiv" else sa - q * sb) & M
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and isinstance(a.off, int) and isinstance(b.off, int):
                return (a.off - b.off) & M
            if op == "and" and isinstance(b, int): 
                # alignment test
                if b < 32: return 0 if isinstance(a.off, int) and a.off & b == 0 else (a.off & b)
            if op == "add" and isinstance(b, int): return Ptr(a.obj, a.off + (b if b < 1 << 63 else b - (1 << 64)))
            raise Unsupported("pointer arithmetic %s %r %r" % (op, a, b))
        c = s.c
        if op == "add": return c.add(a, b, w)
        if op == "sub":
            if s.fork_masks and a == 0 and isinstance(b, W) and b.hi == 1: return -s.truth(b, "mask") & M       # a mask: one path per value
            return c.sub(a, b, w)
        if op == "mul":
            if a == 0 or b == 0: return 0
            return c.mul(a, b, w)
        if op == "and":
            if a == 0 or b == 0: return 0
            return c.land(a, b, w)
        if op == "or": return c.lor(a, b, w)
        if op == "xor": return c.lxor(a, b, w)
        if op in ("shl", "lshr", "ashr"):
            if isinstance(b, W):
                bb = c.norm(b)
                if bb.lo == bb.hi: b = bb.lo
            if isinstance(b, int):
                if b >= w: return UNDEF
                if op == "shl": return c.shl(a, b, w)
                if op == "lshr": return c.lshr(a, b, w)
                return c.ashr(a, b, w)
            return s.symshift(op, a, b, w)
        if op in ("udiv", "urem") and isinstance(b, int) and b & (b - 1) == 0:
            k = b.bit_length() - 1
            l, h = c.split(c.tow(a, w), k)
            return h if op == "udiv" else l
        raise Unsupported("%s on symbolic operands at %s" % (op, s.where()))
    def symshift(s, op, a, b, w):
        """shift by a small symbolic amount: case split on its booleans"""
        c = s.c; b = c.norm(c.tow(b, w))
        if b.hi - b.lo > 64: raise Unsupported("shift by a symbolic amount at %s" % s.where())
        bs = sorted(c.bools_of(b.p))
        if not bs: raise Unsupported("shift by a symbolic amount at %s" % s.where())
        x = bs[0]; vals = []
        for v in (0, 1):
            bp = c.subst(b.p, {x: v})
            bb = list(bp.values())[0] if len(bp) == 1 and () in bp else 0 if not bp else W(w, bp, b.lo, b.hi)
            vals.append(c.norm(c.tow(s.binop(op, a, bb, w), w)))
        return W(w, padd(vals[0].p, c.pmul({(x,): 1}, psub(vals[1].p, vals[0].p))), min(vals[0].lo, vals[1].lo), max(vals[0].hi, vals[1].hi))

    def icmp(s, pred, a, b, w):
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            def isnull(x): return isinstance(x, int) and x == 0 or (isinstance(x, Ptr) and x.obj is None and x.off == 0)
            if isnull(a) or isnull(b):
                e = isnull(a) and isnull(b)
                return int(e) if pred == "eq" else int(not e)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                a, b = a.off, b.off
            elif pred in ("eq", "ne"): return int((a == b) == (pred == "eq"))
            else: raise Unsupported("pointer comparison")
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a = a - (1 << w) if a >> (w - 1) else a; b = b - (1 << w) if b >> (w - 1) else b
                pred = pred[1:]
            elif pred[0] == "u" : pred = pred[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}[pred])
        return s.c.icmp(pred, a, b, w)

    def cast(s, op, a, t0, t1):
        if t0.k == "vec" or t1.k == "vec":
            if op == "bitcast": return s.vcast(a, t0, t1)
            a = s.elems(a, t0)
            return tuple(s.cast(op, x, t0.e, t1.e) for x in a)
        if isinstance(a, Undef): return UNDEF
        if op == "bitcast": return a
        if op == "ptrtoint":
            return a
        if op == "inttoptr":
            return a if isinstance(a, Ptr) else Ptr(None, a)
        if isinstance(a, int):
            if op == "zext": return a
            if op == "trunc": return a & ((1 << t1.w) - 1)
            if op == "sext": return (a - (1 << t0.w) if a >> (t0.w - 1) else a) & ((1 << t1.w) - 1)
        if isinstance(a, Ptr): return a if op != "trunc" else (a.off & ((1 << t1.w) - 1))
        if op == "zext":
            a = s.c.norm(s.c.tow(a, t0.w)); return W(t1.w, a.p, a.lo, a.hi)
        if op == "trunc": return W(t1.w, a.p, a.lo, a.hi)
        if op == "sext": return s.c.sext(a, t0.w, t1.w)
        raise Unsupported("cast %s" % op)

    def elems(s, v, t):
        """vector value as a tuple of elements of t.e.w bits"""
        if isinstance(v, VB):
            out = []
            for x in v.e:
                for j in range(v.sw // v.tw): out.append(s.bits(x, j * v.tw, v.tw))
            return tuple(out)
        return v
    def vcast(s, v, t0, t1):
        w1 = t1.e.w if t1.k == "vec" else t1.w
        if isinstance(v, VB):
            if v.sw == w1: return tuple(v.e) if t1.k == "vec" else v.e[0]
            if v.sw > w1: return VB(v.e, v.sw, w1) if t1.k == "vec" else s.bits(v.e[0], 0, w1)
            w0 = v.sw; v = tuple(v.e)
        elif t0.k != "vec":
            v = (v,); w0 = t0.w
        else: w0 = t0.e.w
        if w0 == w1: return v if t1.k == "vec" else v[0]
        if w0 > w1: return VB(v, w0, w1) if t1.k == "vec" else s.bits(v[0], 0, w1)
        k = w1 // w0
        out = tuple(s.join(v[i:i + k], w0) for i in range(0, len(v), k))
        return out if t1.k == "vec" else out[0]

    def shuffle(s, a, b, mask, t):
        n = t.n
        if isinstance(a, VB) or isinstance(b, VB):
            va = a if isinstance(a, VB) else None
            ref = a if isinstance(a, VB) else b
            k = ref.sw // ref.tw
            def wide(v):
                if isinstance(v, VB): return v.e if v.sw == ref.sw else None
                if all(isinstance(x, Undef) for x in v): return (UNDEF,) * (n // k)
                if all(isinstance(x, int) for x in v):
                    return tuple(s.join(v[i:i + k], ref.tw) for i in range(0, n, k))
                return None
            wa, wb = wide(a), wide(b)
            if wa is not None and wb is not None and len(mask) % k == 0:
                w = list(wa) + list(wb); out = []
                for g in range(0, len(mask), k):
                    mk = mask[g:g + k]
                    if isinstance(mk[0], int) and mk[0] % k == 0 and all(mk[j] == mk[0] + j for j in range(k)): out.append(w[mk[0] // k])
                    elif all(isinstance(x, Undef) for x in mk): out.append(UNDEF)
                    else: out = None; break
                if out is not None: return VB(tuple(out), ref.sw, ref.tw)
            a, b = s.elems(a, t), s.elems(b, t)
        w = list(a) + list(b)
        return tuple(UNDEF if isinstance(m, Undef) else w[m] for m in mask)

    # ------------------------------------------------------------ branching
    def note(s, kind, p):
        """control flow or an address depends on data: kept for the constant-time property"""
        CT.add((kind, s.stack[-1] if s.stack else "top", " < ".join(s.stack[-1:-4:-1]), tuple(sorted(set(s.c.atoms[a].name for m in p for a in m)))[:6]))
    def truth(s, c, kind="branch"):
        """decide a branch condition"""
        if isinstance(c, int): return c & 1
        if isinstance(c, Undef): raise Violation("uninitialised", "branch on an uninitialised value at %s" % s.where())
        c = s.c.norm(c)
        p = s.c.subst(c.p, s.c.assume) if s.c.assume else c.p
        if not p: return 0
        if len(p) == 1 and () in p: return p[()]
        s.branches.append((s.where(), p)); s.note(kind, p)
        if not s.fork_ok:
            raise Unsupported("branch on symbolic data at %s" % s.where())
        # single boolean
        ms = [m for m in p if m]
        if len(ms) != 1 or len(ms[0]) != 1 or not s.c.atoms[ms[0][0]].bool:
            a = s.c.atom("b%d" % len(s.c.atoms), 0, 1, "cond", p)
            s.c.facts.append((psub({(a.id,): 1}, p), 0, 0, a.id))
            aid, flip = a.id, 0
        else:
            aid = ms[0][0]; flip = p.get((), 0) & 1
        if s.pos < len(s.decisions): d = s.decisions[s.pos]
        else:
            d = 0; s.decisions.append(0)
            s.pending.append(s.decisions[:s.pos] + [1])
        s.pos += 1
        s.c.assume[aid] = d ^ flip
        return d

    # ------------------------------------------------------------ calls
    def call(s, name, args, rt=None):
        h = s.contracts.get(name)
        s.called[name] = s.called.get(name, 0) + 1
        if h is not None:
            s.stack.append("contract:" + name)
            try: return h(s, args)
            finally: s.stack.pop()
        f = s.m.funcs.get(name)
        if f is None or f.name in s.externals:
            e = s.externals.get(name) or BUILTINS.get(name)
            if e is None: raise Unsupported("call of external function %s without contract" % name)
            return e(s, args)
        r = s.run(f, args)
        if s.cut and s.depth <= s.cut_depth: s.name_outputs(args)
        return r
    cut_depth = 1; fork_masks = cut_partial = False
    def name_outputs(s, args):
        """after a call: give the words of the argument objects names (the callee's results are then
        referred to by name; their definitions are unfolded only when needed)"""
        for a in args:
            if not isinstance(a, Ptr) or a.obj is None or a.obj.const: continue
            for off, (v, n) in list(a.obj.cells.items()):
                if isinstance(v, W) and len(v.p) > s.cut: a.obj.cells[off] = (s.c.define(v), n)

    def run(s, f, args):
        RAN.add(f.name)
        ir.body(s.m, f)
        s.depth += 1
        if s.depth > 60: raise Unsupported("call depth")
        s.stack.append(f.name)
        env = {}
        for (t, n), a in zip(f.params, args): env[n] = a
        locs = []
        blk = f.order[0]; prev = None; visited = set()
        alias = f.entry_alias
        try:
            while True:
                ins = f.blocks[blk]
                visited.add(blk)
                i = 0
                if ins[0].op == "phi":
                    vals = []
                    pv = prev
                    for x in ins:
                        if x.op != "phi": break
                        for v, b in x.a:
                            if b == pv or (pv == "%entry" and b == alias): vals.append(s.val(env, v, x.ty)); break
                        else: raise Unsupported("phi")
                        i += 1
                    for x, v in zip(ins, vals): env[x.res] = v
                if s.onblock is not None: s.onblock(s, f, env, blk)
                nxt = None
                for x in ins[i:]:
                    s.steps += 1
                    op = x.op
                    h = getattr(s, "i_" + op, None)
                    if h is not None:
                        h(x, env); continue
                    if op == "br": nxt = x.a[0]; break
                    if op == "cbr":
                        nxt = x.a[1] if s.truth(s.val(env, x.a[0], ir.I1)) else x.a[2]; break
                    if op == "ret":
                        return s.val(env, x.a[0], x.ty) if x.a else None
                    if op == "alloca":
                        n = s.val(env, x.a[0], ir.I64)
                        if not isinstance(n, int): raise Unsupported("symbolic alloca")
                        o = s.new(f.name + x.res, ir.size_of(x.ty) * n); locs.append(o)
                        env[x.res] = Ptr(o, 0); continue
                    if op == "switch":
                        v = s.val(env, x.a[0], x.ty)
                        nxt = s.do_switch(v, x); break
                    if op == "unreachable": raise Violation("unreachable", "unreachable code reached at %s" % s.where())
                    raise Unsupported("instruction %s" % x.line)
                if s.steps > s.maxsteps: raise Unsupported("step limit at %s" % s.where())
                if nxt in visited and s.backedge is not None: s.backedge(s, f, env, blk, nxt)
                prev, blk = blk, nxt
        finally:
            for o in locs: o.live = False
            s.stack.pop(); s.depth -= 1
    def do_switch(s, v, x):
        if isinstance(v, W):
            v = s.c.norm(v)
            if v.lo == v.hi: v = v.lo
        if isinstance(v, int):
            for c, l in x.a[2]:
                if c == v: return l
            return x.a[1]
        for c, l in x.a[2]:
            if s.truth(s.c.eq(v, c, x.ty.w)): return l
        return x.a[1]
    def val(s, env, v, ty):
        if v[0] == "l": return env[v[1]]
        if v[0] == "c": return v[1]
        return s.const(v, ty)

    # ------------------------------------------------------------ instructions
    def _bin(s, x, env):
        a = s.val(env, x.a[0], x.ty); b = s.val(env, x.a[1], x.ty)
        if x.ty.k == "vec":
            a = s.elems(a, x.ty); b = s.elems(b, x.ty); w = x.ty.e.w
            env[x.res] = tuple(s.binop(x.op, p, q, w) for p, q in zip(a, b))
        else: env[x.res] = s.binop(x.op, a, b, x.ty.w)
    def _bitwise(s, x, env):
        a = s.val(env, x.a[0], x.ty); b = s.val(env, x.a[1], x.ty)
        if x.ty.k == "vec":
            if isinstance(a, VB) or isinstance(b, VB):
                ref = a if isinstance(a, VB) else b; k = ref.sw // ref.tw
                def wide(v):
                    if isinstance(v, VB): return v.e
                    return tuple(s.join(v[i:i + k], ref.tw) for i in range(0, len(v), k))
                env[x.res] = VB(tuple(s.binop(x.op, p, q, ref.sw) for p, q in zip(wide(a), wide(b))), ref.sw, ref.tw)
                return
            env[x.res] = tuple(s.binop(x.op, p, q, x.ty.e.w) for p, q in zip(a, b))
        else: env[x.res] = s.binop(x.op, a, b, x.ty.w)
    i_add = i_sub = i_mul = i_shl = i_lshr = i_ashr = i_udiv = i_urem = i_sdiv = i_srem = _bin
    i_and = i_or = i_xor = _bitwise
    def i_icmp(s, x, env):
        a = s.val(env, x.a[0], x.ty); b = s.val(env, x.a[1], x.ty)
        if x.ty.k == "vec":
            a = s.elems(a, x.ty); b = s.elems(b, x.ty)
            env[x.res] = tuple(s.icmp(x.x, p, q, x.ty.e.w) for p, q in zip(a, b))
        else: env[x.res] = s.icmp(x.x, a, b, x.ty.w if x.ty.k == "int" else 64)
    def _cast(s, x, env):
        env[x.res] = s.cast(x.op, s.val(env, x.a[0], x.x), x.x, x.ty)
    i_trunc = i_zext = i_sext = i_bitcast = i_ptrtoint = i_inttoptr = _cast
    def i_load(s, x, env):
        p = s.val(env, x.a[0], ir.PTR)
        if isinstance(p, Ptr) and isinstance(p.off, W): env[x.res] = s.symload(p, x.ty); return
        env[x.res] = s.load(p, x.ty)
    def symload(s, p, ty):
        off = s.c.norm(p.off)
        if off.lo == off.hi: return s.load(Ptr(p.obj, off.lo), ty)
        s.symaddr.append(s.where()); s.note("address", off.p)
        h = s.symload_hook
        if h is None: raise Unsupported("load at a symbolic address at %s" % s.where())
        return h(s, p, ty)
    symload_hook = None
    symstore_hook = None
    def i_store(s, x, env):
        p = s.val(env, x.a[1], ir.PTR)
        v = s.val(env, x.a[0], x.ty)
        if isinstance(p, Ptr) and isinstance(p.off, W):
            off = s.c.norm(p.off)
            if off.lo == off.hi: p = Ptr(p.obj, off.lo)
            else:
                s.symaddr.append(s.where()); s.note("address", off.p)
                if s.symstore_hook is None: raise Unsupported("store at a symbolic address at %s" % s.where())
                return s.symstore_hook(s, p, x.ty, v)
        s.store(p, x.ty, v)
    def i_getelementptr(s, x, env):
        base = s.val(env, x.a[0][1], x.a[0][0])
        env[x.res] = s.gep(x.ty, base, [s.val(env, v, t) for t, v in x.a[1:]])
    def i_select(s, x, env):
        c = s.val(env, x.a[0], x.x); a = s.val(env, x.a[1], x.ty); b = s.val(env, x.a[2], x.ty)
        if x.x.k == "vec":
            c = s.elems(c, x.x); a = s.elems(a, x.ty); b = s.elems(b, x.ty)
            env[x.res] = tuple(s.sel(k, p, q, x.ty.e.w) for k, p, q in zip(c, a, b))
        elif x.ty.k == "vec":
            a = s.elems(a, x.ty); b = s.elems(b, x.ty)
            env[x.res] = tuple(s.sel(c, p, q, x.ty.e.w) for p, q in zip(a, b))
        else: env[x.res] = s.sel(c, a, b, x.ty.w)
    def sel(s, c, a, b, w):
        if isinstance(c, Undef): return UNDEF
        if isinstance(c, int): return a if c & 1 else b
        c = s.c.norm(c)
        p = s.c.subst(c.p, s.c.assume) if s.c.assume else c.p
        if not p: return b
        if p == {(): 1}: return a
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return a if s.truth(c, "address") else b
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        return s.c.select(c, a, b, w)
    def i_freeze(s, x, env):
        v = s.val(env, x.a[0], x.ty)
        env[x.res] = v
    def i_extractelement(s, x, env):
        v = s.elems(s.val(env, x.a[0], x.ty), x.ty); i = s.val(env, x.a[1], ir.I64)
        if not isinstance(i, int): raise Unsupported("extractelement with symbolic index")
        env[x.res] = v[i]
    def i_insertelement(s, x, env):
        v = list(s.elems(s.val(env, x.a[0], x.ty), x.ty)); e = s.val(env, x.a[1], x.ty.e); i = s.val(env, x.a[2], ir.I64)
        v[i] = e; env[x.res] = tuple(v)
    def i_shufflevector(s, x, env):
        a = s.val(env, x.a[0], x.ty); b = s.val(env, x.a[1], x.ty); mk = s.const(x.a[2], x.x)
        env[x.res] = s.shuffle(a, b, mk, x.ty)
    def i_extractvalue(s, x, env):
        v = s.val(env, x.a[0], x.ty)
        for i in x.x: v = v[i]
        env[x.res] = v
    def i_insertvalue(s, x, env):
        v = s.val(env, x.a[0], x.ty)
        v = list(v) if isinstance(v, tuple) else [UNDEF] * len(x.ty.e)
        v[x.x[0]] = s.val(env, x.a[1], None); env[x.res] = tuple(v)
    def i_asm(s, x, env):
        args = [s.val(env, v, t) for t, v in x.a]
        r = s.asm.execute(s, x, args)
        if x.res: env[x.res] = r
    def i_call(s, x, env):
        f = x.x
        if f[0] == "g":
            name = f[1]
        else:
            fv = s.val(env, f, ir.PTR)
            if not isinstance(fv, Fn): raise Violation("memory", "call through %r at %s" % (fv, s.where()))
            name = fv.name
        if name.startswith("llvm."):
            r = s.intrinsic(name, x, env)
        else:
            args = [s.val(env, v, t) for t, v in x.a]
            r = s.call(name, args, x.ty)
        if x.res: env[x.res] = r
    def intrinsic(s, name, x, env):
        n = name[5:]
        if n.startswith(("lifetime.", "prefetch", "assume", "dbg.", "experimental.noalias", "x86.avx.vzeroupper")): return None
        args = [s.val(env, v, t) for t, v in x.a]
        if n.startswith(("memcpy", "memmove")):
            if not isinstance(args[2], int): raise Unsupported("memcpy of symbolic length at %s" % s.where())
            s.memcpy(args[0], args[1], args[2]); return None
        if n.startswith("memset"):
            if not isinstance(args[2], int): raise Unsupported("memset of symbolic length at %s" % s.where())
            s.memset(args[0], args[1], args[2]); return None
        at = [t for t, _ in x.a]
        mm = re.match(r"x86\.(?:avx2|sse2)\.(psrl|psll|psra)(i|v)?\.([qdw])(\.256)?$", n)
        if mm:
            op = {"psrl": "lshr", "psll": "shl", "psra": "ashr"}[mm.group(1)]
            v = s.elems(args[0], at[0]); w = at[0].e.w
            if mm.group(2) == "v": cnt = s.elems(args[1], at[1])
            elif mm.group(2) == "i": cnt = [args[1]] * len(v)
            else: cnt = [s.elems(args[1], at[1])[0]] * len(v)
            def sh(a, k):
                if not isinstance(k, int): raise Unsupported("vector shift by symbolic count")
                if k >= w:
                    if op != "ashr": return 0
                    k = w - 1
                return s.binop(op, a, k, w)
            return tuple(sh(a, k) for a, k in zip(v, cnt))
        if n == "x86.avx2.pblendvb": return s.blendv(args[0], args[1], args[2])
        if n == "x86.avx2.permd":
            v = args[0]; idx = s.elems(args[1], at[1])
            if not all(isinstance(i, int) for i in idx): return s.permd_sym(args[0], args[1], at)
            mask = tuple(i & 7 for i in idx)
            return s.shuffle(v, (UNDEF,) * 8, mask, at[0])
        if n.startswith("bswap."):
            w = x.ty.w; v = args[0]
            return s.join([s.bits(v, w - 8 - 8 * i, 8) for i in range(w // 8)], 8)
        if n.startswith(("fshl.", "fshr.")):
            w = x.ty.w if x.ty.k == "int" else x.ty.e.w
            def fs(a, b, c):
                c %= w
                if n[3] == "r": c = (w - c) % w; 
                if n[3] == "r" and c == 0: return b
                if c == 0: return a
                return s.binop("or", s.binop("shl", a, c, w), s.binop("lshr", b, w - c, w), w)
            if x.ty.k == "vec": return tuple(fs(a, b, c) for a, b, c in zip(*[s.elems(q, x.ty) for q in args]))
            return fs(*args)
        mm = re.match(r"(umin|umax|smin|smax)\.i", n)
        if mm:
            w = x.ty.w
            lt = s.icmp(("u" if n[0] == "u" else "s") + "lt", args[0], args[1], w)
            return s.sel(lt, args[0], args[1], w) if "min" in n else s.sel(lt, args[1], args[0], w)
        if n == "trap": raise Violation("trap", "trap reached at %s" % s.where())
        if n.startswith("vector.reduce"):
            raise Unsupported("intrinsic %s" % name)
        if n.startswith("objectsize"): return (1 << 64) - 1
        if n.startswith("expect"): return args[0]
        raise Unsupported("intrinsic %s" % name)
    def permd_sym(s, v, idx, at):
        """vpermd whose index vector depends on booleans: case split"""
        c = s.c
        flat = idx.e if isinstance(idx, VB) else idx
        bs = sorted(set(b for q in flat if isinstance(q, W) for b in c.bools_of(c.norm(q).p)))
        if not bs:
            def k(q):
                if isinstance(q, W):
                    q = c.norm(q)
                    if not q.p: return 0
                    if len(q.p) == 1 and () in q.p: return q.p[()]
                return q
            ii = tuple(k(q) for q in flat)
            e = s.elems(VB(ii, idx.sw, idx.tw) if isinstance(idx, VB) else ii, at[1])
            e = tuple(k(q) for q in e)
            if all(isinstance(q, int) for q in e): return s.shuffle(v, (UNDEF,) * 8, tuple(q & 7 for q in e), at[0])
        if not bs or len(bs) > 3: raise Unsupported("permd with symbolic index at %s: %s %s" % (s.where(), bs, [c.show(c.norm(q).p, 30) if isinstance(q, W) else q for q in flat][:3]))
        b = bs[0]; res = []
        for val in (0, 1):
            fl = []
            for q in flat:
                if isinstance(q, W):
                    p = c.subst(c.norm(q).p, {b: val})
                    if len(p) == 0: q = 0
                    elif len(p) == 1 and () in p: q = p[()]
                    else: q = W(q.w, p, 0, (1 << q.w) - 1)
                fl.append(q)
            ii = VB(tuple(fl), idx.sw, idx.tw) if isinstance(idx, VB) else tuple(fl)
            e = s.elems(ii, at[1])
            if all(isinstance(q, int) for q in e): r = s.shuffle(v, (UNDEF,) * 8, tuple(q & 7 for q in e), at[0])
            else: r = s.permd_sym(v, ii, at)
            res.append(r)
        r0, r1 = res
        w = s.c
        if isinstance(r0, VB) and isinstance(r1, VB) and r0.sw == r1.sw:
            return VB(tuple(s.sel(c.var(c.atoms[b], 1), y, x, r0.sw) for x, y in zip(r0.e, r1.e)), r0.sw, r0.tw)
        r0 = s.elems(r0, at[0]); r1 = s.elems(r1, at[0])
        return tuple(s.sel(c.var(c.atoms[b], 1), y, x, 32) for x, y in zip(r0, r1))
    def blendv(s, a, b, m):
        ref = next((v for v in (a, b, m) if isinstance(v, VB)), None)
        if ref is None:
            return tuple(s.sel(s.bits(k, 7, 1), y, x, 8) for x, y, k in zip(a, b, m))
        k = ref.sw // ref.tw
        def wide(v):
            if isinstance(v, VB): return v.e
            return tuple(s.join(v[i:i + k], ref.tw) for i in range(0, len(v), k))
        out = []
        for x, y, q in zip(wide(a), wide(b), wide(m)):
            if isinstance(q, int):
                r = 0; full = (1 << ref.sw) - 1
                mk = 0
                for j in range(ref.sw // 8):
                    if q >> (8 * j + 7) & 1: mk |= 0xff << (8 * j)
                if mk == full: out.append(y)
                elif mk == 0: out.append(x)
                else: out.append(s.binop("or", s.binop("and", x, full ^ mk, ref.sw), s.binop("and", y, mk, ref.sw), ref.sw))
                continue
            q = s.c.norm(q); F = (1 << ref.sw) - 1
            if all(c % F == 0 for c in q.p.values()):
                bb = W(1, {mm: c // F for mm, c in q.p.items()}, 0, 1)
                out.append(s.sel(bb, y, x, ref.sw))
            else: raise Unsupported("blend with a symbolic non-lane mask at %s" % s.where())
        return VB(tuple(out), ref.sw, ref.tw)

import re
def _b_memcpy(s, a):
    if not isinstance(a[2], int): raise Unsupported("memcpy of symbolic length at %s" % s.where())
    s.memcpy(a[0], a[1], a[2]); return a[0]
def _b_memset(s, a):
    s.memset(a[0], a[1] & 255 if isinstance(a[1], int) else W(8, a[1].p, a[1].lo, a[1].hi), a[2]); return a[0]
def _b_memcmp(s, a):
    """result: nonzero iff some byte differs (only its zero-ness is specified)"""
    n = a[2]
    if not isinstance(n, int): raise Unsupported("memcmp length")
    eqs = []
    for i in range(n):
        x = s.load_int(Ptr(a[0].obj, a[0].off + i), 1); y = s.load_int(Ptr(a[1].obj, a[1].off + i), 1)
        if isinstance(x, Undef) or isinstance(y, Undef): return UNDEF
        eqs.append(s.icmp("eq", x, y, 8))
    if all(isinstance(e, int) for e in eqs): return 0 if all(eqs) else 1
    if not s.fork_ok: raise Unsupported("memcmp of symbolic data at %s" % s.where())
    i = 0
    while i < n:
        k = next(k for k in (8, 4, 2, 1) if k <= n - i)
        if not s.truth(s.icmp("eq", s.load_int(Ptr(a[0].obj, a[0].off + i), k), s.load_int(Ptr(a[1].obj, a[1].off + i), k), 8 * k), "memcmp"):
            t = s.c.atom("memcmp%d" % len(s.c.atoms), 1, (1 << 32) - 1, "any")
            return W(32, {(t.id,): 1}, 1, (1 << 32) - 1)
        i += k
    return 0
BUILTINS = {"memcpy": _b_memcpy, "memmove": _b_memcpy, "memset": _b_memset, "memcmp": _b_memcmp}
